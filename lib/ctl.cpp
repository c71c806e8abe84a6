#include "ctl.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cxxabi.h>
#include <climits>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

extern "C" {
void * __libc_malloc(size_t);
void __libc_free(void *);
void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t);
void * __libc_memalign(size_t, size_t);
}

namespace sched {
namespace {

constexpr int MAXT = 16;
constexpr uint64_t NEVER = UINT64_MAX;
using Addr = uintptr_t;

// Allocator for the runtime's own containers (never the interposed malloc).
template <typename T> struct RA {
    using value_type = T;
    RA() = default;
    template <typename U> RA(RA<U> const &) {}
    T * allocate(size_t n) { return (T *)__libc_malloc(n * sizeof(T)); }
    void deallocate(T * p, size_t) { __libc_free(p); }
    bool operator==(RA const &) const { return true; }
    bool operator!=(RA const &) const { return false; }
};
template <typename T> using Vec = std::vector<T, RA<T>>;
template <typename K, typename V> using Map = std::map<K, V, std::less<K>, RA<std::pair<K const, V>>>;
template <typename K, typename V> using UMap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, RA<std::pair<K const, V>>>;

struct VC {
    uint32_t c[MAXT] = {};
    void join(VC const & o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum State { RUN, MUTEX, COND, JOIN, GUARD, SLEEP, DONE };
char const * const stateName[] = {"runnable", "waiting for a mutex", "waiting on a condition variable", "joining a thread", "waiting for static initialization", "sleeping", "finished"};

struct Thr {
    int id = 0;
    pthread_t pt{};
    State st = RUN;
    Addr obj = 0;
    uint64_t deadline = NEVER;
    bool timedOut = false, spurious = false, yielded = false;
    std::atomic<int> sem{0};
    VC vc, acq, rel;
    bool hasAcq = false, hasRel = false;
    void * (*fn)(void *) = nullptr;
    void * arg = nullptr;
    void * ret = nullptr;
    bool joined = false;
    uint64_t steps = 0, turn = 0; // turn: when it last got its turn
};

struct Rec { uint32_t clk; uint8_t tid, mask, write, atomic; Addr pc; };
struct Cell { bool freed = false; uint8_t n = 0; Rec r[10]; };
struct Mutex { bool tried = false;  int owner = -1; int depth = 0; VC vc; };

bool active = false;
__thread Thr * self_ = nullptr;
__thread int inRt = 0;
struct Rt { Rt() { ++inRt; } ~Rt() { --inRt; } };

Config cfg;
pbt::Ctx * C = nullptr;
Vec<Thr *> thrs;
Thr * cur = nullptr;
UMap<Addr, Cell> cells;
Map<Addr, Mutex> mutexes;
// Reader-writer locks.
struct RwLock { int writer = -1, readers = 0; VC vc, rvc; };
Map<Addr, RwLock> rwlocks;
Map<Addr, Vec<Thr *>> conds;
UMap<Addr, VC> syncs;
struct Blk { size_t size; bool freed; void * base; };
Map<Addr, Blk> blks;
size_t quarantined = 0;
uint64_t vnow, nsteps, runLeft, sinceSwitch;
long createsLeft = -1;
unsigned mean_, nswitch;
long live = 0;

bool on() { return active && self_ && !inRt; }

[[noreturn]] void die(char const * fmt, ...) {
    char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    ++inRt;
    pbt::fail("%s", b);
}

void where(Addr pc, char * out, size_t n) {
    Dl_info i;
    if (pc && dladdr((void *)pc, &i)) {
        int st = 0;
        char * d = i.dli_sname ? abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st) : nullptr;
        snprintf(out, n, "%.300s (+0x%lx)", d ? d : i.dli_sname ? i.dli_sname : "?", (unsigned long)(pc - (Addr)i.dli_fbase));
    }
    else snprintf(out, n, "pc 0x%lx", (unsigned long)pc);
}

void semWait(std::atomic<int> & s) {
    for (;;) {
        int v = s.load();
        if (v > 0) { if (s.compare_exchange_strong(v, v - 1)) return; continue; }
        syscall(SYS_futex, (int *)&s, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
}
void semPost(std::atomic<int> & s) { s.fetch_add(1); syscall(SYS_futex, (int *)&s, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

uint64_t rdraw(uint64_t b) { return b ? C->draw(b) : 0; }

void newRun() {
    // How many scheduling points until the next forced preemption; 0: none.
    uint64_t v = C->length(4000, mean_);
    runLeft = v;
}

void switchTo(Thr * t) {
    Thr * const me = self_;
    sinceSwitch = 0;
    t->turn = nsteps;
    if (t == me) return;
    cur = t;
    semPost(t->sem);
    if (me->st != DONE) semWait(me->sem);
}

[[noreturn]] void deadlock() {
    std::string m = "deadlock: no thread can make progress:";
    for (auto t : thrs) if (t->st != DONE) {
        char b[96]; snprintf(b, sizeof b, " [thread %d %s]", t->id, stateName[t->st]); m += b;
    }
    die("%s", m.c_str());
}

bool fireTimer() {
    Thr * best = nullptr;
    for (auto t : thrs)
        if (t->st != DONE && t->st != RUN && t->deadline != NEVER && (!best || t->deadline < best->deadline)) best = t;
    if (!best) return false;
    if (best->deadline > vnow) vnow = best->deadline;
    // Everything due now wakes.
    for (auto t : thrs)
        if (t->st != DONE && t->st != RUN && t->deadline != NEVER && t->deadline <= vnow) {
            if (t->st == COND) { auto & w = conds[t->obj]; w.erase(std::remove(w.begin(), w.end(), t), w.end()); }
            t->timedOut = true; t->deadline = NEVER; t->st = RUN;
        }
    return true;
}

bool spuriousWake() {
    Vec<Thr *> w;
    for (auto t : thrs) if (t->st == COND) w.push_back(t);
    if (w.empty()) return false;
    Thr * t = w[rdraw(w.size() - 1)];
    auto & q = conds[t->obj]; q.erase(std::remove(q.begin(), q.end(), t), q.end());
    t->spurious = true; t->deadline = NEVER; t->st = RUN;
    return true;
}

void wakeDue() {
    for (auto t : thrs)
        if (t->st != DONE && t->st != RUN && t->deadline != NEVER && t->deadline <= vnow) {
            if (t->st == COND) { auto & w = conds[t->obj]; w.erase(std::remove(w.begin(), w.end(), t), w.end()); }
            t->timedOut = true; t->deadline = NEVER; t->st = RUN;
        }
}

Thr * pickOther(bool force) {
    Vec<Thr *> r;
    for (auto t : thrs) if (t != self_ && t->st == RUN) r.push_back(t);
    if (r.empty()) return nullptr;
    (void)force;
    // Fairness: threads which can run do not starve, whatever is drawn.
    Thr * oldest = r[0]; for (auto t : r) if (t->turn < oldest->turn) oldest = t;
    if (nsteps - oldest->turn > 4000) return oldest;
    return r[rdraw(r.size() - 1)];
}

void step() {
    if (self_) ++self_->steps;
    if (++nsteps > cfg.maxSteps) die("no progress within %lu steps (livelock or lost wake-up of a spinning thread)", (unsigned long)cfg.maxSteps);
}

// Current thread cannot continue until its state is RUN again.
void block() {
    Thr * const me = self_;
    step();
    for (;;) {
        Thr * n = pickOther(true);
        if (!n && me->st == RUN) { cur = me; return; }
        if (n) {
            newRun();
            switchTo(n);
            if (me->st == RUN && cur == me) return;
            continue;
        }
        if (cfg.idle) { uint64_t next = NEVER; for (auto t : thrs) if (t->st != DONE && t->st != RUN) next = std::min(next, t->deadline); if (next != NEVER && next > vnow) { Quiet q; cfg.idle(next); } }
        if (!fireTimer()) deadlock();
    }
}

void pointImpl() {
    Thr * const me = self_;
    step();
    ++sinceSwitch;
    bool preempt = false;
    if (runLeft && --runLeft == 0) preempt = true;
    if (preempt) {
        unsigned const kind = C->weighted({24, cfg.spurious ? 2u : 0u, 3});
        if (kind == 1) spuriousWake();
        else if (kind == 2) {
            // let virtual time pass: to the next deadline or by a little
            if (!fireTimer()) vnow += 1000;
        }
        Thr * n = pickOther(false);
        newRun();
        if (n) { ++nswitch; switchTo(n); }
    } else if (sinceSwitch > 400) {
        // fairness: a spinning thread must let the others run
        sinceSwitch = 0;
        Thr * n = nullptr;
        for (size_t k = 1; k <= thrs.size() && !n; ++k) { Thr * t = thrs[(me->id + k) % thrs.size()]; if (t != me && t->st == RUN) n = t; }
        if (n) switchTo(n); else fireTimer();
    }
}

void yieldImpl() {
    step();
    vnow += 1000; wakeDue();
    Thr * n = pickOther(true);
    if (n) { newRun(); switchTo(n); } else if (fireTimer()) { n = pickOther(true); if (n) switchTo(n); }
}

// ---- happens-before ----
void tickClock(Thr * t) { ++t->vc.c[t->id]; }
void acquireVC(VC const & v) { self_->vc.join(v); }
void releaseTo(VC & v) { v.join(self_->vc); tickClock(self_); }

void report(char const * what, Addr a, size_t size, bool write, bool atomic, Addr pc, Rec const & o) {
    char w1[400], w2[400]; where(pc, w1, sizeof w1); where(o.pc, w2, sizeof w2);
    die("%s: %s%s of %zu byte(s) by thread %d in %s\n  conflicts with earlier %s%s by thread %d in %s", what,
        atomic ? "atomic " : "", write ? "write" : "read", size, self_->id, w1,
        o.atomic ? "atomic " : "", o.write ? "write" : "read", (int)o.tid, w2);
}

void accessGranule(Addr g, uint8_t mask, size_t size, bool write, bool atomic, Addr pc) {
    Cell & c = cells[g];
    if (c.freed) { char w1[400]; where(pc, w1, sizeof w1); die("use after free: %s of %zu byte(s) by thread %d in %s", write ? "write" : "read", size, self_->id, w1); }
    uint8_t const me = (uint8_t)self_->id;
    int keep = 0;
    for (int i = 0; i < c.n; ++i) {
        Rec const o = c.r[i];
        bool drop = false;
        if (o.mask & mask) {
            bool const hb = o.tid == me || o.clk <= self_->vc.c[o.tid];
            if (o.tid != me && (write || o.write) && !(atomic && o.atomic) && !hb)
                report("data race", g, size, write, atomic, pc, o);
            // superseded records
            if ((o.mask & ~mask) == 0 && hb && (write || (!o.write && o.tid == me)) && (!atomic || o.atomic)) drop = true;
        }
        if (!drop) c.r[keep++] = o;
    }
    c.n = (uint8_t)keep;
    if (c.n == 10) { memmove(&c.r[0], &c.r[1], 9 * sizeof(Rec)); c.n = 9; }
    c.r[c.n++] = Rec{self_->vc.c[me], me, mask, (uint8_t)write, (uint8_t)atomic, pc};
}

void access(Addr a, size_t size, bool write, bool atomic, Addr pc) {
    Addr const end = a + size;
    for (Addr g = a & ~Addr(7); g < end; g += 8) {
        unsigned const lo = a > g ? a - g : 0, hi = end < g + 8 ? end - g : 8;
        accessGranule(g, (uint8_t)(((1u << (hi - lo)) - 1) << lo), size, write, atomic, pc);
    }
}

void clearRange(Addr a, size_t size, bool markFreed) {
    if (size > (1 << 16)) {
        for (auto it = cells.begin(); it != cells.end();) {
            if (it->first >= a && it->first < a + size) it = cells.erase(it); else ++it;
        }
        for (auto it = syncs.begin(); it != syncs.end();) {
            if (it->first >= a && it->first < a + size) it = syncs.erase(it); else ++it;
        }
        return;
    }
    for (Addr g = a & ~Addr(7); g < a + size; g += 8) {
        auto it = cells.find(g);
        if (markFreed) { if (it == cells.end()) it = cells.emplace(g, Cell()).first; it->second.freed = true; it->second.n = 0; }
        else if (it != cells.end()) cells.erase(it);
    }
    for (Addr x = a; x < a + size; ++x) { if (syncs.empty()) break; if ((x & 3) == 0 || true) syncs.erase(x); }
}

void freedObjects(Addr a, size_t size) {
    for (auto it = mutexes.lower_bound(a); it != mutexes.end() && it->first < a + size;) {
        if (it->second.owner >= 0) die("memory holding a mutex that thread %d has locked is freed by thread %d", it->second.owner, self_->id);
        it = mutexes.erase(it);
    }
    for (auto it = rwlocks.lower_bound(a); it != rwlocks.end() && it->first < a + size;) {
        if (it->second.writer >= 0 || it->second.readers) die("memory holding a locked reader-writer lock is freed by thread %d", self_->id);
        it = rwlocks.erase(it);
    }
    for (auto t : thrs) {
        if ((t->st == MUTEX || t->st == COND) && t->obj >= a && t->obj < a + size)
            die("memory holding a %s that thread %d waits on is freed by thread %d", t->st == MUTEX ? "mutex" : "condition variable", t->id, self_->id);
    }
    for (auto it = conds.lower_bound(a); it != conds.end() && it->first < a + size;) it = conds.erase(it);
}

void afterAlloc(void * p, size_t n) {
    if (!p || !on()) return;
    Rt rt;
    Addr const a = (Addr)p;
    clearRange(a, n, false);
    for (auto it = mutexes.lower_bound(a); it != mutexes.end() && it->first < a + n;) it = mutexes.erase(it);
    for (auto it = rwlocks.lower_bound(a); it != rwlocks.end() && it->first < a + n;) it = rwlocks.erase(it);
    blks[a] = Blk{n, false, p};
    ++live;
}

// returns true if the block is taken over (quarantined)
bool beforeFree(void * p) {
    if (!p || !active || inRt) return false;
    if (!self_) { // thread exit code: only forget the block
        return false;
    }
    Rt rt;
    auto it = blks.find((Addr)p);
    if (it == blks.end()) return false;
    if (it->second.freed) die("double free by thread %d", self_->id);
    Addr const pc = 0;
    // Freeing is a write to the whole block: check it against the others' accesses.
    for (Addr g = (Addr)p & ~Addr(7); it->second.size <= 4096 && g < (Addr)p + it->second.size; g += 8) {
        auto ci = cells.find(g);
        if (ci == cells.end()) continue;
        for (int i = 0; i < ci->second.n; ++i) {
            Rec const & o = ci->second.r[i];
            if (o.tid != self_->id && o.clk > self_->vc.c[o.tid]) {
                if (o.atomic) continue; // e.g. reference counters dropped with relaxed/acq_rel by the library
                report("data race (free)", g, it->second.size, true, false, pc, o);
            }
        }
    }
    freedObjects((Addr)p, it->second.size);
    it->second.freed = true;
    --live;
    clearRange((Addr)p, it->second.size, true);
    quarantined += it->second.size;
    return true;
}

VC excSync;

void * realSym(char const * n) { void * p = dlsym(RTLD_NEXT, n); if (!p) { fprintf(stderr, "no symbol %s\n", n); abort(); } return p; }
#define REAL(name, ...) static auto const real = [] { Rt rt; return (decltype(&::name))realSym(#name); }(); return real(__VA_ARGS__)

void * trampoline(void * p) {
    Thr * const t = (Thr *)p;
    {
        Rt rt;
        semWait(t->sem);
        pthread_attr_t at; void * sa; size_t sz;
        if (pthread_getattr_np(pthread_self(), &at) == 0) {
            pthread_attr_getstack(&at, &sa, &sz); pthread_attr_destroy(&at);
            clearRange((Addr)sa, sz, false);
        }
    }
    self_ = t;
    void * r = t->fn(t->arg);
    ++inRt;
    step();
    t->ret = r;
    t->st = DONE;
    tickClock(t);
    for (auto o : thrs) if (o->st == JOIN && o->obj == (Addr)t) o->st = RUN;
    // hand over
    for (;;) {
        Vec<Thr *> rr;
        for (auto o : thrs) if (o->st == RUN) rr.push_back(o);
        if (!rr.empty()) { Thr * n = rr[rdraw(rr.size() - 1)]; newRun(); sinceSwitch = 0; cur = n; self_ = nullptr; semPost(n->sem); break; }
        bool anyLeft = false;
        for (auto o : thrs) if (o->st != DONE) anyLeft = true;
        if (!anyLeft) break; // cannot happen: thread 0 waits for all
        if (!fireTimer()) deadlock();
    }
    return r;
}

void checkAlive(Addr m, char const * what) {
    auto it = cells.find(m & ~Addr(7));
    if (it != cells.end() && it->second.freed) die("use after free: thread %d %s in freed memory", self_->id, what);
}
bool recursive(Addr m) { return (((pthread_mutex_t *)m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
bool lockImpl(Addr m, uint64_t deadline = NEVER) {
    pointImpl();
    Thr * const me = self_;
    me->timedOut = false;
    for (;;) {
        checkAlive(m, "locks a mutex");
        Mutex & x = mutexes[m];
        if (x.owner < 0) { x.owner = me->id; x.depth = 1; acquireVC(x.vc); me->deadline = NEVER; return true; }
        if (x.owner == me->id && recursive(m)) { ++x.depth; return true; }
        if (x.owner == me->id && deadline == NEVER) die("deadlock: thread %d locks a mutex it already holds", me->id);
        if (me->timedOut || (deadline != NEVER && deadline <= vnow)) { me->deadline = NEVER; x.tried = true; return false; }
        me->st = MUTEX; me->obj = m; me->deadline = deadline;
        block();
    }
}
void unlockNoPoint(Addr m) {
    checkAlive(m, "unlocks a mutex");
    Mutex & x = mutexes[m];
    if (x.owner != self_->id) die("thread %d unlocks a mutex it does not hold", self_->id);
    if (--x.depth > 0) return;
    x.owner = -1;
    releaseTo(x.vc);
    for (auto t : thrs) if (t->st == MUTEX && t->obj == m) t->st = RUN;
}

bool rwLock(Addr m, bool write, bool tryOnly, uint64_t deadline = NEVER) {
    pointImpl();
    Thr * const me = self_;
    me->timedOut = false;
    for (;;) {
        checkAlive(m, "locks a reader-writer lock");
        RwLock & x = rwlocks[m];
        if (x.writer < 0 && (!write || !x.readers)) {
            acquireVC(x.vc); if (write) { acquireVC(x.rvc); x.writer = me->id; } else ++x.readers;
            me->deadline = NEVER; return true;
        }
        if (tryOnly || me->timedOut || (deadline != NEVER && deadline <= vnow)) { me->deadline = NEVER; return false; }
        if (x.writer == me->id && deadline == NEVER) die("deadlock: thread %d locks a reader-writer lock it already holds", me->id);
        me->st = MUTEX; me->obj = m; me->deadline = deadline;
        block();
    }
}
void rwUnlock(Addr m) {
    pointImpl();
    checkAlive(m, "unlocks a reader-writer lock");
    RwLock & x = rwlocks[m];
    if (x.writer == self_->id) { x.writer = -1; releaseTo(x.vc); }
    else if (x.readers > 0) { --x.readers; releaseTo(x.rvc); }
    else die("thread %d unlocks a reader-writer lock it does not hold", self_->id);
    for (auto t : thrs) if (t->st == MUTEX && t->obj == m) t->st = RUN;
    pointImpl();
}

int condWait(Addr cnd, Addr m, uint64_t deadline) {
    pointImpl();
    checkAlive(cnd, "waits on a condition variable");
    if (mutexes[m].owner != self_->id) die("thread %d waits on a condition variable without holding its mutex", self_->id);
    if (mutexes[m].depth > 1) die("thread %d waits on a condition variable holding its mutex more than once", self_->id);
    unlockNoPoint(m);
    Thr * const me = self_;
    me->timedOut = me->spurious = false;
    if (deadline != NEVER && deadline <= vnow) {
        me->timedOut = true;
        pointImpl();
    } else {
        conds[cnd].push_back(me);
        me->st = COND; me->obj = cnd; me->deadline = deadline;
        block();
        me->deadline = NEVER;
    }
    bool const to = me->timedOut;
    // reacquire
    for (;;) {
        checkAlive(m, "relocks a mutex after waiting");
        Mutex & x = mutexes[m];
        if (x.owner < 0) { x.owner = me->id; x.depth = 1; acquireVC(x.vc); break; }
        me->st = MUTEX; me->obj = m;
        block();
    }
    return to ? ETIMEDOUT : 0;
}

uint64_t const REALBASE = 1700000000ull * 1000000000ull, MONOBASE = 5000ull * 1000000000ull;
uint64_t baseOf(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REALBASE : MONOBASE; }
uint64_t toNs(timespec const * t, clockid_t c) {
    if (t->tv_sec < 0) return 0;
    unsigned __int128 const v = (unsigned __int128)t->tv_sec * 1000000000u + t->tv_nsec;
    uint64_t const b = baseOf(c);
    if (v <= b) return 0;
    if (v - b >= NEVER / 6) return NEVER; // about a hundred years: no time limit. Clocks count in 63 bits
    return (uint64_t)(v - b);
}

} // namespace

uint64_t now() { return vnow; }
uint64_t draw(uint64_t b) { Rt rt; return C->draw(b); }
void point() { if (on()) { Rt rt; pointImpl(); } }
void yield() { if (on()) { Rt rt; yieldImpl(); } }
int self() { return self_ ? self_->id : -1; }
uint64_t steps() { return nsteps; }
unsigned switches() { return nswitch; }
long liveAllocs() { return live; }
uint64_t stepsOf(int id) { Rt rt; for (auto t : thrs) if (t->id == id) return t->steps; return 0; }
void failCreate(long n) { createsLeft = n; }
Quiet::Quiet() { ++inRt; }
Quiet::~Quiet() { --inRt; }

void run(pbt::Ctx & c, std::function<void()> const & body, Config cf) {
    Thr * t0;
    {
        Rt rt;
        static bool multi = false;
        if (!multi) { // make glibc leave its single-threaded mode
            multi = true;
            pthread_t p; auto const pc = (decltype(&::pthread_create))realSym("pthread_create");
            auto const pj = (decltype(&::pthread_join))realSym("pthread_join");
            pc(&p, nullptr, [](void *) -> void * { return nullptr; }, nullptr); pj(p, nullptr);
        }
        cfg = cf; C = &c;
        t0 = new (__libc_malloc(sizeof(Thr))) Thr();
        t0->pt = pthread_self();
        thrs.clear(); thrs.push_back(t0);
        cells.clear(); mutexes.clear(); rwlocks.clear(); createsLeft = -1; conds.clear(); syncs.clear();
        blks.clear(); quarantined = 0; live = 0;
        excSync = VC();
        vnow = 0; nsteps = 0; sinceSwitch = 0; nswitch = 0;
        static unsigned const means[] = {300, 3, 10, 30, 100};
        mean_ = means[C->draw(4)];
        newRun();
        t0->vc.c[0] = 1;
        cur = t0; self_ = t0;
        active = true;
    }
    body();
    {
        Rt rt;
        // wait for all others
        for (;;) {
            bool left = false;
            for (auto t : thrs) if (t != t0 && t->st != DONE) left = true;
            if (!left) break;
            t0->st = JOIN; t0->obj = 0;
            Thr * n = pickOther(true);
            if (n) { // run others until one of them finishes and hands back to us
                t0->st = RUN; // stays schedulable, gives way each time
                newRun(); step();
                switchTo(n);
            } else {
                t0->st = JOIN;
                if (!fireTimer()) deadlock();
                t0->st = RUN;
            }
        }
        active = false; self_ = nullptr; cur = nullptr;
        if (cfg.checkLeaks && live != 0) {
            std::string m = "memory leak: " + std::to_string(live) + " allocation(s) made in the run were not freed; sizes:";
            for (auto & b : blks) if (!b.second.freed) m += " " + std::to_string(b.second.size);
            pbt::fail("%s", m.c_str());
        }
        for (auto & b : blks) if (b.second.freed) __libc_free(b.second.base);
        blks.clear();
        for (auto t : thrs) { t->~Thr(); __libc_free(t); }
        thrs.clear();
    }
}

} // namespace sched

using namespace sched;
namespace S = sched;

extern "C" {

// ---------------- memory ----------------
void * malloc(size_t n) { void * p = __libc_malloc(n); afterAlloc(p, n); return p; }
void * calloc(size_t a, size_t b) { void * p = __libc_calloc(a, b); afterAlloc(p, a * b); return p; }
void free(void * p) { if (!beforeFree(p)) __libc_free(p); }
void * memalign(size_t al, size_t n) { void * p = __libc_memalign(al, n); afterAlloc(p, n); return p; }
void * aligned_alloc(size_t al, size_t n) { void * p = __libc_memalign(al, n); afterAlloc(p, n); return p; }
int posix_memalign(void ** out, size_t al, size_t n) {
    if (al < sizeof(void *) || (al & (al - 1))) return EINVAL;
    void * p = __libc_memalign(al, n); if (!p) return ENOMEM;
    *out = p; afterAlloc(p, n); return 0;
}
void * realloc(void * p, size_t n) {
    if (!p) return malloc(n);
    if (on()) {
        size_t old = 0; bool tracked = false;
        { Rt rt; auto it = blks.find((Addr)p); if (it != blks.end()) { old = it->second.size; tracked = true; } }
        if (tracked) { void * q = malloc(n); if (!q) return nullptr; { Rt rt; memcpy(q, p, old < n ? old : n); } free(p); return q; }
    }
    return __libc_realloc(p, n);
}

// ---------------- threads ----------------
int pthread_create(pthread_t * th, pthread_attr_t const * at, void * (*fn)(void *), void * arg) {
    static auto const real = (decltype(&::pthread_create))realSym("pthread_create");
    if (!on()) return real(th, at, fn, arg);
    Rt rt;
    pointImpl();
    if (thrs.size() >= MAXT) return EAGAIN;
    if (createsLeft >= 0 && createsLeft-- == 0) return EAGAIN;
    Thr * t = new (__libc_malloc(sizeof(Thr))) Thr();
    t->id = (int)thrs.size(); t->fn = fn; t->arg = arg;
    t->vc = self_->vc; t->vc.c[t->id] = 1;
    tickClock(self_);
    int r = real(&t->pt, at, &trampoline, t);
    if (r) { t->~Thr(); __libc_free(t); return r; }
    *th = t->pt;
    thrs.push_back(t);
    return 0;
}
int pthread_join(pthread_t th, void ** ret) {
    static auto const real = (decltype(&::pthread_join))realSym("pthread_join");
    if (!on()) return real(th, ret);
    Rt rt;
    pointImpl();
    Thr * t = nullptr;
    for (auto o : thrs) if (!o->joined && pthread_equal(o->pt, th)) t = o;
    if (!t) { // joining a thread twice is an error
        for (auto x : thrs) if (pthread_equal(x->pt, th)) return EINVAL;
        return real(th, ret);
    }
    if (t == self_) return EDEADLK;
    while (t->st != DONE) { self_->st = JOIN; self_->obj = (Addr)t; block(); }
    if (t->joined) return EINVAL;
    acquireVC(t->vc);
    t->joined = true;
    return real(th, ret);
}
int pthread_detach(pthread_t th) {
    static auto const real = (decltype(&::pthread_detach))realSym("pthread_detach");
    if (on()) { Rt rt; for (auto o : thrs) if (!o->joined && pthread_equal(o->pt, th)) { o->joined = true; break; } }
    return real(th);
}
int pthread_mutex_lock(pthread_mutex_t * m) {
    static auto const real = (decltype(&::pthread_mutex_lock))realSym("pthread_mutex_lock");
    if (!on()) return real(m);
    Rt rt; lockImpl((Addr)m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t * m) {
    static auto const real = (decltype(&::pthread_mutex_trylock))realSym("pthread_mutex_trylock");
    if (!on()) return real(m);
    Rt rt; pointImpl();
    Mutex & x = mutexes[(Addr)m];
    x.tried = true;
    if (x.owner == self_->id && recursive((Addr)m)) { ++x.depth; return 0; }
    if (x.owner >= 0) return EBUSY;
    x.owner = self_->id; x.depth = 1; acquireVC(x.vc); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t * m) {
    static auto const real = (decltype(&::pthread_mutex_unlock))realSym("pthread_mutex_unlock");
    if (!on()) return real(m);
    Rt rt; if (mutexes[(Addr)m].tried) pointImpl(); // that it is held can be seen by trylock
    unlockNoPoint((Addr)m); pointImpl(); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t * m, timespec const * t) {
    if (!on()) { REAL(pthread_mutex_timedlock, m, t); }
    Rt rt; return lockImpl((Addr)m, toNs(t, CLOCK_REALTIME)) ? 0 : ETIMEDOUT;
}
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t cl, timespec const * t) {
    if (!on()) { REAL(pthread_mutex_clocklock, m, cl, t); }
    Rt rt; return lockImpl((Addr)m, toNs(t, cl)) ? 0 : ETIMEDOUT;
}
int pthread_rwlock_rdlock(pthread_rwlock_t * m) { if (!on()) { REAL(pthread_rwlock_rdlock, m); } Rt rt; rwLock((Addr)m, false, false); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t * m) { if (!on()) { REAL(pthread_rwlock_wrlock, m); } Rt rt; rwLock((Addr)m, true, false); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t * m) { if (!on()) { REAL(pthread_rwlock_tryrdlock, m); } Rt rt; return rwLock((Addr)m, false, true) ? 0 : EBUSY; }
int pthread_rwlock_trywrlock(pthread_rwlock_t * m) { if (!on()) { REAL(pthread_rwlock_trywrlock, m); } Rt rt; return rwLock((Addr)m, true, true) ? 0 : EBUSY; }
int pthread_rwlock_timedrdlock(pthread_rwlock_t * m, timespec const * t) { if (!on()) { REAL(pthread_rwlock_timedrdlock, m, t); } Rt rt; return rwLock((Addr)m, false, false, toNs(t, CLOCK_REALTIME)) ? 0 : ETIMEDOUT; }
int pthread_rwlock_timedwrlock(pthread_rwlock_t * m, timespec const * t) { if (!on()) { REAL(pthread_rwlock_timedwrlock, m, t); } Rt rt; return rwLock((Addr)m, true, false, toNs(t, CLOCK_REALTIME)) ? 0 : ETIMEDOUT; }
int pthread_rwlock_clockrdlock(pthread_rwlock_t * m, clockid_t cl, timespec const * t) { if (!on()) { REAL(pthread_rwlock_clockrdlock, m, cl, t); } Rt rt; return rwLock((Addr)m, false, false, toNs(t, cl)) ? 0 : ETIMEDOUT; }
int pthread_rwlock_clockwrlock(pthread_rwlock_t * m, clockid_t cl, timespec const * t) { if (!on()) { REAL(pthread_rwlock_clockwrlock, m, cl, t); } Rt rt; return rwLock((Addr)m, true, false, toNs(t, cl)) ? 0 : ETIMEDOUT; }
int pthread_rwlock_unlock(pthread_rwlock_t * m) { if (!on()) { REAL(pthread_rwlock_unlock, m); } Rt rt; rwUnlock((Addr)m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t * m) {
    if (!on()) { REAL(pthread_rwlock_destroy, m); }
    Rt rt; auto it = rwlocks.find((Addr)m);
    if (it != rwlocks.end()) { if (it->second.writer >= 0 || it->second.readers) die("a locked reader-writer lock is destroyed"); rwlocks.erase(it); }
    return 0;
}
int pthread_once(pthread_once_t * o, void (*fn)()) {
    if (!on()) { REAL(pthread_once, o, fn); }
    { Rt rt; pointImpl(); checkAlive((Addr)o, "uses a once flag"); }
    for (;;) {
        Rt rt;
        if (*o == 2) { acquireVC(syncs[(Addr)o]); return 0; }
        if (*o == 0) { *o = 1; break; }
        self_->st = GUARD; self_->obj = (Addr)o; block();
    }
    struct Done {
        pthread_once_t * o; bool ok = false;
        ~Done() { if (!S::on()) { *o = ok ? 2 : 0; return; } Rt rt; *o = ok ? 2 : 0; if (ok) releaseTo(syncs[(Addr)o]); for (auto t : thrs) if (t->st == GUARD && t->obj == (Addr)o) t->st = RUN; }
    } done{o};
    fn(); done.ok = true;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t * m) {
    static auto const real = (decltype(&::pthread_mutex_destroy))realSym("pthread_mutex_destroy");
    if (!on()) return real(m);
    Rt rt; auto it = mutexes.find((Addr)m);
    if (it != mutexes.end()) { if (it->second.owner >= 0) die("a locked mutex is destroyed"); mutexes.erase(it); }
    return 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
    static auto const real = (decltype(&::pthread_cond_wait))realSym("pthread_cond_wait");
    if (!on()) return real(c, m);
    Rt rt; return condWait((Addr)c, (Addr)m, NEVER);
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, timespec const * t) {
    static auto const real = (decltype(&::pthread_cond_timedwait))realSym("pthread_cond_timedwait");
    if (!on()) return real(c, m, t);
    Rt rt; return condWait((Addr)c, (Addr)m, toNs(t, CLOCK_REALTIME));
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t cl, timespec const * t) {
    static auto const real = (decltype(&::pthread_cond_clockwait))realSym("pthread_cond_clockwait");
    if (!on()) return real(c, m, cl, t);
    Rt rt; return condWait((Addr)c, (Addr)m, toNs(t, cl));
}
int pthread_cond_signal(pthread_cond_t * c) {
    static auto const real = (decltype(&::pthread_cond_signal))realSym("pthread_cond_signal");
    if (!on()) return real(c);
    Rt rt; pointImpl();
    if (cells.count((Addr)c & ~Addr(7)) && cells[(Addr)c & ~Addr(7)].freed) die("use after free: thread %d notifies a condition variable in freed memory", self_->id);
    auto it = conds.find((Addr)c);
    if (it != conds.end() && !it->second.empty()) {
        size_t i = rdraw(it->second.size() - 1);
        Thr * t = it->second[i]; it->second.erase(it->second.begin() + i);
        t->deadline = NEVER; t->st = RUN;
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) {
    static auto const real = (decltype(&::pthread_cond_broadcast))realSym("pthread_cond_broadcast");
    if (!on()) return real(c);
    Rt rt; pointImpl();
    if (cells.count((Addr)c & ~Addr(7)) && cells[(Addr)c & ~Addr(7)].freed) die("use after free: thread %d notifies a condition variable in freed memory", self_->id);
    auto it = conds.find((Addr)c);
    if (it != conds.end()) { for (auto t : it->second) { t->deadline = NEVER; t->st = RUN; } it->second.clear(); }
    return 0;
}
int pthread_cond_destroy(pthread_cond_t * c) {
    static auto const real = (decltype(&::pthread_cond_destroy))realSym("pthread_cond_destroy");
    if (!on()) return real(c);
    Rt rt;
    auto it = conds.find((Addr)c);
    if (it != conds.end()) { if (!it->second.empty()) die("a condition variable is destroyed while thread %d waits on it", it->second[0]->id); conds.erase(it); }
    return 0;
}
int sched_yield() noexcept {
    if (!on()) return (int)syscall(SYS_sched_yield);
    Rt rt; yieldImpl(); return 0;
}
int clock_gettime(clockid_t c, timespec * t) noexcept {
    if (!on()) return (int)syscall(SYS_clock_gettime, c, t);
    Rt rt;
    vnow += 100; wakeDue();
    pointImpl();
    uint64_t const v = vnow + baseOf(c);
    t->tv_sec = v / 1000000000ull; t->tv_nsec = v % 1000000000ull;
    return 0;
}
int gettimeofday(timeval * tv, void * tz) noexcept {
    (void)tz;
    timespec t; clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
static int sleepUntil(uint64_t d) {
    Rt rt; pointImpl();
    if (d > vnow) { self_->st = SLEEP; self_->deadline = d; block(); self_->deadline = NEVER; }
    return 0;
}
int nanosleep(timespec const * t, timespec * rem) {
    if (!on()) return (int)syscall(SYS_nanosleep, t, rem);
    return sleepUntil(vnow + t->tv_sec * 1000000000ull + t->tv_nsec);
}
int clock_nanosleep(clockid_t c, int flags, timespec const * t, timespec * rem) {
    if (!on()) return syscall(SYS_clock_nanosleep, c, flags, t, rem) ? errno : 0;
    return sleepUntil(flags & TIMER_ABSTIME ? toNs(t, c) : vnow + t->tv_sec * 1000000000ull + t->tv_nsec);
}
int usleep(useconds_t us) { timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }

// ---------------- static initialization guards ----------------
int __cxa_guard_acquire(long long * g) {
    unsigned char * b = (unsigned char *)g;
    if (b[0]) return 0;
    if (!on()) { if (b[0]) return 0; b[1] = 1; return 1; }
    Rt rt;
    for (;;) {
        if (b[0]) { acquireVC(syncs[(Addr)g]); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        self_->st = GUARD; self_->obj = (Addr)g; block();
    }
}
void __cxa_guard_release(long long * g) {
    unsigned char * b = (unsigned char *)g; b[0] = 1; b[1] = 0;
    if (on()) { Rt rt; releaseTo(syncs[(Addr)g]); for (auto t : thrs) if (t->st == GUARD && t->obj == (Addr)g) t->st = RUN; }
}
void __cxa_guard_abort(long long * g) {
    unsigned char * b = (unsigned char *)g; b[1] = 0;
    if (on()) { Rt rt; for (auto t : thrs) if (t->st == GUARD && t->obj == (Addr)g) t->st = RUN; }
}

// ---------------- exception objects (reference counted inside libstdc++) ----------------
static void excEdge() { if (on()) { Rt rt; acquireVC(excSync); releaseTo(excSync); } }
void __cxa_end_catch() {
    static auto const real = (void (*)())realSym("__cxa_end_catch");
    excEdge(); real();
}
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void * p) {
    static auto const real = (void (*)(void *))realSym("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
    excEdge(); real(p);
}

// ---------------- memory functions ----------------
void * memcpy(void * __restrict d, void const * __restrict s, size_t n) noexcept {
    if (n && on()) { Rt rt; Addr pc = (Addr)__builtin_return_address(0); access((Addr)s, n, false, false, pc); access((Addr)d, n, true, false, pc); }
    void * r = d; __asm__ __volatile__("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); return r;
}
void * memmove(void * d, void const * s, size_t n) noexcept {
    if (n && on()) { Rt rt; Addr pc = (Addr)__builtin_return_address(0); access((Addr)s, n, false, false, pc); access((Addr)d, n, true, false, pc); }
    char * dd = (char *)d; char const * ss = (char const *)s;
    if (dd <= ss || dd >= ss + n) { void * r = d; __asm__ __volatile__("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); return r; }
    for (size_t i = n; i-- > 0;) { dd[i] = ss[i]; __asm__ __volatile__("" ::: "memory"); }
    return d;
}
void * memset(void * d, int c, size_t n) noexcept {
    if (n && on()) { Rt rt; access((Addr)d, n, true, false, (Addr)__builtin_return_address(0)); }
    void * r = d; __asm__ __volatile__("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r;
}

// ---------------- compiler instrumentation ----------------
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define PC ((Addr)__builtin_return_address(0))
#define ACC(n) \
    void __tsan_read##n(void * p) { if (on()) { Rt rt; access((Addr)p, n, false, false, PC); } } \
    void __tsan_write##n(void * p) { if (on()) { Rt rt; access((Addr)p, n, true, false, PC); } } \
    void __tsan_unaligned_read##n(void * p) { if (on()) { Rt rt; access((Addr)p, n, false, false, PC); } } \
    void __tsan_unaligned_write##n(void * p) { if (on()) { Rt rt; access((Addr)p, n, true, false, PC); } } \
    void __tsan_volatile_read##n(void * p) { if (on()) { Rt rt; access((Addr)p, n, false, false, PC); } } \
    void __tsan_volatile_write##n(void * p) { if (on()) { Rt rt; access((Addr)p, n, true, false, PC); } }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void * p, size_t n) { if (n && on()) { Rt rt; access((Addr)p, n, false, false, PC); } }
void __tsan_write_range(void * p, size_t n) { if (n && on()) { Rt rt; access((Addr)p, n, true, false, PC); } }
void __tsan_vptr_update(void ** p, void * v) { if (on() && *p != v) { Rt rt; access((Addr)p, 8, true, false, PC); } }
void __tsan_vptr_read(void ** p) { if (on()) { Rt rt; access((Addr)p, 8, false, false, PC); } }

static inline bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void atLoad(Addr a, size_t n, int mo, Addr pc) {
    access(a, n, false, true, pc);
    auto it = syncs.find(a);
    if (it == syncs.end()) return;
    if (isAcq(mo)) acquireVC(it->second); else { self_->acq.join(it->second); self_->hasAcq = true; }
}
static void atStore(Addr a, size_t n, int mo, Addr pc, bool rmw) {
    access(a, n, true, true, pc);
    if (isRel(mo)) { VC & v = syncs[a]; if (!rmw) v = VC(); releaseTo(v); }
    else if (self_->hasRel) { VC & v = syncs[a]; if (!rmw) v = VC(); v.join(self_->rel); }
    else if (!rmw) syncs.erase(a);
}
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(T const volatile * a, int mo) { \
        if (!on()) return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
        Rt rt; pointImpl(); atLoad((Addr)a, sizeof(T), mo, PC); return *a; } \
    void __tsan_atomic##bits##_store(T volatile * a, T v, int mo) { \
        if (!on()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } \
        Rt rt; pointImpl(); atStore((Addr)a, sizeof(T), mo, PC, false); *a = v; } \
    T __tsan_atomic##bits##_exchange(T volatile * a, T v, int mo) { \
        if (!on()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
        Rt rt; pointImpl(); atLoad((Addr)a, sizeof(T), mo, PC); atStore((Addr)a, sizeof(T), mo, PC, true); T o = *a; *a = v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(T volatile * a, T * e, T v, int mo, int fmo) { \
        if (!on()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        Rt rt; pointImpl(); \
        if (*a == *e) { atLoad((Addr)a, sizeof(T), mo, PC); atStore((Addr)a, sizeof(T), mo, PC, true); *a = v; return 1; } \
        atLoad((Addr)a, sizeof(T), fmo, PC); *e = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(T volatile * a, T * e, T v, int mo, int fmo) { \
        if (!on()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        Rt rt; pointImpl(); \
        bool const spuriously = runLeft == 1; /* a weak exchange may fail for no reason */ \
        if (*a == *e && !spuriously) { atLoad((Addr)a, sizeof(T), mo, PC); atStore((Addr)a, sizeof(T), mo, PC, true); *a = v; return 1; } \
        atLoad((Addr)a, sizeof(T), fmo, PC); *e = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(T volatile * a, T e, T v, int mo, int fmo) { \
        __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
#define RMW(bits, T, name, expr) \
    T __tsan_atomic##bits##_fetch_##name(T volatile * a, T v, int mo) { \
        if (!on()) return __atomic_fetch_##name(a, v, __ATOMIC_SEQ_CST); \
        Rt rt; pointImpl(); atLoad((Addr)a, sizeof(T), mo, PC); atStore((Addr)a, sizeof(T), mo, PC, true); T o = *a; *a = (T)(expr); return o; }
#define ALL(bits, T) ATOMIC(bits, T) RMW(bits, T, add, o + v) RMW(bits, T, sub, o - v) RMW(bits, T, and, o & v) RMW(bits, T, or, o | v) RMW(bits, T, xor, o ^ v) RMW(bits, T, nand, ~(o & v))
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (!on()) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; }
    Rt rt; pointImpl();
    if (isAcq(mo) && self_->hasAcq) self_->vc.join(self_->acq);
    if (isRel(mo)) { self_->rel = self_->vc; self_->hasRel = true; tickClock(self_); }
}
void __tsan_atomic_signal_fence(int) {}

} // extern "C"
