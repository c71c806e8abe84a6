#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(
        void (*)(const volatile void *, size_t), void (*)(const volatile void *));

namespace pbt {
Options options;
long Tracked::live = 0, Tracked::constructed = 0, Tracked::throwAt = -1;
void Tracked::tick() { if (throwAt >= 0 && throwAt-- == 0) throw Boom{}; }

namespace {

constexpr size_t MAXCHOICES = 1u << 17;
constexpr size_t MAXW = 32;
constexpr int FAILEXIT = 66;

struct Slot {
    std::atomic<uint64_t> prop, idx;
    std::atomic<int> busy;
    std::atomic<int64_t> startNs;
    std::atomic<uint64_t> evals;
    char msg[4096];
    uint64_t first[64]; // ring of the last case indexes this worker ran
    std::atomic<uint64_t> ran;
};
struct Label { char name[56]; std::atomic<uint64_t> n; std::atomic<int> used; };
struct SharedMem {
    std::atomic<uint64_t> nextIdx;
    std::atomic<int> stop;
    std::atomic<uint64_t> evals, nontrivial, choices, discarded;
    Label labels[256];
    Slot slots[MAXW];
    // of a single-case child:
    std::atomic<uint64_t> nrec;
    uint64_t rec[MAXCHOICES];
    std::atomic<size_t> ntrace;
    char trace[1 << 16];
    std::atomic<int> wasNontrivial;
};
SharedMem * sh = nullptr;
Slot * mySlot = nullptr;
bool recording = false, countStats = true;
std::vector<Prop> & props() { static std::vector<Prop> v; return v; }
Ctx theCtx;
std::vector<uint64_t> * distinct = nullptr; // hashes of distinct nontrivial cases (worker local)

int64_t nowNs() { timespec t; ::clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }

// --- leak accounting (ASan builds) ---
thread_local long allocDelta = 0;
bool hooksInstalled = false;
void onMalloc(const volatile void * p, size_t) { if (p) ++allocDelta; }
void onFree(const volatile void * p) { if (p) --allocDelta; }

} // namespace

Ctx & ctx() { return theCtx; }
Reg::Reg(Prop p) { props().push_back(p); }

uint64_t Ctx::record(uint64_t bound, uint64_t v) {
    if (replay_) v = pos_ < replay_->size() ? std::min((*replay_)[pos_], bound) : 0;
    if (recording && pos_ < MAXCHOICES) { sh->rec[pos_] = v; sh->nrec = pos_ + 1; }
    ++pos_;
    hash_ = (hash_ ^ v) * 0x9e3779b97f4a7c15ull; hash_ ^= hash_ >> 29;
    return v;
}

void Ctx::label(char const * name) {
    if (!countStats) return;
    uint64_t h = 1469598103934665603ull;
    for (char const * p = name; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    for (size_t i = 0; i < 256; ++i) {
        Label & l = sh->labels[(h + i) & 255];
        int u = l.used.load(std::memory_order_acquire);
        if (u == 0) {
            int e = 0;
            if (l.used.compare_exchange_strong(e, 1)) {
                snprintf(l.name, sizeof l.name, "%s", name);
                l.used.store(2, std::memory_order_release);
                u = 2;
            } else u = e;
        }
        while (u == 1) u = l.used.load(std::memory_order_acquire);
        if (strncmp(l.name, name, sizeof l.name - 1) == 0) { l.n.fetch_add(1, std::memory_order_relaxed); return; }
    }
}

void Ctx::trace(char const * fmt, ...) {
    if (!tracing_) return;
    size_t n = sh->ntrace;
    if (n + 2 >= sizeof sh->trace) return;
    va_list ap; va_start(ap, fmt);
    int r = vsnprintf(sh->trace + n, sizeof sh->trace - n - 2, fmt, ap);
    va_end(ap);
    if (r < 0) return;
    n = std::min(n + (size_t)r, sizeof sh->trace - 3);
    sh->trace[n++] = '\n'; sh->trace[n] = 0;
    sh->ntrace = n;
}

void failMsg(std::string const & m) { fail("%s", m.c_str()); }
void fail(char const * fmt, ...) {
    if (mySlot) {
        va_list ap; va_start(ap, fmt);
        vsnprintf(mySlot->msg, sizeof mySlot->msg, fmt, ap);
        va_end(ap);
    }
    _exit(FAILEXIT);
}

namespace {

void runOne(Prop const & p) {
    Ctx & c = theCtx;
    bool const leaks = options.checkLeaks && hooksInstalled;
    auto const body = [&] {
        c.pos_ = 0; c.hash_ = 0x1234567; c.nontrivial_ = false; c.scale_ = c.replaying() || c.rng_.below(64) ? 1 : 12;
        Tracked::live = 0; Tracked::throwAt = -1;
        p.fn(c);
        if (Tracked::live != 0) fail("%ld tracked object(s) still alive at the end of the case", Tracked::live);
    };
    Rng const saved = c.rng_;
    long const before = allocDelta;
    body();
    if (leaks && allocDelta != before) {
        // A leak is reported only if it recurs on every repetition (library
        // caches are filled once).
        long deltas[3];
        bool const cs = countStats; countStats = false;
        for (auto & d : deltas) { c.rng_ = saved; long const b = allocDelta; body(); d = allocDelta - b; }
        countStats = cs;
        if (deltas[0] > 0 && deltas[1] > 0 && deltas[2] > 0)
            fail("memory leak: %ld allocation(s) not freed by the case", deltas[2]);
    }
}

uint64_t caseSeed(uint64_t seed, size_t prop, uint64_t idx) {
    uint64_t h = seed * 0x9e3779b97f4a7c15ull + 0x632be59bd9b4e019ull;
    for (char const * p = props()[prop].name; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    h ^= idx * 0xd1342543de82ef95ull;
    return Rng::mix(h);
}

struct ChildResult { bool failed = false; bool hang = false; std::string msg; };

std::string excerpt(int fd) {
    std::string s; char buf[8192];
    lseek(fd, 0, SEEK_SET);
    ssize_t r;
    while ((r = read(fd, buf, sizeof buf)) > 0 && s.size() < (1 << 18)) s.append(buf, r);
    // Pick the telling lines.
    std::string out; size_t pos = 0;
    int lines = 0;
    while (pos < s.size() && lines < 14) {
        size_t e = s.find('\n', pos); if (e == std::string::npos) e = s.size();
        std::string l = s.substr(pos, e - pos); pos = e + 1;
        if (l.find("rror") != std::string::npos || l.find("ssert") != std::string::npos || l.find("terminate") != std::string::npos
            || l.find("what()") != std::string::npos || (l.find("    #") == 0 && lines) || l.find("SUMMARY") != std::string::npos
            || l.find("double free") != std::string::npos || l.find("corrupt") != std::string::npos)
        { out += l.substr(0, 300) + "\n"; ++lines; }
    }
    if (out.empty()) out = s.substr(0, 500);
    return out;
}

int memFile() { int fd = memfd_create("pbt-stderr", MFD_CLOEXEC); if (fd < 0) fd = open("/dev/null", O_RDWR); return fd; }

std::string describeExit(int st, Slot & sl, int errfd) {
    std::string m;
    if (WIFEXITED(st) && WEXITSTATUS(st) == FAILEXIT) m = sl.msg;
    else if (WIFSIGNALED(st)) m = std::string("killed by signal ") + strsignal(WTERMSIG(st));
    else m = "exited with status " + std::to_string(WEXITSTATUS(st));
    std::string e = excerpt(errfd);
    if (!e.empty()) m += "\n" + e;
    return m;
}

void childCommon(int errfd) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(errfd, 2);
    setvbuf(stderr, nullptr, _IONBF, 0);
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
}

// Runs one case in a child: by choices, or by seed (with `warm` preceding cases).
ChildResult runChild(size_t prop, std::vector<uint64_t> const * choices, uint64_t const * seeds, size_t nseeds,
                     bool rec, bool trace, double limit) {
    Slot & sl = sh->slots[MAXW - 1];
    sl.msg[0] = 0;
    sh->nrec = 0; sh->ntrace = 0; sh->trace[0] = 0; sh->wasNontrivial = 0;
    int errfd = memFile();
    pid_t pid = fork();
    if (pid == 0) {
        childCommon(errfd);
        mySlot = &sl; countStats = false;
        Ctx & c = theCtx;
        if (choices) { c.replay_ = choices; recording = rec; c.tracing_ = trace; runOne(props()[prop]); }
        else for (size_t i = 0; i < nseeds; ++i) {
            bool const last = i + 1 == nseeds;
            recording = rec && last; c.tracing_ = trace && last;
            c.replay_ = nullptr; c.rng_ = Rng(seeds[i]);
            runOne(props()[prop]);
        }
        sh->wasNontrivial = c.nontrivial_;
        _exit(0);
    }
    ChildResult r; int st = 0;
    int64_t const end = nowNs() + (int64_t)(limit * 1e9);
    for (unsigned us = 20;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (nowNs() > end) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.hang = true; break; }
        usleep(us); if (us < 2000) us += us / 2;
    }
    if (r.hang) { r.failed = true; r.msg = "the case did not terminate (hang)"; }
    else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { r.failed = true; r.msg = describeExit(st, sl, errfd); }
    close(errfd);
    return r;
}

std::string jsonEsc(std::string const & s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"') o += "\\\""; else if (ch == '\\') o += "\\\\"; else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

std::vector<uint64_t> shrink(size_t prop, std::vector<uint64_t> cur, bool hang, double budgetS, size_t & tried) {
    int64_t const end = nowNs() + (int64_t)(budgetS * 1e9);
    double const lim = hang ? std::min(5.0, options.hangSeconds) : options.hangSeconds;
    auto const attempt = [&](std::vector<uint64_t> const & cand) {
        if (nowNs() > end) return false;
        ++tried;
        ChildResult r = runChild(prop, &cand, nullptr, 0, true, false, lim);
        if (!r.failed) return false;
        std::vector<uint64_t> used(sh->rec, sh->rec + std::min<size_t>(sh->nrec, MAXCHOICES));
        while (!used.empty() && used.back() == 0) used.pop_back();
        // accept only progress
        if (used.size() < cur.size() || (used.size() == cur.size() && used < cur)) { cur = used; return true; }
        return false;
    };
    while (!cur.empty() && cur.back() == 0) cur.pop_back();
    bool progress = true;
    while (progress && nowNs() < end) {
        progress = false;
        // delete chunks
        for (size_t k = std::max<size_t>(1, cur.size() / 2); k >= 1; k = k / 2) {
            for (size_t i = cur.size(); i >= k && i > 0;) {
                if (i > cur.size()) { i = cur.size(); if (i < k) break; }
                auto cand = cur; cand.erase(cand.begin() + (i - k), cand.begin() + i);
                if (attempt(cand)) progress = true; else i -= std::min(i, k);
                if (nowNs() > end) return cur;
            }
            if (k == 1) break;
        }
        // zero chunks
        for (size_t k = std::max<size_t>(1, cur.size() / 4); k >= 1; k = k / 2) {
            for (size_t i = 0; i + k <= cur.size(); i += k) {
                if (std::all_of(cur.begin() + i, cur.begin() + i + k, [](uint64_t v) { return v == 0; })) continue;
                auto cand = cur; std::fill(cand.begin() + i, cand.begin() + i + k, 0);
                if (attempt(cand)) progress = true;
                if (nowNs() > end) return cur;
            }
            if (k == 1) break;
        }
        // minimise single values
        for (size_t i = 0; i < cur.size(); ++i) {
            uint64_t lo = 0;
            while (i < cur.size() && cur[i] > lo) {
                uint64_t const mid = lo + (cur[i] - lo) / 2;
                auto cand = cur; cand[i] = mid;
                if (attempt(cand)) { progress = true; }
                else { if (mid == lo && mid + 1 >= cur[i]) break; lo = mid + (mid == lo); }
                if (nowNs() > end) return cur;
            }
        }
        // delete one, decrement an earlier one (length prefixes)
        for (size_t i = 0; i + 1 < cur.size() && cur.size() < 200; ++i)
            if (cur[i] > 0 && cur[i] < 200)
                for (size_t j = i + 1; j < cur.size() && j < i + 12; ++j) {
                    auto cand = cur; --cand[i]; cand.erase(cand.begin() + j);
                    if (attempt(cand)) { progress = true; break; }
                    if (nowNs() > end) return cur;
                }
    }
    return cur;
}

} // namespace

int runMain(int argc, char ** argv) {
    std::string out, replayFile, replayOut, tier = "quick", only;
    std::set<std::string> skip;
    uint64_t seed = 1; double maxSeconds = 0, scale = 1; size_t W = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { if (++i >= argc) exit(2); return std::string(argv[i]); };
        if (a == "--out") out = val(); else if (a == "--replay") replayFile = val();
        else if (a == "--replay-out") replayOut = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 0);
        else if (a == "--tier") tier = val(); else if (a == "--max-seconds") maxSeconds = atof(val().c_str());
        else if (a == "--scale") scale = atof(val().c_str()); else if (a == "--workers") W = atoi(val().c_str());
        else if (a == "--only") only = val();
        else if (a == "--skip") skip.insert(val());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    sh = (SharedMem *)mmap(nullptr, sizeof(SharedMem), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    if (__sanitizer_install_malloc_and_free_hooks) {
        __sanitizer_install_malloc_and_free_hooks(&onMalloc, &onFree);
        hooksInstalled = true;
    }
    if (!W) { long n = sysconf(_SC_NPROCESSORS_ONLN); W = n < 1 ? 1 : n > 8 ? 8 : n; }

    if (!replayFile.empty()) {
        FILE * f = fopen(replayFile.c_str(), "r");
        if (!f) { perror("replay"); return 2; }
        char line[256]; std::vector<uint64_t> ch; std::string pn; uint64_t v; bool inCh = false;
        std::vector<uint64_t> seeds;
        while (fgets(line, sizeof line, f)) {
            char nm[128];
            if (sscanf(line, "prop %127s", nm) == 1) pn = nm;
            else if (!strncmp(line, "choices", 7)) inCh = true;
            else if (!strncmp(line, "end", 3)) break;
            else if (sscanf(line, "seed %lu", &v) == 1) seeds.push_back(v);
            else if (inCh) { char * p = line; char * e; for (;;) { v = strtoull(p, &e, 10); if (e == p) break; ch.push_back(v); p = e; } }
        }
        fclose(f);
        for (size_t i = 0; i < props().size(); ++i) if (pn == props()[i].name) {
            ChildResult r = seeds.empty() ? runChild(i, &ch, nullptr, 0, false, true, options.hangSeconds)
                                          : runChild(i, nullptr, seeds.data(), seeds.size(), false, true, options.hangSeconds);
            printf("replay of %s: %s\n%s%s\n", pn.c_str(), r.failed ? "FAILS" : "passes", sh->trace, r.msg.c_str());
            return r.failed ? 1 : 0;
        }
        fprintf(stderr, "no such property in this harness: %s\n", pn.c_str());
        return 2;
    }

    int64_t const t0 = nowNs();
    if (maxSeconds <= 0) maxSeconds = tier == "thorough" ? 1200 : 240;
    int64_t const deadline = t0 + (int64_t)(maxSeconds * 1e9);
    uint64_t totEvals = 0, totNontriv = 0, totDistinct = 0;
    std::string samples, perProp, rules;
    bool violated = false, timedOut = false; std::string vmsg; uint64_t unrepro = 0;

    for (size_t pi = 0; pi < props().size() && !violated; ++pi) {
        Prop const & P = props()[pi];
        if (!only.empty() && only != P.name) continue;
        if (only.empty() && skip.count(P.name)) continue;
        uint64_t const N = std::max<uint64_t>(1, (uint64_t)((tier == "thorough" ? P.thorough : P.quick) * scale));
        sh->nextIdx = 0; sh->stop = 0; sh->evals = 0; sh->nontrivial = 0; sh->choices = 0;
        for (auto & l : sh->labels) { l.used = 0; l.n = 0; l.name[0] = 0; }
        std::vector<pid_t> pids(W); std::vector<int> errs(W); std::vector<int> pipes(W);
        auto const spawn = [&](size_t w) {
            int pfd[2]; if (pipe(pfd)) exit(2);
            errs[w] = memFile();
            Slot & sl = sh->slots[w];
            sl.busy = 0; sl.msg[0] = 0; sl.ran = 0;
            pid_t pid = fork();
            if (pid == 0) {
                close(pfd[0]);
                childCommon(errs[w]);
                mySlot = &sl;
                std::vector<uint64_t> hashes; distinct = &hashes;
                Ctx & c = theCtx;
                for (;;) {
                    if (sh->stop || nowNs() > deadline) break;
                    uint64_t const i = sh->nextIdx.fetch_add(1);
                    if (i >= N) break;
                    sl.prop = pi; sl.idx = i; sl.startNs = nowNs(); sl.busy = 1;
                    sl.first[sl.ran % 64] = i; sl.ran = sl.ran + 1;
                    c.replay_ = nullptr; c.rng_ = Rng(caseSeed(seed, pi, i));
                    runOne(P);
                    sl.busy = 0;
                    sh->evals.fetch_add(1, std::memory_order_relaxed);
                    if (c.nontrivial_) { sh->nontrivial.fetch_add(1, std::memory_order_relaxed); hashes.push_back(c.hash_); }
                }
                std::sort(hashes.begin(), hashes.end());
                hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
                size_t off = 0, tot = hashes.size() * 8;
                while (off < tot) { ssize_t r = write(pfd[1], (char *)hashes.data() + off, tot - off); if (r <= 0) break; off += r; }
                _exit(0);
            }
            close(pfd[1]);
            pids[w] = pid; pipes[w] = pfd[0];
        };
        for (size_t w = 0; w < W; ++w) spawn(w);
        struct Failure { uint64_t idx; bool hang; std::string msg; std::vector<uint64_t> hist; };
        std::vector<Failure> failures;
        std::vector<uint64_t> all;
        std::vector<bool> open_(W, true);
        std::vector<std::string> bufs(W);
        size_t alive = W;
        while (alive) {
            std::vector<pollfd> pf; std::vector<size_t> who;
            for (size_t w = 0; w < W; ++w) if (open_[w]) { pf.push_back({pipes[w], POLLIN, 0}); who.push_back(w); }
            poll(pf.data(), pf.size(), 200);
            for (size_t k = 0; k < pf.size(); ++k) {
                size_t const w = who[k];
                if (pf[k].revents) {
                    char buf[65536]; ssize_t r = read(pipes[w], buf, sizeof buf);
                    if (r > 0) { bufs[w].append(buf, r); continue; }
                    int st = 0; waitpid(pids[w], &st, 0);
                    open_[w] = false; close(pipes[w]); --alive;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                        Slot & sl = sh->slots[w];
                        Failure f; f.idx = sl.idx; f.hang = sl.busy == 2;
                        f.msg = f.hang ? "the case did not terminate (hang)" : describeExit(st, sl, errs[w]);
                        uint64_t ran = sl.ran;
                        for (uint64_t q = ran > 32 ? ran - 32 : 0; q < ran; ++q) f.hist.push_back(sl.first[q % 64]);
                        failures.push_back(f);
                        sh->stop = 1;
                    }
                    close(errs[w]);
                    size_t n = bufs[w].size() / 8; size_t o = all.size(); all.resize(o + n);
                    memcpy(all.data() + o, bufs[w].data(), n * 8);
                } else {
                    Slot & sl = sh->slots[w];
                    if (sl.busy == 1 && nowNs() - sl.startNs > (int64_t)(options.hangSeconds * 1e9)) { sl.busy = 2; kill(pids[w], SIGKILL); }
                }
            }
        }
        std::sort(all.begin(), all.end());
        all.erase(std::unique(all.begin(), all.end()), all.end());
        if (nowNs() > deadline) timedOut = true;
        totEvals += sh->evals; totNontriv += sh->nontrivial; totDistinct += all.size();
        std::string labels;
        std::map<std::string, uint64_t> lm;
        for (auto & l : sh->labels) if (l.used == 2) lm[l.name] = l.n;
        for (auto & kv : lm) labels += (labels.empty() ? "" : ", ") + jsonEsc(kv.first) + ": " + std::to_string(kv.second);
        perProp += std::string(perProp.empty() ? "" : ",\n  ") + "{\"check\": " + jsonEsc(P.name) + ", \"planned\": " + std::to_string(N)
                + ", \"evaluations\": " + std::to_string((uint64_t)sh->evals) + ", \"nontrivial\": " + std::to_string((uint64_t)sh->nontrivial)
                + ", \"distinct_nontrivial\": " + std::to_string(all.size()) + ", \"labels\": {" + labels + "}}";
        rules += std::string(rules.empty() ? "" : " | ") + P.name + ": " + P.rule;

        std::sort(failures.begin(), failures.end(), [](Failure const & a, Failure const & b) { return a.idx < b.idx; });
        for (auto & f : failures) {
            // Reproduce alone, recording the choices.
            uint64_t s = caseSeed(seed, pi, f.idx);
            ChildResult r = runChild(pi, nullptr, &s, 1, true, false, options.hangSeconds);
            std::vector<uint64_t> ch(sh->rec, sh->rec + std::min<size_t>(sh->nrec, MAXCHOICES));
            std::vector<uint64_t> seeds;
            size_t tried = 0; std::vector<uint64_t> small; std::string msg, trace; int reps = 0;
            if (r.failed) {
                small = shrink(pi, ch, r.hang, tier == "thorough" ? 120 : 40, tried);
                for (int k = 0; k < 3; ++k) { auto q = runChild(pi, &small, nullptr, 0, false, true, options.hangSeconds); if (q.failed) { ++reps; msg = q.msg; trace = sh->trace; } }
            } else {
                // State left behind by earlier cases of the same worker?
                for (auto i : f.hist) seeds.push_back(caseSeed(seed, pi, i));
                for (int k = 0; k < 3; ++k) { auto q = runChild(pi, nullptr, seeds.data(), seeds.size(), false, true, options.hangSeconds * 4); if (q.failed) { ++reps; msg = q.msg; trace = sh->trace; } }
            }
            if (reps < 3) { ++unrepro; printf("note: a failure of %s (case %lu) did not reproduce (%d of 3) and is not reported: %s\n", P.name, (unsigned long)f.idx, reps, f.msg.c_str()); continue; }
            violated = true; vmsg = msg;
            if (!replayOut.empty()) {
                FILE * o = fopen(replayOut.c_str(), "w");
                if (o) {
                    fprintf(o, "# minimal reproduction; run it again with: ./check --replay <this file>\nprop %s\n", P.name);
                    for (auto v : seeds) fprintf(o, "seed %lu\n", (unsigned long)v);
                    fprintf(o, "choices");
                    for (size_t k = 0; k < small.size(); ++k) fprintf(o, "%c%lu", k % 32 ? ' ' : '\n', (unsigned long)small[k]);
                    fprintf(o, "\nend\n# found as case %lu with seed %lu; %zu shrink attempts, %zu -> %zu choices\n", (unsigned long)f.idx, (unsigned long)seed, tried, ch.size(), small.size());
                    fprintf(o, "# message:\n%s\n# trace:\n%s\n", msg.c_str(), trace.c_str());
                    fclose(o);
                }
            }
            printf("FAILED %s case %lu: %s\n%s\n", P.name, (unsigned long)f.idx, msg.c_str(), trace.c_str());
            break;
        }
        if (!violated) {
            // Samples: the first nontrivial cases of this run, run again with tracing.
            int got = 0;
            for (uint64_t i = 0; i < std::min<uint64_t>(N, 12) && got < 2; ++i) {
                uint64_t s = caseSeed(seed, pi, i);
                ChildResult r = runChild(pi, nullptr, &s, 1, false, true, options.hangSeconds);
                if (!r.failed && sh->wasNontrivial) {
                    std::string t = sh->trace; if (t.size() > 1500) t = t.substr(0, 1500) + "...";
                    samples += (samples.empty() ? "" : ",\n  ") + ("{\"check\": " + jsonEsc(P.name) + ", \"case\": " + std::to_string(i) + ", \"trace\": " + jsonEsc(t) + "}");
                    ++got;
                }
            }
        }
    }
    double const wall = (nowNs() - t0) / 1e9;
    if (!out.empty()) {
        FILE * o = fopen(out.c_str(), "w");
        if (!o) { perror(out.c_str()); return 2; }
        fprintf(o, "{\"evaluations\": %lu, \"nontrivial\": %lu, \"distinct_nontrivial\": %lu, \"timed_out\": %s, \"unreproducible\": %lu,\n \"rule\": %s,\n \"parts\": [%s],\n \"samples\": [%s],\n \"violated\": %s, \"message\": %s, \"wall_s\": %.3f}\n",
            (unsigned long)totEvals, (unsigned long)totNontriv, (unsigned long)totDistinct, timedOut ? "true" : "false", (unsigned long)unrepro,
            jsonEsc(rules).c_str(), perProp.c_str(), samples.c_str(), violated ? "true" : "false", jsonEsc(vmsg).c_str(), wall);
        fclose(o);
    }
    printf("%s: %lu cases, %lu nontrivial, %lu distinct nontrivial, %.1f s%s\n", violated ? "VIOLATED" : "ok",
           (unsigned long)totEvals, (unsigned long)totNontriv, (unsigned long)totDistinct, wall, timedOut ? " (time cap reached)" : "");
    return violated ? 1 : 0;
}

} // namespace pbt

int main(int argc, char ** argv) { return pbt::runMain(argc, argv); }
