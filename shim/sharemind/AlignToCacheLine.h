// Stand-in for the header of SharemindCHeaders used by cxxheaders.
#ifndef SHAREMIND_ALIGNTOCACHELINE_H
#define SHAREMIND_ALIGNTOCACHELINE_H
#define SHAREMIND_ALIGN_TO_CACHE_SIZE __attribute__((aligned(64)))
#endif
