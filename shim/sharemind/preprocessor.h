// Stand-in for the header of SharemindCHeaders used by cxxheaders.
#ifndef SHAREMIND_PREPROCESSOR_H
#define SHAREMIND_PREPROCESSOR_H
#define SHAREMIND_C_(a,b) a ## b
#define SHAREMIND_C(a,b) SHAREMIND_C_(a,b)
#define SHAREMIND_C3_(a,b,c) a ## b ## c
#define SHAREMIND_C3(a,b,c) SHAREMIND_C3_(a,b,c)
#define SHAREMIND_T3_0_(a,b,c) a
#define SHAREMIND_T3_1_(a,b,c) b
#define SHAREMIND_T3_2_(a,b,c) c
#define SHAREMIND_T(n,i,t) SHAREMIND_T ## n ## _ ## i ## _ t
#endif
