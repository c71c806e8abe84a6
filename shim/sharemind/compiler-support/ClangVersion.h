// Stand-in for the header of SharemindCHeaders used by cxxheaders.
#ifndef SHAREMIND_COMPILER_SUPPORT_CLANGVERSION_H
#define SHAREMIND_COMPILER_SUPPORT_CLANGVERSION_H
#ifdef __clang__
#define SHAREMIND_CLANG_VERSION (__clang_major__ * 10000 + __clang_minor__ * 100 + __clang_patchlevel__)
#endif
#endif
