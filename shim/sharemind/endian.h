// Stand-in for the header of SharemindCHeaders used by cxxheaders.
#ifndef SHAREMIND_ENDIAN_H
#define SHAREMIND_ENDIAN_H
#include <endian.h>
#endif
