#ifndef STUB_GCCVERSION_H
#define STUB_GCCVERSION_H
#if defined(__GNUC__) && !defined(__clang__)
#define SHAREMIND_GCC_VERSION (__GNUC__ * 10000 + __GNUC_MINOR__ * 100 + __GNUC_PATCHLEVEL__)
#endif
#endif
