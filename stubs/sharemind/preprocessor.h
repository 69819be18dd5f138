// Stand-in for SharemindCHeaders' preprocessor.h (not available offline).
#ifndef STUB_PREPROCESSOR_H
#define STUB_PREPROCESSOR_H
#define SHAREMIND_TOSTRING2(...) #__VA_ARGS__
#define SHAREMIND_TOSTRING(...) SHAREMIND_TOSTRING2(__VA_ARGS__)
#define SHAREMIND_C2_(a,b) a ## b
#define SHAREMIND_C2(a,b) SHAREMIND_C2_(a,b)
#define SHAREMIND_C(a,b) SHAREMIND_C2(a,b)
#define SHAREMIND_C3(a,b,c) SHAREMIND_C2(SHAREMIND_C2(a,b),c)
#define SHAREMIND_T_3_0(a,b,c) a
#define SHAREMIND_T_3_1(a,b,c) b
#define SHAREMIND_T_3_2(a,b,c) c
#define SHAREMIND_T(n,i,e) SHAREMIND_T_ ## n ## _ ## i e
#endif
