#ifndef STUB_ALIGN_H
#define STUB_ALIGN_H
#define SHAREMIND_ALIGN_TO_CACHE_SIZE alignas(64)
#endif
