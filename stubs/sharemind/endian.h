#ifndef STUB_ENDIAN_H
#define STUB_ENDIAN_H
#include <endian.h>
#endif
