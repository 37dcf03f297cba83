#define SV_KEEP_LONG
#include "common.h"
#include "strnum.h"
#include <errno.h>
/* X(name, type, lower limit, upper limit) */
#define SIGNED_TYPES(X) X(char, char, CHAR_MIN, CHAR_MAX) X(short, short, SHRT_MIN, SHRT_MAX) X(int, int, INT_MIN, INT_MAX) X(long, long, LONG_MIN, LONG_MAX) X(llong, long long, LLONG_MIN, LLONG_MAX)
#define UNSIGNED_TYPES(X) X(uchar, unsigned char, 0, UCHAR_MAX) X(ushort, unsigned short, 0, USHRT_MAX) X(uint, unsigned int, 0, UINT_MAX) X(ulong, unsigned long, 0, ULONG_MAX) X(ullong, unsigned long long, 0, ULLONG_MAX)
#define FLOAT_TYPES(X) X(float, float, 0, 0) X(double, double, 0, 0) X(ldouble, long double, 0, 0)
#define INT_TYPES(X) SIGNED_TYPES(X) UNSIGNED_TYPES(X)
#define SIGNED_VALUES(X) X(i8, int8_t, INT8_MIN, INT8_MAX) X(i16, int16_t, INT16_MIN, INT16_MAX) X(i32, int32_t, INT32_MIN, INT32_MAX) X(i64, int64_t, INT64_MIN, INT64_MAX) SIGNED_TYPES(X)
#define UNSIGNED_VALUES(X) X(u8, uint8_t, 0, UINT8_MAX) X(u16, uint16_t, 0, UINT16_MAX) X(u32, uint32_t, 0, UINT32_MAX) X(u64, uint64_t, 0, UINT64_MAX) UNSIGNED_TYPES(X)
