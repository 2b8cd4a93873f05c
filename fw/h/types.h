/* The types of the OpenSHMEM specification, written down independently of the library's own tables. */
#ifndef HC_TYPES_H
#define HC_TYPES_H
#define RMA_TYPES(X) \
    X(float, float) X(double, double) X(longdouble, long double) X(char, char) X(schar, signed char) \
    X(short, short) X(int, int) X(long, long) X(longlong, long long) X(uchar, unsigned char) \
    X(ushort, unsigned short) X(uint, unsigned int) X(ulong, unsigned long) X(ulonglong, unsigned long long) \
    X(int8, int8_t) X(int16, int16_t) X(int32, int32_t) X(int64, int64_t) X(uint8, uint8_t) X(uint16, uint16_t) \
    X(uint32, uint32_t) X(uint64, uint64_t) X(size, size_t) X(ptrdiff, ptrdiff_t)
#define RMA_SIZES(X) X(8, 1) X(16, 2) X(32, 4) X(64, 8) X(128, 16)
#define AMO_STD_TYPES(X) \
    X(int, int) X(long, long) X(longlong, long long) X(uint, unsigned int) X(ulong, unsigned long) \
    X(ulonglong, unsigned long long) X(int32, int32_t) X(int64, int64_t) X(uint32, uint32_t) X(uint64, uint64_t) \
    X(size, size_t) X(ptrdiff, ptrdiff_t)
#define AMO_EXT_TYPES(X) X(float, float) X(double, double) AMO_STD_TYPES(X)
#define AMO_BIT_TYPES(X) \
    X(uint, unsigned int) X(ulong, unsigned long) X(ulonglong, unsigned long long) X(int32, int32_t) \
    X(int64, int64_t) X(uint32, uint32_t) X(uint64, uint64_t)
#define P2P_TYPES(X) \
    X(short, short) X(int, int) X(long, long) X(longlong, long long) X(ushort, unsigned short) \
    X(uint, unsigned int) X(ulong, unsigned long) X(ulonglong, unsigned long long) X(int32, int32_t) \
    X(int64, int64_t) X(uint32, uint32_t) X(uint64, uint64_t) X(size, size_t) X(ptrdiff, ptrdiff_t)
#define COLL_TYPES(X) RMA_TYPES(X)
#endif
