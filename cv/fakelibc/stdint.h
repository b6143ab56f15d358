#ifndef V_STDINT
#define V_STDINT
typedef signed char int8_t; typedef short int16_t; typedef int int32_t; typedef long int64_t;
typedef unsigned char uint8_t; typedef unsigned short uint16_t; typedef unsigned int uint32_t; typedef unsigned long uint64_t;
typedef unsigned long uintptr_t; typedef long intptr_t; typedef unsigned long uintmax_t; typedef long intmax_t;
typedef unsigned long uint_fast64_t; typedef unsigned int uint_least32_t;
#define UINT8_MAX 255
#define UINT16_MAX 65535
#define UINT32_MAX 4294967295U
#define UINT64_MAX 18446744073709551615UL
#define INT32_MAX 2147483647
#define INT64_MAX 9223372036854775807L
#define SIZE_MAX 18446744073709551615UL
#define UINTPTR_MAX 18446744073709551615UL
#define UINT64_C(x) x##UL
#define UINT32_C(x) x##U
#endif
