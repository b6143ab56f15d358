#include <stdint.h>
#define PRIx64 "lx"
#define PRIu64 "lu"
#define PRIX64 "lX"
#define PRIu32 "u"
