#undef assert
#define assert(e) __v_assert(!!(e))
void __v_assert(int);
