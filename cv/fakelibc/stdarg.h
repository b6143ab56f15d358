#ifndef V_STDARG
#define V_STDARG
typedef struct v_va_list *va_list;
#define va_start(a,b) __v_va_start(a)
#define va_end(a) __v_va_end(a)
#define va_arg(a,t) (*(t *)__v_va_arg(a))
#endif
