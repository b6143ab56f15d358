#ifndef V_STDDEF
#define V_STDDEF
typedef unsigned long size_t; typedef long ptrdiff_t; typedef int wchar_t; typedef long ssize_t;
#define NULL ((void *)0)
#define offsetof(t,m) __builtin_offsetof(t,m)
#endif
