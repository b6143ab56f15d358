extern int errno;
#define EINVAL 22
#define ENOMEM 12
#define ENOTSUP 95
#define ERANGE 34
#define ENOENT 2
