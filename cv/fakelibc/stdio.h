#ifndef V_STDIO
#define V_STDIO
#include <stddef.h>
#include <stdarg.h>
typedef struct v_FILE FILE;
extern FILE *stdin, *stdout, *stderr;
#define EOF (-1)
int printf(const char *, ...); int fprintf(FILE *, const char *, ...); int sprintf(char *, const char *, ...);
int snprintf(char *, size_t, const char *, ...); int vfprintf(FILE *, const char *, va_list);
int fputs(const char *, FILE *); int fputc(int, FILE *); int putc(int, FILE *); int getc(FILE *); int fgetc(FILE *);
int putchar(int); int puts(const char *); void perror(const char *); int fclose(FILE *); FILE *fopen(const char *, const char *);
int fflush(FILE *); int ferror(FILE *); int feof(FILE *); int ungetc(int, FILE *); size_t fread(void *, size_t, size_t, FILE *); size_t fwrite(const void *, size_t, size_t, FILE *);
char *fgets(char *, int, FILE *); int sscanf(const char *, const char *, ...); void rewind(FILE *); FILE *tmpfile(void);
int vsnprintf(char *, size_t, const char *, va_list);
#endif
