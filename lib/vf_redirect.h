/*
 * Force-included (-include) before every translation unit of the code under
 * test, in the CBMC build and in the native replay build alike.  It routes
 * the operating-system boundary (stdio, file system, clock, process) to the
 * models in vf_model.c.  Nothing else of the code under test is changed.
 */
#ifndef VF_REDIRECT_H
#define VF_REDIRECT_H
#ifdef HAVE_CONFIG_H
#include "config.h"
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <dirent.h>
#include <utime.h>
#include <pwd.h>
#include <assert.h>
#include <limits.h>
#include <locale.h>

/* ---- stdio ---- */
FILE *vf_fopen(const char *, const char *);
FILE *vf_freopen(const char *, const char *, FILE *);
int vf_fclose(FILE *);
int vf_getc(FILE *);
int vf_ungetc(int, FILE *);
int vf_putc(int, FILE *);
int vf_fputs(const char *, FILE *);
char *vf_fgets(char *, int, FILE *);
size_t vf_fread(void *, size_t, size_t, FILE *);
size_t vf_fwrite(const void *, size_t, size_t, FILE *);
int vf_fseek(FILE *, long, int);
long vf_ftell(FILE *);
void vf_rewind(FILE *);
int vf_ferror(FILE *);
int vf_feof(FILE *);
void vf_clearerr(FILE *);
int vf_fflush(FILE *);
int vf_fileno(FILE *);
int vf_fprintf(FILE *, const char *, ...);
int vf_vfprintf(FILE *, const char *, va_list);
int vf_printf(const char *, ...);
int vf_snprintf(char *, size_t, const char *, ...);
int vf_vsnprintf(char *, size_t, const char *, va_list);
int vf_sprintf(char *, const char *, ...);
void vf_perror(const char *);
extern FILE *vf_stdin, *vf_stdout, *vf_stderr;
#undef stdin
#undef stdout
#undef stderr
#define stdin vf_stdin
#define stdout vf_stdout
#define stderr vf_stderr
#define fopen(a,b) vf_fopen(a,b)
#define freopen(a,b,c) vf_freopen(a,b,c)
#define fclose(a) vf_fclose(a)
#undef getc
#undef putc
#undef fgetc
#undef fputc
#undef putchar
#undef feof
#undef ferror
#undef clearerr
#define getc(a) vf_getc(a)
#define fgetc(a) vf_getc(a)
#define ungetc(a,b) vf_ungetc(a,b)
#define putc(a,b) vf_putc(a,b)
#define fputc(a,b) vf_putc(a,b)
#define putchar(a) vf_putc(a,vf_stdout)
#define puts(a) (vf_fputs(a,vf_stdout),vf_putc('\n',vf_stdout))
#define fputs(a,b) vf_fputs(a,b)
#define fgets(a,b,c) vf_fgets(a,b,c)
#define fread(a,b,c,d) vf_fread(a,b,c,d)
#define fwrite(a,b,c,d) vf_fwrite(a,b,c,d)
#define fseek(a,b,c) vf_fseek(a,b,c)
#define ftell(a) vf_ftell(a)
#define rewind(a) vf_rewind(a)
#define ferror(a) vf_ferror(a)
#define feof(a) vf_feof(a)
#define clearerr(a) vf_clearerr(a)
#define fflush(a) vf_fflush(a)
#define fileno(a) vf_fileno(a)
#define setvbuf(a,b,c,d) 0
#define fprintf(...) vf_fprintf(__VA_ARGS__)
#define vfprintf(a,b,c) vf_vfprintf(a,b,c)
#define printf(...) vf_printf(__VA_ARGS__)
#define snprintf(...) vf_snprintf(__VA_ARGS__)
#define vsnprintf(a,b,c,d) vf_vsnprintf(a,b,c,d)
#define sprintf(...) vf_sprintf(__VA_ARGS__)
#define perror(a) vf_perror(a)
#undef sscanf
int vf_sscanf(const char *, const char *, ...);
#define sscanf(...) vf_sscanf(__VA_ARGS__)

/* ---- file system ---- */
int vf_rename(const char *, const char *);
int vf_unlink(const char *);
int vf_link(const char *, const char *);
int vf_access(const char *, int);
int vf_stat(const char *, struct stat *);
int vf_fstat(int, struct stat *);
int vf_mkdir(const char *, mode_t);
int vf_chmod(const char *, mode_t);
int vf_utime(const char *, const struct utimbuf *);
int vf_open(const char *, int, ...);
int vf_creat(const char *, mode_t);
int vf_close(int);
ssize_t vf_read(int, void *, size_t);
ssize_t vf_write(int, const void *, size_t);
int vf_fcntl(int, int, ...);
int vf_fsync(int);
int vf_ftruncate(int, off_t);
int vf_truncate(const char *, off_t);
FILE *vf_fdopen(int, const char *);
DIR *vf_opendir(const char *);
struct dirent *vf_readdir(DIR *);
int vf_closedir(DIR *);
int vf_chdir(const char *);
#define rename(a,b) vf_rename(a,b)
#define unlink(a) vf_unlink(a)
#define remove(a) vf_unlink(a)
#define link(a,b) vf_link(a,b)
#define access(a,b) vf_access(a,b)
#define stat(a,b) vf_stat(a,b)
#define fstat(a,b) vf_fstat(a,b)
#define mkdir(a,b) vf_mkdir(a,b)
#define chmod(a,b) vf_chmod(a,b)
#define utime(a,b) vf_utime(a,b)
#define open(...) vf_open(__VA_ARGS__)
#define creat(a,b) vf_creat(a,b)
#define close(a) vf_close(a)
#define read(a,b,c) vf_read(a,b,c)
#define write(a,b,c) vf_write(a,b,c)
#define fcntl(...) vf_fcntl(__VA_ARGS__)
#define fsync(a) vf_fsync(a)
#define ftruncate(a,b) vf_ftruncate(a,b)
#define truncate(a,b) vf_truncate(a,b)
#define fdopen(a,b) vf_fdopen(a,b)
#define opendir(a) vf_opendir(a)
#define readdir(a) vf_readdir(a)
#define closedir(a) vf_closedir(a)
#define chdir(a) vf_chdir(a)

/* ---- clock, process, environment ---- */
time_t vf_time(time_t *);
int vf_gettimeofday(struct timeval *, void *);
struct tm *vf_localtime(const time_t *);
struct tm *vf_gmtime(const time_t *);
time_t vf_mktime(struct tm *);
size_t vf_strftime(char *, size_t, const char *, const struct tm *);
unsigned vf_sleep(unsigned);
pid_t vf_getpid(void);
char *vf_getenv(const char *);
int vf_kill(pid_t, int);
void vf_exit(int) __attribute__((noreturn));
int vf_system(const char *);
FILE *vf_popen(const char *, const char *);
int vf_pclose(FILE *);
#define time(a) vf_time(a)
#define gettimeofday(a,b) vf_gettimeofday(a,b)
#define localtime(a) vf_localtime(a)
#define gmtime(a) vf_gmtime(a)
#define mktime(a) vf_mktime(a)
#define strftime(a,b,c,d) vf_strftime(a,b,c,d)
#define sleep(a) vf_sleep(a)
#define getpid() vf_getpid()
#define getenv(a) vf_getenv(a)
#define kill(a,b) vf_kill(a,b)
#define exit(a) vf_exit(a)
#define system(a) vf_system(a)
#define popen(a,b) vf_popen(a,b)
#define pclose(a) vf_pclose(a)
#define signal(a,b) ((void)0)
#define setlocale(a,b) ((char *)0)
#define setenv(a,b,c) 0
#define getuid() ((uid_t)1000)
#define geteuid() ((uid_t)1000)
#define getpwuid(a) ((struct passwd *)0)
#undef strerror
#define strerror(a) vf_strerror(a)
char *vf_strerror(int);
void vf_qsort(void *, size_t, size_t, int (*)(const void *, const void *));
#define qsort(a,b,c,d) vf_qsort(a,b,c,d)

#ifdef __CPROVER
/* plain functions instead of glibc's table macros / builtins */
#undef isspace
#undef isdigit
#undef isalpha
#undef isalnum
#undef isupper
#undef islower
#undef isprint
#undef ispunct
#undef iscntrl
#undef isxdigit
#undef isgraph
#undef toupper
#undef tolower
int vf_isspace(int); int vf_isdigit(int); int vf_isalpha(int);
int vf_isalnum(int); int vf_isupper(int); int vf_islower(int);
int vf_isprint(int); int vf_ispunct(int); int vf_iscntrl(int);
int vf_isxdigit(int); int vf_isgraph(int);
int vf_toupper(int); int vf_tolower(int);
#define isspace(c) vf_isspace(c)
#define isdigit(c) vf_isdigit(c)
#define isalpha(c) vf_isalpha(c)
#define isalnum(c) vf_isalnum(c)
#define isupper(c) vf_isupper(c)
#define islower(c) vf_islower(c)
#define isprint(c) vf_isprint(c)
#define ispunct(c) vf_ispunct(c)
#define iscntrl(c) vf_iscntrl(c)
#define isxdigit(c) vf_isxdigit(c)
#define isgraph(c) vf_isgraph(c)
#define toupper(c) vf_toupper(c)
#define tolower(c) vf_tolower(c)
#undef errno
extern int vf_errno;
#define errno vf_errno
/* string functions: bounded models with access checks */
#undef strlen
#undef strcpy
#undef strncpy
#undef strcat
#undef strncat
#undef strcmp
#undef strncmp
#undef strcasecmp
#undef strncasecmp
#undef strchr
#undef strrchr
#undef strstr
#undef strpbrk
#undef strspn
#undef strcspn
#undef strdup
#undef strtok
#undef strndup
#undef stpcpy
#undef memcpy
#undef memmove
#undef memset
#undef memcmp
#undef memchr
#undef memccpy
size_t vf_strlen(const char *);
char *vf_strcpy(char *, const char *);
char *vf_strncpy(char *, const char *, size_t);
char *vf_strcat(char *, const char *);
char *vf_strncat(char *, const char *, size_t);
int vf_strcmp(const char *, const char *);
int vf_strncmp(const char *, const char *, size_t);
int vf_strcasecmp(const char *, const char *);
int vf_strncasecmp(const char *, const char *, size_t);
char *vf_strchr(const char *, int);
char *vf_strrchr(const char *, int);
char *vf_strstr(const char *, const char *);
char *vf_strpbrk(const char *, const char *);
size_t vf_strspn(const char *, const char *);
size_t vf_strcspn(const char *, const char *);
char *vf_strdup(const char *);
char *vf_stpcpy(char *, const char *);
void *vf_memchr(const void *, int, size_t);
void *vf_memccpy(void *, const void *, int, size_t);
int vf_memcmp(const void *, const void *, size_t);
void *vf_memcpy(void *, const void *, size_t);
void *vf_memmove(void *, const void *, size_t);
void *vf_memset(void *, int, size_t);
/* constant sizes: CBMC's block operations; variable sizes: byte loops */
#define memcpy(a,b,c) (__builtin_constant_p(c) ? (memcpy)(a,b,c) : vf_memcpy(a,b,c))
#define memmove(a,b,c) (__builtin_constant_p(c) ? (memmove)(a,b,c) : vf_memmove(a,b,c))
#define memset(a,b,c) (__builtin_constant_p(c) ? (memset)(a,b,c) : vf_memset(a,b,c))
long vf_strtol(const char *, char **, int);
#define strlen(a) vf_strlen(a)
#define strcpy(a,b) vf_strcpy(a,b)
#define strncpy(a,b,c) vf_strncpy(a,b,c)
#define strcat(a,b) vf_strcat(a,b)
#define strncat(a,b,c) vf_strncat(a,b,c)
#define strcmp(a,b) vf_strcmp(a,b)
#define strncmp(a,b,c) vf_strncmp(a,b,c)
#define strcasecmp(a,b) vf_strcasecmp(a,b)
#define strncasecmp(a,b,c) vf_strncasecmp(a,b,c)
#define strchr(a,b) vf_strchr(a,b)
#define strrchr(a,b) vf_strrchr(a,b)
#define strstr(a,b) vf_strstr(a,b)
#define strpbrk(a,b) vf_strpbrk(a,b)
#define strspn(a,b) vf_strspn(a,b)
#define strcspn(a,b) vf_strcspn(a,b)
#define strdup(a) vf_strdup(a)
char *vf_strtok(char *, const char *);
#define strtok(a,b) vf_strtok(a,b)
#define stpcpy(a,b) vf_stpcpy(a,b)
#define memchr(a,b,c) vf_memchr(a,b,c)
#define memcmp(a,b,c) vf_memcmp(a,b,c)
#define memccpy(a,b,c,d) vf_memccpy(a,b,c,d)
#define strtol(a,b,c) vf_strtol(a,b,c)
int vf_atoi(const char *);
long vf_atol(const char *);
#define atoi vf_atoi
#define atol vf_atol
#endif
#endif
