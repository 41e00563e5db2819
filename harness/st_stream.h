/* Compiles the stream sources of the library over pipes kept in memory, whose every operation is a scheduling point. */
#undef COMMON_FILE_COMPRESS_GZ
#undef COMMON_FILE_COMPRESS_BZ2
#undef COMMON_FILE_COMPRESS_LZMA
#define COMMON_FILE_COMPRESS_GZ
#define COMMON_FILE_COMPRESS_BZ2
#define COMMON_FILE_COMPRESS_LZMA
#ifndef COMMON_PTHREAD_FILE
#define COMMON_PTHREAD_FILE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
int     mcs_pipe (int *);
ssize_t mcs_read (int, void *, size_t);
ssize_t mcs_write (int, const void *, size_t);
int     mcs_close (int);
FILE   *mcs_fdopen (int, const char *);
int     mcs_sigmask (int, const sigset_t *, sigset_t *);
#define pipe(a)              mcs_pipe (a)
#define pipe2(a,b)           mcs_pipe (a)
#define read(a,b,c)          mcs_read ((a), (b), (c))
#define write(a,b,c)         mcs_write ((a), (b), (c))
#define close(a)             mcs_close (a)
#define fdopen(a,b)          mcs_fdopen ((a), (b))
#define pthread_sigmask(a,b,c) mcs_sigmask ((a), (b), (c))
#define sigprocmask(a,b,c)   mcs_sigmask ((a), (b), (c))
