/* System headers first, then the calls the verified code makes into the
 * system are redirected to the unit's stubs (vp_*). */
#ifndef VP_SYS_H
#define VP_SYS_H
#include <arpa/inet.h>
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <netdb.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
#include <sys/epoll.h>
#include <sys/timerfd.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <stdbool.h>
#include <stdatomic.h>
#include <argp.h>
#include <time.h>
#include <math.h>
#include <ctype.h>

#ifdef VP_CBMC
#define atomic_int int                /* atomicity is what the units' macros model */
#endif

#undef errno
static int vp_errno;
#define errno vp_errno

/* diagnostics have no effect on the state */
#ifdef VP_CBMC
#undef fprintf
#undef printf
#undef perror
#undef stderr
#undef stdout
static FILE *vp_null_file;
#define stderr vp_null_file
#define stdout vp_null_file
#define fprintf(...) ((void)0)
#define printf(...) ((void)0)
#define perror(s) ((void)0)
#define fflush(s) ((void)0)
#define strerror(e) ("")
#define inet_ntoa(a) ("")
#endif
#define exit vp_exit
#endif
