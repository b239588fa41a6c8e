/* The real dw_node.c and everything it links with, system calls redirected to
 * the unit's stubs. A unit defines the VP_* stubs it needs before including
 * this file; the others stop the run as "callee without contract". */
#ifndef VP_NODE_H
#define VP_NODE_H
#include "vp_sys.h"
#ifdef VP_CBMC
/* no body: a call reached by a proof is reported as callee without contract */
#define VP_NO(t, f) t f
#else
#define VP_NO(t, f) static t f { vp_uncontracted(); return (t)0; }
#endif
static void vp_uncontracted(void) { fprintf(stderr, "system call without contract\n"); _exit(78); }
#ifdef VP_RW
static ssize_t vp_write(int fd, const void *buf, size_t n);
static ssize_t vp_read(int fd, void *buf, size_t n);
#else
VP_NO(ssize_t, vp_write(int fd, const void *buf, size_t n));
VP_NO(ssize_t, vp_read(int fd, void *buf, size_t n));
#endif
#ifdef VP_FILE
static off_t vp_lseek(int fd, off_t off, int whence);
static int vp_fsync(int fd);
#else
VP_NO(off_t, vp_lseek(int fd, off_t off, int whence));
VP_NO(int, vp_fsync(int fd));
#endif
#ifdef VP_CLOCK
static int vp_clock_gettime(clockid_t id, struct timespec *ts);
#else
VP_NO(int, vp_clock_gettime(clockid_t id, struct timespec *ts));
#endif
#ifdef VP_TIMERFD
static int vp_timerfd_gettime(int fd, struct itimerspec *t);
static int vp_timerfd_settime(int fd, int flags, const struct itimerspec *t, struct itimerspec *old);
#else
VP_NO(int, vp_timerfd_gettime(int fd, struct itimerspec *t));
VP_NO(int, vp_timerfd_settime(int fd, int flags, const struct itimerspec *t, struct itimerspec *old));
#endif
#ifdef VP_EPOLL
static int vp_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev);
static int vp_epoll_wait(int ep, struct epoll_event *ev, int n, int t);
static int vp_close(int fd);
#else
VP_NO(int, vp_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev));
VP_NO(int, vp_epoll_wait(int ep, struct epoll_event *ev, int n, int t));
VP_NO(int, vp_close(int fd));
#endif
#ifdef VP_SOCKET
static int vp_socket(int d, int t, int p);
static int vp_connect(int fd, const void *a, socklen_t l);
static int vp_setsockopt(int fd, int l, int o, const void *v, socklen_t n);
static int vp_getsockopt(int fd, int l, int o, void *v, socklen_t *n);
static int vp_accept(int fd, void *a, socklen_t *n);
static int vp_fcntl(int fd, int c, int a);
#else
VP_NO(int, vp_socket(int d, int t, int p));
VP_NO(int, vp_connect(int fd, const void *a, socklen_t l));
VP_NO(int, vp_setsockopt(int fd, int l, int o, const void *v, socklen_t n));
VP_NO(int, vp_getsockopt(int fd, int l, int o, void *v, socklen_t *n));
VP_NO(int, vp_accept(int fd, void *a, socklen_t *n));
VP_NO(int, vp_fcntl(int fd, int c, int a));
#endif
#ifdef VP_NET
static ssize_t vp_sendto(int fd, const void *b, size_t n, int f, const void *a, socklen_t l);
static ssize_t vp_recvfrom(int fd, void *b, size_t n, int f, void *a, socklen_t *l);
#else
VP_NO(ssize_t, vp_sendto(int fd, const void *b, size_t n, int f, const void *a, socklen_t l));
VP_NO(ssize_t, vp_recvfrom(int fd, void *b, size_t n, int f, void *a, socklen_t *l));
#endif
#define sendto vp_sendto
#define recvfrom vp_recvfrom
#define write vp_write
#define read vp_read
#define lseek vp_lseek
#define fsync vp_fsync
#define fdatasync vp_fsync
#define clock_gettime vp_clock_gettime
#define timerfd_gettime vp_timerfd_gettime
#define timerfd_settime vp_timerfd_settime
#define epoll_ctl vp_epoll_ctl
#define epoll_wait vp_epoll_wait
#define close vp_close
#define socket(d, t, p) vp_socket(d, t, p)
#define connect(f, a, l) vp_connect(f, a, l)
#define setsockopt vp_setsockopt
#define getsockopt vp_getsockopt
#define accept vp_accept
#define fcntl vp_fcntl
#define main dw_node_main
/* what the node never runs under a proof */
#define pthread_create(...) (vp_uncontracted(), -1)
#define open(...) (vp_uncontracted(), -1)
#define bind(...) (vp_uncontracted(), -1)
#include "message.h"
#include "request.h"
#include "connection.h"
#include "priority_queue.h"
#ifdef VP_BUF_SIZE                    /* random searches: smaller buffers */
#undef BUF_SIZE
#define BUF_SIZE VP_BUF_SIZE
#endif
#ifdef VP_NODE_DECL
VP_NODE_DECL
#endif
#include "dw_node.c"
#include "message.c"
#include "request.c"
#include "connection.c"
#include "priority_queue.c"
#include "address_utils.c"
#include "thread_affinity.c"
#undef write
#undef read
#undef main
#undef close
#undef open
#endif
