/* C25: events on connections, and the worker that receives them. */
#include "vp.h"
#define VP_RW
#define VP_EPOLL
#define VP_SOCKET
#define VP_CLOCK
#define VP_FILE
#include "vp_sys.h"
#define prctl(...) 0
#define syscall(...) 0
#undef atomic_fetch_add
#define atomic_fetch_add(p, v) ({ int vp_o = *(p); *(p) = (int)((unsigned)vp_o + (v)); vp_o; })
#ifdef VP_CBMC
#define sprintf(...) 0
#endif
#define VP_NODE_DECL \
    static void vp_run_loop(volatile int *running); \
    static void vp_ev_loop(int *i, int nfds, volatile int *running, struct epoll_event *events); \
    static void vp_stat_loop(int *i);
#include "vp_node.h"

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"

static conn_worker_info_t WI, *W = &WI;
static int EP, CID, SOCK, active0, conns0; static conn_info_t *C;
static struct epoll_event EV;
enum { OP_NONE = 99 };
/* what the socket is watched for */
static bool watched; static uint32_t watch; static uint64_t wdata;
static int n_recv, n_send, n_obtain, n_timer, n_free, n_close, n_del, n_forget; static int recv_rv, send_rv, obtain_rv, so_error;
static bool is_setup, found_closed, on_worker;
static int worker_ctl(int ep, int op, int fd, struct epoll_event *ev);
static void setup_ctl(int fd, struct epoll_event *ev);
static int vp_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    if (on_worker) return worker_ctl(ep, op, fd, ev);
    if (is_setup) { CHECK(op == EPOLL_CTL_ADD, "setup: added"); CHECK(ep == EP, "setup: the worker's own events"); setup_ctl(fd, ev); return 0; }
    CHECK(ep == EP && fd == SOCK, "watching: the connection's own socket");
    CHECK(n_close == 0 && n_free == 0, "watching: not of a closed connection");
    if (op == EPOLL_CTL_DEL) { n_del++; watched = false; return nd_bool() ? 0 : -1; }
    CHECK(op == EPOLL_CTL_MOD, "watching: changed in place");
    CHECK(ev->data.u64 == ((uint64_t)SOCKET << 32 | (uint32_t)CID), "watching: events keep naming the connection");
    watch = ev->events; wdata = ev->data.u64;
    return 0;
}
static int vp_close(int fd) { CHECK(fd == SOCK && n_forget == 1 && n_close == 0, "closing: the connection's own socket, once"); n_close++; return 0; }
static int vp_getsockopt(int fd, int l, int o, void *v, socklen_t *n) {
    CHECK(fd == SOCK && l == SOL_SOCKET && o == SO_ERROR, "connecting: the outcome of this connection");
    *(int *)v = so_error;
    return 0;
}
int forget_contract(int sock) {                                   /* C05: releases the pending requests, invalidates the socket */
    CHECK(sock == SOCK && n_forget == 0, "closing: the connection is forgotten, once");
    n_forget++;
    C->sock = -1; C->req_list = NULL;
    return CID;
}
void free_contract(int id) {                                      /* C05 */
    CHECK(id == CID && n_close == 1 && n_free == 0, "closing: the slot is released once, after the socket was closed");
    n_free++;
    C->recv_buf = NULL; C->send_buf = NULL; C->status = CLOSE; C->sock = -1;
}
int recv_contract(conn_info_t *c) {                               /* C07 */
    CHECK(c == C && n_recv == 0 && n_send == 0 && n_obtain == 0, "input: received once, first");
    n_recv++;
    return recv_rv = nd_bool();
}
int send_contract(conn_info_t *c) {                               /* C06 */
    CHECK(c == C && n_obtain == 0 && c->curr_send_size > 0, "output: waiting bytes are sent");
    CHECK(c->status != CONNECTING && c->status != NOT_INIT, "output: only on an established connection");
    n_send++;
    send_rv = nd_int(); ASSUME(send_rv >= -1 && (send_rv <= 0 || (unsigned long)send_rv <= c->curr_send_size));
    if (send_rv > 0) c->curr_send_size -= send_rv;
    if (send_rv == 0 && nd_bool()) { c->status = CLOSE; found_closed = true; }
    return send_rv;
}
static bool busy_after;
int obtain_contract(int id, int ep, conn_worker_info_t *i) {      /* C15: may send replies over this connection, which is then watched */
    CHECK(id == CID && ep == EP && i == W && n_obtain == 0, "messages: of this connection are handled once");
    n_obtain++;
    WI.active_reqs = nd_irange(0, 1 << 20);
    if (nd_bool()) {                     /* replies sent */
        C->curr_send_size = nd_u64(); ASSUME(C->curr_send_size <= BUF_SIZE);
        if (C->status == READY || C->status == SENDING) {
            uint8_t k = nd_u8();
            if (k == 0) { C->status = CLOSE; found_closed = true; }
            else if (k == 1 && C->curr_send_size > 0 && C->status == READY) { C->status = SENDING; watch = EPOLLIN | EPOLLOUT; wdata = (uint64_t)SOCKET << 32 | (uint32_t)CID; }
        }
    }
    return obtain_rv = nd_bool();
}
void timer_contract(int ep, conn_worker_info_t *i) { CHECK(ep == EP && i == W, "timer: the worker's timeouts"); n_timer++; }
static bool established(conn_status_t s) { return s != NOT_INIT && s != CONNECTING; }
void h_event(void) {
    EP = nd_int(); CID = nd_irange(0, MAX_CONNS - 1); C = &conns[CID];
    SOCK = nd_irange(3, 1 << 20);
    uint32_t ty = nd_irange(TIMER, SOCKET);
    EV.events = nd_u32(); EV.data.u64 = (uint64_t)ty << 32 | (uint32_t)CID;
    bool gone = nd_bool();
    static unsigned char rb, sb;
    C->sock = gone && nd_bool() ? -1 : SOCK; C->recv_buf = gone && C->sock != -1 ? NULL : &rb; C->send_buf = &sb;
    C->proto = nd_bool() ? TCP : UDP;
    C->curr_send_size = nd_u64(); ASSUME(C->curr_send_size <= BUF_SIZE);
    /* what is watched: a connection in progress for its completion, an
     * established one for input, and for output while it is sending */
    C->status = (conn_status_t)nd_irange(NOT_INIT, CLOSE);
    if (ty == CONNECT) ASSUME(C->proto == TCP && (C->status == CONNECTING || C->status == NOT_INIT));
    if (ty == SOCKET) ASSUME(C->status != CONNECTING && C->status != NOT_INIT);
    if (!gone) {
        watched = true;
        watch = ty == CONNECT ? EPOLLOUT | EPOLLONESHOT : C->status == SENDING ? EPOLLIN | EPOLLOUT : EPOLLIN;
        wdata = EV.data.u64;
        ASSUME(C->status != CLOSE);      /* closed at the end of the event that found it closed */
    }
    if (ty == CONNECT) ASSUME(!(EV.events & EPOLLIN) || (EV.events & (EPOLLERR | EPOLLHUP)));
    so_error = nd_int();
    active0 = nd_irange(0, 1 << 20); WI.active_reqs = active0; conns0 = nd_irange(1, 1 << 20); WI.active_conns = conns0; WI.epollfd = EP;
    conn_status_t s0 = C->status; proto_t p0 = C->proto; unsigned long pend0 = C->curr_send_size; int sock0 = C->sock;
    exec_request(EP, &EV, W);
    if (ty == TIMER) { CHECK(n_timer == 1 && !n_recv && !n_send && !n_obtain && !n_free && C->sock == sock0, "timer: only the timeouts are handled"); REACH("timer"); return; }
    CHECK(n_timer == 0, "socket: not taken for the timer");
    if (gone) { CHECK(!n_recv && !n_send && !n_obtain && !n_free && !n_close && !n_forget && WI.active_conns == conns0, "events of a closed connection are ignored"); REACH("gone"); return; }
    bool err = EV.events & (EPOLLERR | EPOLLHUP), in = EV.events & EPOLLIN, out = EV.events & EPOLLOUT;
    bool done = ty == CONNECT && out && !err && so_error == 0;      /* connection completed by this event */
    bool close_due = err || (in && n_recv && recv_rv == 0) || (ty == CONNECT && out && so_error != 0) || (n_send && send_rv < 0) || (n_obtain && !obtain_rv) || found_closed;
    if (!err) CHECK(n_recv == (in ? 1 : 0), "input: received exactly when there is some");
    if (n_free) {
        CHECK(n_free == 1 && n_close == 1 && n_forget == 1 && n_del == 1, "closing: released exactly once");
        CHECK(close_due, "closing: only on error, hang-up, shutdown or failure, not because a send would block");
        CHECK(WI.active_conns == conns0 - (p0 == TCP && established(s0) ? 1 : 0), "closing: discounted once if it was established");
        if (done) REACH("established and closed");
        REACH("closed");
    } else {
        CHECK(!close_due, "closing: on error, hang-up, shutdown or failure");
        CHECK(n_close == 0 && n_forget == 0 && n_del == 0 && C->sock == SOCK && watched, "open: stays open and watched");
        CHECK(n_obtain == 1, "open: new messages are looked for");
        CHECK(WI.active_conns == conns0 + (done ? 1 : 0), "open: counted once when established");
        if (ty == CONNECT) CHECK(done ? established(C->status) : C->status == s0, "connecting: established by its completion");
        if (established(C->status)) {
            CHECK(wdata == ((uint64_t)SOCKET << 32 | (uint32_t)CID), "open: its events name it");
            CHECK(watch == (C->curr_send_size > 0 ? EPOLLIN | EPOLLOUT : EPOLLIN), "open: watched for input, and for output exactly while bytes wait");
            CHECK((C->status == SENDING) == (C->curr_send_size > 0), "open: sending exactly while bytes wait");
            if (done) REACH("established");
            if (C->curr_send_size > 0) REACH("bytes waiting"); else REACH("nothing waiting");
        }
        if (out && pend0 > 0 && established(s0)) CHECK(n_send == 1, "output: waiting bytes are sent when possible");
    }
}
/* ------------------------------------------------------------- the worker */
#define TERMFD 5
static int UDPID, NEWS, NID, TGT, ACK, ev_type, ev_fd;
static bool term_ev, alloc_ok, live, read_ok, stat_ok, counted; static conn_status_t nstatus;
static int n_listen, n_term, n_tfd, n_stat, n_stor;       /* registrations */
static int n_accept, n_nonblock, n_cadd, n_drop, n_ack, n_exec, n_go, n_sread; static struct epoll_event *EVS; static int at;
static req_info_t REQ; static int tgt_conns0, WN, K;
#define EP0 1000
static void setup_ctl(int fd, struct epoll_event *ev) {
    uint32_t ty = (uint32_t)(ev->data.u64 >> 32), id = (uint32_t)ev->data.u64;
    CHECK(ev->events == EPOLLIN, "setup: watched for input");
    if (fd == W->listen_sock) {
        CHECK(UDPID == -1 ? ty == LISTEN && id == (uint32_t)fd : ty == SOCKET && id == (uint32_t)UDPID, "setup: the listening socket");
        n_listen++;
    } else if (fd == TERMFD) { CHECK(ty == TERMINATION, "setup: termination"); n_term++; }
    else if (fd == W->timerfd) { CHECK(ty == TIMER, "setup: timeouts"); n_tfd++; }
    else if (fd == W->store_replyfd) { CHECK(ty == STORAGE && id == (uint32_t)fd, "setup: storage acknowledgements"); n_stor++; }
    else { CHECK(fd == W->statfd && ty == STATS && id == (uint32_t)fd, "setup: statistics"); n_stat++; }
}
int find_sock_contract(int sock) { CHECK(sock == W->listen_sock, "setup: the listening socket"); return UDPID; }   /* C24 */
static void clear(void) {
    n_accept = n_nonblock = n_cadd = n_drop = n_ack = n_exec = n_go = n_sread = 0; counted = false;
}
static int vp_accept(int fd, void *a, socklen_t *n) {
    CHECK(ev_type == LISTEN && fd == W->listen_sock && n_accept == 0, "accept: one new connection");
    n_accept++;
    return NEWS;
}
static int vp_fcntl(int fd, int c, int a) {
    CHECK(fd == NEWS && n_accept, "accept: flags of the new connection");
    if (c == F_SETFL) { CHECK(a & O_NONBLOCK, "accept: never blocks"); n_nonblock++; return 0; }
    return nd_irange(0, 0x7fff);
}
static int vp_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { CHECK(fd == NEWS, "accept: options of the new connection"); return 0; }
int calloc_contract(int sock, struct sockaddr_in t, proto_t p) {  /* C05 */
    CHECK(sock == NEWS && p == TCP && n_nonblock == 1, "accept: a connection for the new socket");
    if (!alloc_ok) return -1;
    nstatus = NOT_INIT;
    return NID;
}
conn_status_t status_contract(int id, conn_status_t st) { CHECK(id == NID && alloc_ok, "accept: its own status"); nstatus = st; return st; }
void drop_contract(int ep, int sock) { CHECK(sock == NEWS && !alloc_ok && n_drop == 0, "accept: dropped only without a free slot"); n_drop++; }
static int worker_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    CHECK(op == EPOLL_CTL_ADD && fd == NEWS && alloc_ok && n_cadd == 0, "accept: watched once");
    CHECK(ev->events == EPOLLIN && ev->data.u64 == ((uint64_t)SOCKET << 32 | (uint32_t)NID), "accept: watched for input, its events name it");
    CHECK(nstatus == READY, "accept: established");
    TGT = ep - EP0;                                               /* epoll descriptors are told apart by their worker */
    CHECK(TGT >= 0 && TGT < conn_threads && (accept_mode == AM_PARENT || TGT == WN), "accept: given to a worker that runs, its own unless the first one accepts for all");
    n_cadd++;
    return nd_bool() ? 0 : -1;
}
int sread_contract(int fd, unsigned char *b, size_t n) {          /* C17 */
    CHECK(fd == W->store_replyfd && n == sizeof(int) && ev_type == STORAGE, "storage: one acknowledgement is read");
    n_sread++;
    if (!read_ok) return -1;
    *(int *)b = ACK;
    return 0;
}
req_info_t *get_contract(int id) { CHECK(id == ACK, "storage: the request acknowledged"); return live ? &REQ : NULL; }   /* C04 */
int go_contract(req_info_t *r, int ep, conn_worker_info_t *i) {   /* C15 */
    CHECK(r == &REQ && live && read_ok && ep == EP && i == W, "storage: the acknowledged request goes on");
    n_go++;
    return nd_irange(-1, 1);
}
void exec_contract(int ep, const struct epoll_event *ev, conn_worker_info_t *i) {
    CHECK(ep == EP && i == W && ev == &EVS[at], "event: handled with its own data");
    n_exec++;
}
static ssize_t vp_read(int fd, void *b, size_t n) {
    CHECK(ev_type == STATS && fd == ev_fd, "statistics: the signal is consumed");
    return stat_ok ? (ssize_t)n : -1;
}
static ssize_t vp_write(int fd, const void *b, size_t n) { CHECK(false, "nothing is written"); return -1; }
static off_t vp_lseek(int fd, off_t off, int whence) { CHECK(false, "nothing is sought"); return 0; }
static int vp_fsync(int fd) { CHECK(false, "nothing is synchronised"); return 0; }
static int vp_socket(int d, int t, int p) { CHECK(false, "no new socket"); return 0; }
static int vp_connect(int fd, const void *a, socklen_t l) { CHECK(false, "no connection"); return 0; }
static int vp_clock_gettime(clockid_t id, struct timespec *ts) { ts->tv_sec = 1; ts->tv_nsec = 1; return 0; }
static int vp_epoll_wait(int ep, struct epoll_event *ev, int n, int t) {
    CHECK(ep == EP && n <= MAX_EVENTS && t == -1, "waits for events");
    HAVOC_OBJ(ev);
    int k = nd_irange(-1, MAX_EVENTS); ASSUME(k <= n);
    if (k < 0) vp_errno = EINTR;
    return k;
}
static int run_seen, ev_seen, stat_seen; static bool stop_due;
static void vp_run_loop(volatile int *running) {
#ifdef VP_CBMC
    if (!run_seen) {
        run_seen = 1; is_setup = false; on_worker = true;
        CHECK(*running, "starts running");
        CHECK(n_listen == (accept_mode != AM_PARENT || W == conn_worker_infos ? 1 : 0), "setup: the listening socket is watched by those that accept");
        CHECK(n_term == 1 && n_tfd == 1 && n_stat == (W->statfd != -1 ? 1 : 0) && n_stor == (W->storefd != -1 ? 1 : 0), "setup: termination, timeouts, statistics and storage are watched");
    } else {
        CHECK(*running == !stop_due, "runs until told to stop");
        STOP();
    }
#endif
}
static void vp_ev_loop(int *i, int nfds, volatile int *running, struct epoll_event *events) {
#ifdef VP_CBMC
    if (!ev_seen) {
        ev_seen = 1;
        CHECK(*i == 0, "events: starts with the first");
        *i = nd_irange(0, MAX_EVENTS); ASSUME(nfds < 0 ? *i == 0 : *i <= nfds);
        EVS = events; at = *i;
        ev_type = nd_irange(LISTEN, TERMINATION); ev_fd = nd_irange(0, 1 << 20);
        if (*i < nfds) {
            if (ev_type == STORAGE) ev_fd = W->store_replyfd;
            events[*i].data.u64 = (uint64_t)(uint32_t)ev_type << 32 | (uint32_t)ev_fd;
            stop_due = ev_type == TERMINATION || (ev_type == STATS && !stat_ok);
        }
        clear();
        tgt_conns0 = conn_worker_infos[K].active_conns; TGT = -1;
    } else {
        CHECK(*i == at + 1 && *running && !stop_due && ev_type != TERMINATION && ev_type != STATS, "events: one after the other");
        CHECK(n_accept == (ev_type == LISTEN ? 1 : 0), "accept: once per event");
        CHECK(n_cadd == (ev_type == LISTEN && alloc_ok ? 1 : 0) && n_drop == (ev_type == LISTEN && !alloc_ok ? 1 : 0), "accept: watched, or dropped without a free slot");
        CHECK(conn_worker_infos[K].active_conns == tgt_conns0 + (TGT == K ? 1 : 0), "accept: counted once with its worker");
        CHECK(n_sread == (ev_type == STORAGE ? 1 : 0) && n_go == (ev_type == STORAGE && live && read_ok ? 1 : 0), "storage: the acknowledged request goes on once, if it is still there");
        CHECK(n_exec == (ev_type != LISTEN && ev_type != STORAGE ? 1 : 0), "event: handled once");
        if (ev_type == LISTEN) REACH("accepted"); else if (ev_type == STORAGE) REACH("acknowledged"); else REACH("other event");
        STOP();
    }
#endif
}
static void vp_stat_loop(int *i) {
#ifdef VP_CBMC
    if (!stat_seen) {
        stat_seen = 1;
        CHECK(*i == 0, "statistics: every worker");
        *i = nd_irange(0, MAX_THREADS); ASSUME(*i <= conn_threads);
    } else { CHECK(*i >= 1 && *i <= conn_threads, "statistics: every worker"); STOP(); }
#endif
}
#ifdef VP_CBMC
void h_worker(void) {
    conn_threads = nd_irange(1, MAX_THREADS); WN = nd_irange(0, MAX_THREADS - 1); K = nd_irange(0, MAX_THREADS - 1);
    ASSUME(WN < conn_threads);
    for (int k = 0; k < MAX_THREADS; k++) { conn_worker_infos[k].epollfd = EP0 + k; conn_worker_infos[k].active_conns = 0; }
    conn_worker_infos[K].active_conns = nd_irange(0, 1 << 20);
    W = &conn_worker_infos[WN];
    accept_mode = (accept_mode_t)nd_irange(AM_CHILD, AM_PARENT);
    terminationfd = TERMFD; is_setup = true;
    W->core_id = -1; EP = EP0 + WN; W->worker_id = WN;
    W->listen_sock = nd_irange(10, 1 << 20); W->timerfd = nd_irange(10, 1 << 20);
    W->statfd = nd_bool() ? nd_irange(10, 1 << 20) : -1; W->storefd = nd_bool() ? nd_irange(10, 1 << 20) : -1; W->store_replyfd = nd_irange(10, 1 << 20);
    ASSUME(W->listen_sock != W->timerfd && W->listen_sock != W->store_replyfd && W->timerfd != W->store_replyfd && W->statfd != W->timerfd && W->statfd != W->listen_sock && W->statfd != W->store_replyfd);
    UDPID = nd_irange(-1, MAX_CONNS - 1); NEWS = nd_irange(3, 1 << 20); NID = nd_irange(0, MAX_CONNS - 1); ACK = nd_int();
    alloc_ok = nd_bool(); live = nd_bool(); read_ok = nd_bool(); stat_ok = nd_bool();
    next_thread_cnt = nd_irange(0, 0x7fffffff);
    vp_exit_allowed = 1;
    conn_worker(W);
    CHECK(stop_due, "runs until told to stop");
}
#endif
#pragma CPROVER check pop
