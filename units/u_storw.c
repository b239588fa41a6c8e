/* C18: the storage worker. One arbitrary request (worker W, id R) is followed
 * through the worker's event loop; every other request is arbitrary. */
#include "vp.h"
#define VP_RW
#define VP_FILE
#define VP_EPOLL
#define VP_TIMERFD
#include "vp_sys.h"
static int vp_epoll_create1(int f);
static int vp_timerfd_create(int c, int f);
#define epoll_create1 vp_epoll_create1
#define timerfd_create vp_timerfd_create
#define prctl(...) 0
#ifdef VP_CBMC
#define sprintf(...) 0
#endif
#define VP_NODE_DECL \
    static void vp_reg_loop(int *i); \
    static void vp_run_loop(volatile int *running, struct epoll_event *events); \
    static void vp_ev_loop(int *i, int nfds, volatile int *running, struct epoll_event *events); \
    static void vp_drain_loop(void);
#include "vp_node.h"

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"

static storage_worker_info_t SI;
#define EPFD 3
#define TFD 4
#define TERMFD 5
static bool periodic;

static bool terminated, read_failed, synced_now; /* synced_now: a periodic sync is being carried out */
/* the followed request */
static int W, R;
enum { NEW, BUSY, WAITING, DONE };
static int w_state; static bool w_store, w_wait, w_written, w_synced;
/* the request being carried out */
static struct { bool on, witness, known, store, wait, done, written, synced, queued; int worker, id, acks; } cur;
static union { command_t c; unsigned char b[64]; } CMD; static storage_req_t *REQ;   /* where the worker read it */
#define OPTS ((unsigned char *)REQ->cmd.opts)

static int any_worker(void) { return nd_irange(0, MAX_THREADS - 1); }
/* reply channels of different workers are different */
static void distinct(int k) { ASSUME(k == W || SI.store_replyfd[k] != SI.store_replyfd[W]); }

/* ------------------------------------------------------ sync waiting queue */
/* contract of the priority queue (C02), keeping only its size, its top and
 * whether the followed request is in it */
static pqueue_t PQ; static node_t TOP; static int q_size; static bool q_has, q_top_is_w;
static int n_acks;                      /* acknowledgements since the last pop */
static int pop_worker, pop_id; static bool popped;
static void new_top(void) {
    q_top_is_w = nd_bool();
    ASSUME(!q_top_is_w || q_has);
    ASSUME(q_top_is_w || !q_has || q_size > 1);
    if (q_top_is_w) { TOP.key = W; TOP.data.value = (uint64_t)(int64_t)R; }
    else {
        int k = any_worker(), r = nd_int();
        ASSUME(k != W || r != R);
        distinct(k);
        TOP.key = k; TOP.data.value = (uint64_t)(int64_t)r;
    }
}
pqueue_t *alloc_contract(uint32_t cap) { CHECK(cap >= MAX_REQS, "queue: room for every request"); return &PQ; }
int size_contract(pqueue_t *q) { CHECK(q == &PQ, "queue: the sync queue"); return q_size; }
node_t *top_contract(pqueue_t *q) { CHECK(q == &PQ && q_size > 0, "queue: top of a non-empty queue"); return &TOP; }
void pop_contract(pqueue_t *q) {
    CHECK(q == &PQ && q_size > 0, "queue: pop of a non-empty queue");
    CHECK(!popped, "queue: what was removed is acknowledged before the next");
    popped = true; pop_worker = TOP.key; pop_id = (int)TOP.data.value;
    if (q_top_is_w) q_has = false;
    if (--q_size > 0) new_top();
}
node_t *insert_contract(pqueue_t *q, int key, data_t data) {
    CHECK(q == &PQ, "queue: the sync queue");
    ASSUME(q_size < MAX_REQS);          /* one entry per live request */
    CHECK(cur.on && !cur.queued && cur.acks == 0, "queue: only the request just carried out, once");
    CHECK(key == cur.worker && (int)data.value == cur.id, "queue: remembers worker and request id");
    CHECK(cur.store && cur.wait && periodic, "queue: only stores asking to wait, with periodic sync");
    cur.queued = true;
    q_size++;
    if (cur.witness) { q_has = true; w_state = WAITING; }
    new_top();
    return &TOP;
}
/* ------------------------------------------------------------ store, load */
void store_contract(storage_worker_info_t *infos, unsigned char *buf, store_opts_t *o) {
    CHECK(infos == &SI && buf == SI.store_buf, "store: with the worker's file and buffer");
    CHECK(cur.on && cur.store && !cur.done && (unsigned char *)o == OPTS, "store: the command of the request, once");
    cur.done = cur.written = true;
    cur.synced = cur.wait && !periodic;  /* C16: synchronised after writing */
    if (cur.witness) { w_written = true; w_synced = cur.synced; }
}
void load_contract(storage_worker_info_t *infos, unsigned char *buf, load_opts_t *o) {
    CHECK(infos == &SI && buf == SI.store_buf, "load: with the worker's file and buffer");
    CHECK(cur.on && cur.known && !cur.store && !cur.done && (unsigned char *)o == OPTS, "load: the command of the request, once");
    cur.done = true;
}
static int vp_fsync(int fd) {
    CHECK(fd == SI.storage_info.storage_fd, "sync: of the storage file");
    if (w_written) w_synced = true;
    if (cur.written) cur.synced = true;
    return 0;
}
static off_t vp_lseek(int fd, off_t off, int whence) {
#ifdef VP_CBMC
    CHECK(false, "no seek outside store and load");
#else
    cur.done = true;
    if (cur.store) cur.written = true;
    if (cur.store && cur.witness) w_written = true;
#endif
    return 0;
}
static ssize_t vp_write(int fd, const void *buf, size_t n);
/* contract of safe_write: an acknowledgement */
static void ack(int fd, int id, int worker) {
    CHECK(fd == SI.store_replyfd[worker], "ack: to the worker the request came from");
    if (fd == SI.store_replyfd[W] && id == R) {
        CHECK(w_state == BUSY || w_state == WAITING, "ack: exactly once");
        CHECK(!w_store || w_written, "ack: after the data was written");
        CHECK(!(w_store && w_wait) || w_synced, "ack: after the sync asked for");
        CHECK(!q_has, "ack: no longer in the sync queue");
        w_state = DONE;
    }
}
int safe_write_contract(int fd, unsigned char *buf, size_t len) {
    CHECK(len == sizeof(int), "ack: one request id");
    int id = *(int *)buf;
    if (popped) {
        CHECK(id == pop_id, "ack: with the id of the request taken from the queue");
        ack(fd, id, pop_worker);
        popped = false;
    } else {
        CHECK(cur.on && cur.done && cur.acks == 0 && !cur.queued, "ack: the request just carried out, once");
        CHECK(id == cur.id, "ack: with the request's own id");
        CHECK(!(cur.store && cur.wait) || cur.synced, "ack: not before the sync asked for");
        cur.acks++;
        ack(fd, id, cur.worker);
    }
    return nd_bool() ? 0 : -1;
}
/* ----------------------------------------------------------- system calls */
static int vp_epoll_create1(int f) { return EPFD; }
static int vp_close(int fd) { CHECK(false, "no channel is closed"); return 0; }
static int KREG; static bool k_reg, term_reg, tfd_reg, tfd_armed;
static int vp_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    CHECK(ep == EPFD && op == EPOLL_CTL_ADD && ev->events == EPOLLIN, "setup: watched for input");
    uint32_t ty = (uint32_t)(ev->data.u64 >> 32);
    CHECK((uint32_t)ev->data.u64 == (uint32_t)fd, "setup: events carry their own channel");
    if (fd == SI.storefd[KREG]) { CHECK(ty == STORAGE, "setup: request channels carry storage events"); k_reg = true; }
    else if (ty == STORAGE) { ASSUME(fd != TERMFD && fd != TFD); }
    else if (fd == TERMFD) { CHECK(ty == TERMINATION, "setup: termination channel"); term_reg = true; }
    else if (fd == TFD && ty == TIMER) tfd_reg = true;
    return 0;
}
static int vp_timerfd_create(int c, int f) { return TFD; }
static int vp_timerfd_gettime(int fd, struct itimerspec *t) { CHECK(false, "timer not read back"); return 0; }
static int vp_timerfd_settime(int fd, int flags, const struct itimerspec *t, struct itimerspec *old) {
    long ms = SI.periodic_sync_msec;
    CHECK(fd == TFD && flags == 0, "setup: relative periodic timer");
    CHECK(t->it_value.tv_sec == t->it_interval.tv_sec && t->it_value.tv_nsec == t->it_interval.tv_nsec, "setup: periodic");
    CHECK(t->it_value.tv_sec * 1000 + t->it_value.tv_nsec / 1000000 == ms && t->it_value.tv_nsec % 1000000 == 0 && t->it_value.tv_nsec < 1000000000L, "setup: the period configured");
    tfd_armed = true;
    return 0;
}
static int reg_seen;
static void vp_reg_loop(int *i) {
#ifdef VP_CBMC
    if (!reg_seen) {
        reg_seen = 1;
        CHECK(*i == 0 && !k_reg, "setup loop: starts with the first worker");
        *i = nd_irange(0, MAX_THREADS); ASSUME(*i <= conn_threads);
        k_reg = KREG < *i;
    } else {
        CHECK(*i >= 0 && *i <= conn_threads && (KREG >= *i || k_reg), "setup loop: every worker's channel so far is watched");
        STOP();
    }
#endif
}
static bool set_up(void) {
    return (KREG >= conn_threads || k_reg) && term_reg && (!periodic || (tfd_reg && tfd_armed));
}
static bool w_inv(void) {
    if (q_size < 0 || (q_has && q_size < 1) || q_has != (w_state == WAITING)) return false;
    if (w_state == WAITING && !(w_store && w_wait && w_written && periodic)) return false;
    if (w_state == NEW && (w_written || w_synced)) return false;
    return w_state != BUSY && (periodic || q_size == 0);
}
/* the request carried out last has been answered or waits for the next sync */
static void settled(void) {
#ifdef VP_NATIVE
    if (cur.on && cur.done && cur.acks == 0 && cur.store && cur.wait && periodic) {
        cur.queued = true;
        if (cur.witness) w_state = WAITING;
    } else if (cur.on && !cur.known && cur.witness) w_state = DONE;
    q_has = w_state == WAITING; q_size = q_has;
#endif
    CHECK(!popped, "ack: every request taken from the queue");
    if (synced_now) CHECK(w_state != WAITING, "every waiting store is acknowledged by the next periodic sync");
    synced_now = false;
    if (cur.on && cur.known) {
        CHECK(cur.done, "every request is carried out");
        if (cur.store && cur.wait && periodic) CHECK(cur.queued && cur.acks == 0, "a store asking to wait waits for the next periodic sync");
        else CHECK(cur.acks == 1, "others are acknowledged right after they were carried out");
    }
    cur.on = false; cur.witness = false;
}
static void any_run_state(void) {
    q_size = nd_int(); q_has = nd_bool(); w_state = nd_irange(NEW, DONE);
    w_written = nd_bool(); w_synced = nd_bool();
    ASSUME(w_inv());
    if (q_size > 0) new_top();
    cur.on = false;
}
static int run_seen, ev_seen, drain_seen;
static void vp_run_loop(volatile int *running, struct epoll_event *events) {
    CHECK(set_up(), "set up before the first event");
    CHECK(*running == !(terminated || read_failed), "runs until told to stop");
#ifdef VP_CBMC
    if (!run_seen) {
        run_seen = 1;
        CHECK(w_inv() && *running, "main loop: nothing pending at the start");
        any_run_state();
    } else {
        settled();
        CHECK(w_inv(), "main loop: requests are new, waiting for a sync or acknowledged");
        if (!*running) REACH("worker stops");
        STOP();
    }
#endif
}
static int n_ev;
static void native_step(void) {        /* between two events */
#ifdef VP_NATIVE
    settled();
    CHECK(w_inv(), "requests are new, waiting for a sync or acknowledged");
    CHECK(set_up(), "set up before the first event");
#endif
}
static int vp_epoll_wait(int ep, struct epoll_event *ev, int n, int t) {
    native_step();
    CHECK(ep == EPFD && n <= MAX_EVENTS && t == -1, "waits for events");
#ifdef VP_CBMC
    HAVOC_OBJ(ev);
    int k = nd_irange(-1, MAX_EVENTS); ASSUME(k <= n);
    if (k < 0) { vp_errno = EINTR; }
    return k;
#else
    int k = (int)nd_below(4);
    for (int i = 0; i < k; i++) {
        int what = (int)nd_below(periodic ? 8 : 6);
        if (++n_ev > 40) what = 0;
        ev[i].events = EPOLLIN;
        ev[i].data.u64 = what == 0 ? i2l(TERMINATION, TERMFD) : what <= 5 ? i2l(STORAGE, SI.storefd[nd_below(conn_threads)]) : i2l(TIMER, TFD);
    }
    if (k == 0 && ++n_ev > 40) { ev[0].data.u64 = i2l(TERMINATION, TERMFD); k = 1; }
    return k;
#endif
}
static void vp_ev_loop(int *i, int nfds, volatile int *running, struct epoll_event *events) {
#ifdef VP_CBMC
    if (!ev_seen) {
        ev_seen = 1;
        CHECK(*i == 0, "event loop: starts with the first event");
        *i = nd_irange(0, MAX_EVENTS); ASSUME(nfds < 0 ? *i == 0 : *i <= nfds);
        any_run_state();
        if (*i < nfds) {
            uint32_t ty = nd_u32(), fd = nd_u32();
            events[*i].data.u64 = (uint64_t)ty << 32 | fd;
            if (ty == TERMINATION) terminated = true;
            ASSUME(ty == TERMINATION || (ty == TIMER && periodic && fd == TFD) || (ty == STORAGE && fd != TFD && fd < 0x7fffffff));
        }
    } else {
        settled();
        CHECK(*running, "event loop: goes on only while running");
        CHECK(*i >= 1 && *i <= nfds && w_inv(), "event loop: requests are new, waiting for a sync or acknowledged");
        STOP();
    }
#endif
}
static void vp_drain_loop(void) {
#ifdef VP_CBMC
    if (!drain_seen) {
        drain_seen = 1;
        CHECK(!w_written || w_synced, "periodic sync: synchronised before anything is acknowledged");
        CHECK(w_inv(), "sync loop: invariant at the start");
        bool s = w_synced, wr = w_written; int st = w_state;
        q_size = nd_int(); q_has = nd_bool();
        w_state = nd_irange(NEW, DONE);
        ASSUME(w_state == st || (st == WAITING && w_state == DONE));
        ASSUME(w_inv());
        if (q_size > 0) new_top();
        (void)s; (void)wr;
    } else {
        CHECK(!popped, "ack: every request taken from the queue");
        CHECK(w_inv() && (!w_written || w_synced), "sync loop: requests are waiting or acknowledged");
        STOP();
    }
#endif
}
static bool t_read;
static ssize_t vp_read(int fd, void *buf, size_t n) {
    native_step();
    if (nd_below(64) == 0) { vp_errno = EIO; read_failed = true; return -1; }
    if (fd == TFD) { CHECK(n == sizeof(uint64_t), "timer: read to re-arm"); *(uint64_t *)buf = 1; synced_now = true; return 8; }
    CHECK(n == sizeof(storage_req_t), "requests are read whole");
    storage_req_t *w = buf;
    cur.on = true; cur.done = cur.written = cur.synced = cur.queued = false; cur.acks = 0;
    cur.witness = nd_bool();
    if (cur.witness && w_state != NEW) cur.witness = false;
#ifdef VP_CBMC
    cur.worker = any_worker(); cur.id = nd_int();
#else
    cur.worker = nd_below(conn_threads); cur.id = nd_below(1000);
#endif
    if (cur.witness) { cur.worker = W; cur.id = R; }
    else { ASSUME(cur.worker != W || cur.id != R); distinct(cur.worker); }
    CMD.c.cmd = (command_type_t)nd_irange(COMPUTE, EOM);
#ifdef VP_NATIVE
    CMD.c.cmd = nd_below(8) == 0 ? COMPUTE : nd_bool() ? STORE : LOAD;
#endif
    cur.store = CMD.c.cmd == STORE; cur.known = cur.store || CMD.c.cmd == LOAD;
    if (cur.witness) ASSUME(cur.known);
    cur.wait = nd_bool();
    load_opts_t *lo = (load_opts_t *)CMD.c.opts;
    store_opts_t *so = (store_opts_t *)CMD.c.opts;
#ifdef VP_CBMC
    so->wait_sync = nd_u8();           /* of a load: not part of the command */
#else
    so->wait_sync = nd_bool() ? 0 : nd_u8();
    lo->offset = 0; lo->load_nbytes = 0; so->store_nbytes = 0;
#endif
    if (cur.store) cur.wait = so->wait_sync != 0;
    if (cur.witness) { w_state = BUSY; w_store = cur.store; w_wait = cur.wait; }
    memcpy(w->cmd_buf, &CMD, sizeof w->cmd_buf); REQ = w; w->worker_id = cur.worker; w->req_id = cur.id;
    (void)lo;
    return sizeof *w;
}
#ifdef VP_NATIVE
/* natively the real queue, store and transfers run; these follow them */
static ssize_t vp_write(int fd, const void *buf, size_t n) {
    CHECK(n == sizeof(int), "ack: one request id");
    int id = *(const int *)buf;
    int worker = -1;
    for (int k = 0; k < conn_threads; k++) if (SI.store_replyfd[k] == fd) worker = k;
    CHECK(worker >= 0, "ack: to the worker the request came from");
    if (cur.on) {
        CHECK(cur.acks == 0, "ack: the request just carried out, once");
        CHECK(worker == cur.worker && id == cur.id, "ack: with the request's own id");
        CHECK(!(cur.store && cur.wait) || (cur.synced && !periodic), "ack: not before the sync asked for");
        cur.acks++; cur.done = true;
    }
    if (worker == W && id == R) {
        CHECK(w_state == BUSY || w_state == WAITING, "ack: exactly once");
        CHECK(!(w_store && w_wait) || w_synced, "ack: after the sync asked for");
        w_state = DONE; q_has = false; q_size = 0;
    }
    return n;
}
#else
static ssize_t vp_write(int fd, const void *buf, size_t n) { CHECK(false, "acknowledged through the exact-length function"); return -1; }
#endif
void h_storage_worker(void) {
    SI.core_id = -1;
    SI.periodic_sync_msec = nd_irange(-1, 0x7fffffff);
    periodic = SI.periodic_sync_msec > 0;
    terminationfd = TERMFD;
#ifdef VP_CBMC
    HAVOC_OBJ(&SI);
    int n = nd_int(); ASSUME(n >= 1 && n <= MAX_THREADS); conn_threads = n;
    SI.core_id = -1;
    int ms = nd_int(); SI.periodic_sync_msec = ms; periodic = ms > 0;
    SI.storage_info.storage_fd = nd_int();
    SI.store_buf = malloc(1);
    W = any_worker(); R = nd_int();
    KREG = any_worker();
    ASSUME(SI.storefd[KREG] != TERMFD && SI.storefd[KREG] != TFD);
#else
    conn_threads = 1 + nd_below(4);
    if (SI.periodic_sync_msec > 5000) SI.periodic_sync_msec %= 5000;
    if (nd_bool()) SI.periodic_sync_msec = 0;
    periodic = SI.periodic_sync_msec > 0;
    for (int k = 0; k < conn_threads; k++) { SI.storefd[k] = 100 + k; SI.store_replyfd[k] = 200 + k; }
    SI.storage_info.storage_fd = 50;
    SI.store_buf = malloc(64);
    W = nd_below(conn_threads); R = nd_below(1000); KREG = nd_below(conn_threads);
#endif
    storage_worker(&SI);
#ifdef VP_NATIVE
    native_step();
    REACH("worker ended");
#endif
}
#pragma CPROVER check pop
