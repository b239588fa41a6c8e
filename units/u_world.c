/* C12, C14, C15, C25: the real worker thread against a simulated world (search
 * for failing histories, native only). The world is the network, the storage
 * worker, the timer and the clients and targets; what the node must do is told
 * by an interpreter that runs each request on its own, item by item.
 * Events are level-triggered and respect what is watched; descriptors are
 * reused as a kernel does; time stands still while the node handles events. */
#include "vp.h"
#define VP_RW
#define VP_EPOLL
#define VP_SOCKET
#define VP_CLOCK
#define VP_TIMERFD
#define VP_NET
#define VP_BUF_SIZE (64 * 1024)
#include "vp_sys.h"
#define prctl(...) 0
#define syscall(...) 0
#define perror(s) ((void)0)
#include "vp_node.h"

static long now_us, steps; static bool drain;
#ifdef VP_TRACE
#define TR(...) (fprintf(stderr, "[%ld] ", now_us), fprintf(stderr, __VA_ARGS__), fprintf(stderr, "\n"))
#else
#define TR(...) ((void)0)
#endif
enum { EPFD = 9, LFD = 10, TFD = 11, SFD = 12, RFD = 13, TERMFD = 5, FD0 = 100 };
static conn_worker_info_t *W;

/* ------------------------------------------------------------------- timer */
static long t_at; static bool t_armed, t_fired;
static int vp_timerfd_gettime(int fd, struct itimerspec *t) {
    CHECK(fd == TFD, "timer: the worker's own");
    long left = t_armed && t_at > now_us ? t_at - now_us : 0;
    memset(t, 0, sizeof *t);
    t->it_value.tv_sec = left / 1000000; t->it_value.tv_nsec = left % 1000000 * 1000;
    return 0;
}
static int vp_timerfd_settime(int fd, int flags, const struct itimerspec *t, struct itimerspec *old) {
    CHECK(fd == TFD && flags == 0, "timer: the worker's own");
    long us = t->it_value.tv_sec * 1000000L + t->it_value.tv_nsec / 1000;
    t_fired = false; t_armed = us != 0; t_at = now_us + us;
    return 0;
}
static long cpu_ns;
static int vp_clock_gettime(clockid_t id, struct timespec *ts) { cpu_ns += 7000; ts->tv_sec = cpu_ns / 1000000000; ts->tv_nsec = cpu_ns % 1000000000; return 0; }

/* ---------------------------------------------------------------- requests */
enum { MAXR = 16, MAXI = 8, MAXK = 6 };
enum { NOT_SENT, RUN, WAIT_STORE, WAIT_FWD, OVER, DEAD };
typedef struct {
    int kind;                      /* COMPUTE, STORE, LOAD, FORWARD, MULTI_FORWARD, REPLY */
    uint64_t tag;                  /* storage offset */
    int nt; struct { struct sockaddr_in to; proto_t proto; uint32_t size; } t[3];
    uint32_t timeout; int retries, skip, n_ack;
    unsigned char tail[512]; size_t tail_len;
    uint32_t resp;
} item_t;
static struct rq {
    int state, ni, pc, left, retries, status, cl; long due; bool dying;         /* dying: its connection broke, it may not have run */
   
    uint32_t id; item_t it[MAXI];
    bool known; uint32_t iid;      /* the id the node uses for it */
    unsigned char msg[2048]; uint32_t len;
} R[MAXR];
static int nR;
static uint32_t next_tag = 1;
static long dues[64]; static int n_dues;
static void no_tie(long d) { for (int k = 0; k < n_dues; k++) ASSUME(dues[k] - d > 40 || d - dues[k] > 40); ASSUME(n_dues < 64); dues[n_dues++] = d; }
static void forget_due(long d) { for (int k = 0; k < n_dues; k++) if (dues[k] == d) { dues[k] = dues[--n_dues]; return; } }

/* what the node has to send: matched against whole messages seen on sockets */
typedef struct { int r, item, k; bool reply; uint32_t size; struct sockaddr_in to; proto_t proto; int status; int cl; bool maybe; } exp_t;
static exp_t X[256]; static int nX;
typedef struct { int fd; unsigned char b[4096]; uint32_t len; struct sockaddr_in to; proto_t proto; bool client; int cl; } obs_t;
static obs_t O[64]; static int nO;
static struct { storage_req_t w; bool used; } SO[64]; static int nSO;
static int acks[64], n_acks;

/* ----------------------------------------------------------------- sockets */
enum { MAXS = 48 };
enum { IDLE, CONNECTING_, UP, REFUSED };
typedef struct {
    bool open, client, seen_eof, send_err, answered, counted; int cl; proto_t proto; struct sockaddr_in to;
    int conn; bool reg; uint32_t watch; uint64_t data; bool nonblock;
    unsigned char rx[65536]; uint32_t rx_len; uint32_t ends[64]; int n_ends; int rid[64];   /* rid: index of request answered, per response */
    bool peer_closed; uint32_t credit;
    unsigned char tx[8192]; uint32_t tx_len;
} sk_t;
static sk_t *S[MAXS];
/* responses targets may give */
static struct { int fd; uint32_t iid; int r; struct sockaddr_in to; bool used; int gen; } T[256]; static int nT;
static int gen[MAXS];
static sk_t *sk(int fd) { return fd >= FD0 && fd < FD0 + MAXS && S[fd - FD0] && S[fd - FD0]->open ? S[fd - FD0] : NULL; }
static int new_sk(void) {
    for (int k = 0; k < MAXS; k++)
        if (!S[k] || !S[k]->open) {
            if (!S[k]) S[k] = malloc(sizeof(sk_t));
            memset(S[k], 0, sizeof(sk_t)); S[k]->open = true; gen[k]++;
            return FD0 + k;
        }
    ASSUME(false);
    return -1;
}
static bool same_to(struct sockaddr_in a, struct sockaddr_in b) { return a.sin_port == b.sin_port && a.sin_addr.s_addr == b.sin_addr.s_addr; }

/* ----------------------------------------------------------------- clients */
enum { MAXC = 3 };
static struct { int fd; bool up, closed; int rq[8], n, cur; uint32_t off; } CL[MAXC]; static int nC; static int backlog;

static unsigned char *put(unsigned char *p, const void *d, size_t n) { memcpy(p, d, n); return p + n; }
static unsigned char *put_cmd(unsigned char *p, command_type_t c, const void *o, size_t n) { p = put(p, &c, sizeof c); return put(p, o, n); }
static struct sockaddr_in target(int k) { struct sockaddr_in a = {0}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x0a000001 + k / 2); a.sin_port = htons(7000 + k % 2); return a; }
static unsigned char *reply_cmd(unsigned char *p, uint32_t size, int n_ack) { reply_opts_t o; memset(&o, 0, sizeof o); o.resp_size = size; o.n_ack = n_ack; return put_cmd(p, REPLY, &o, sizeof o); }
static unsigned char *leaf(unsigned char *p, item_t *it, int what) {
    if (what == 0) { comp_opts_t o; memset(&o, 0, sizeof o); o.comp_time_us = nd_below(40); it->kind = COMPUTE; return put_cmd(p, COMPUTE, &o, sizeof o); }
    if (what == 1) { store_opts_t o; memset(&o, 0, sizeof o); it->tag = o.offset = next_tag++; o.store_nbytes = 64; o.wait_sync = nd_bool(); it->kind = STORE; return put_cmd(p, STORE, &o, sizeof o); }
    load_opts_t o; memset(&o, 0, sizeof o); it->tag = o.offset = next_tag++; o.load_nbytes = 64; it->kind = LOAD; return put_cmd(p, LOAD, &o, sizeof o);
}
static unsigned char *block(unsigned char *p, int depth, bool single);
static unsigned char *group(unsigned char *p, item_t *it, int depth, bool more, bool single) {
    bool multi = !single && nd_below(3) == 0;
    it->kind = multi ? MULTI_FORWARD : FORWARD; it->nt = multi ? 1 + nd_below(3) : 1;
    it->timeout = nd_bool() ? 0 : 50 + nd_below(5000); it->retries = nd_below(3) == 0 ? nd_below(3) : 0; it->skip = more && nd_bool() ? 1 : 0;
    uint32_t size = 600 + next_tag++; proto_t pr = nd_below(3) == 0 ? UDP : TCP; int t0 = nd_below(4);
    for (int k = 0; k < it->nt; k++) {
        fwd_opts_t o; memset(&o, 0, sizeof o);
        if (k && nd_bool()) t0 = (t0 + 1) & 3;
        struct sockaddr_in a = target(t0);
        o.pkt_size = size; o.fwd_host = a.sin_addr.s_addr; o.fwd_port = a.sin_port; o.timeout = it->timeout; o.retries = it->retries; o.on_fail_skip = it->skip; o.proto = pr;
        it->t[k].to = a; it->t[k].proto = pr; it->t[k].size = size;
        p = put_cmd(p, it->kind, &o, sizeof o);
    }
    unsigned char *q = p;
    p = block(p, depth - 1, multi);              /* a multi-forward right behind would belong to the group */
    it->n_ack = nd_below(it->nt + 1); if (nd_below(3)) it->n_ack = it->nt;
    p = reply_cmd(p, 40 + nd_below(100), it->n_ack);
    command_type_t e = EOM;
    it->tail_len = p - q; memcpy(it->tail, q, it->tail_len); memcpy(it->tail + it->tail_len, &e, sizeof e); it->tail_len += sizeof e;
    return p;
}
static unsigned char *block(unsigned char *p, int depth, bool single) {
    int n = nd_below(3);
    for (int k = 0; k < n; k++) {
        item_t it; memset(&it, 0, sizeof it);
        int w = nd_below(5);
        if (w >= 3 && depth > 0) p = group(p, &it, depth, false, single && k == 0);
        else p = leaf(p, &it, w % 3);
    }
    return p;
}
static int new_rq(int cl) {
    ASSUME(nR < MAXR);
    struct rq *r = &R[nR];
    r->cl = cl; r->id = nd_below(4); r->left = -1;
    unsigned char *p = r->msg + sizeof(message_t);
    r->ni = 1 + nd_below(4);
    for (int k = 0; k < r->ni; k++) {
        item_t *it = &r->it[k];
        int w = nd_below(7);
        if (k == r->ni - 1) { it->kind = REPLY; it->resp = 40 + next_tag++; p = reply_cmd(p, it->resp, 1); }
        else if (w >= 3) p = group(p, it, 2, true, false);
        else p = leaf(p, it, w);
        ASSUME(p - r->msg < 1400);
    }
    for (int k = 0; k < r->ni; k++) if (r->it[k].kind == FORWARD && k + r->it[k].skip >= r->ni) ASSUME(false);
    command_type_t e = EOM; p = put(p, &e, sizeof e);
    r->len = p - r->msg + nd_below(100);
    message_t *m = (message_t *)r->msg; m->req_id = r->id; m->req_size = r->len; m->status = 0;
    return nR++;
}

/* ------------------------------------------------------------- interpreter */
static void expect_fwd(int n) {
    struct rq *r = &R[n]; item_t *it = &r->it[r->pc];
    if (r->due) { forget_due(r->due); r->due = 0; }
    for (int k = 0; k < it->nt; k++) { ASSUME(nX < 256); X[nX++] = (exp_t){ n, r->pc, k, false, it->t[k].size, it->t[k].to, it->t[k].proto, 0, 0, r->dying }; }
    if (it->timeout) { r->due = now_us + it->timeout; no_tie(r->due); }
    if (r->left == -1) r->left = it->n_ack;
    r->state = WAIT_FWD;
}
static int n_accepted, n_replied, n_dropped, n_killed; static bool any_closed;
static void advance(int n) {
    struct rq *r = &R[n];
    while (r->state == RUN) {
        item_t *it = &r->it[r->pc];
        TR("oracle: request %d (client %d) item %d kind %d", n, r->cl, r->pc, it->kind);
        switch (it->kind) {
        case COMPUTE: r->pc++; break;
        case STORE: case LOAD: {
            int f = -1;
            for (int k = 0; k < nSO; k++) {
                uint64_t off = it->kind == STORE ? ((store_opts_t *)SO[k].w.cmd.opts)->offset : ((load_opts_t *)SO[k].w.cmd.opts)->offset;
                if (!SO[k].used && SO[k].w.cmd.cmd == it->kind && off == it->tag) f = k;
            }
            if (f < 0 && r->dying) { r->state = DEAD; return; }
            CHECK(f >= 0, "commands: storage operations are carried out when reached");
            SO[f].used = true;
            CHECK(SO[f].w.worker_id == W->worker_id, "commands: storage answers come back to this worker");
            if (r->known) CHECK(r->iid == (uint32_t)SO[f].w.req_id, "commands: storage operations name their request"); else r->known = true, r->iid = SO[f].w.req_id;
            r->pc++; r->state = WAIT_STORE; break; }
        case FORWARD: case MULTI_FORWARD: expect_fwd(n); break;
        case REPLY:
            ASSUME(nX < 256); X[nX++] = (exp_t){ n, r->pc, 0, true, it->resp, {0}, TCP, r->status, r->cl };
            r->state = OVER; n_replied++;
            break;
        }
    }
}
static void expire(void) {          /* a timer event */
    int f = -1;
    for (int n = 0; n < nR; n++) if (R[n].state == WAIT_FWD && R[n].due && R[n].due <= now_us) f = n;
    TR("timer event, request %d", f);
    if (f < 0) return;
    struct rq *r = &R[f]; item_t *it = &r->it[r->pc];
    forget_due(r->due); r->due = 0;
    if (it->kind == MULTI_FORWARD) return;
    if (it->retries > 0) { it->retries--; expect_fwd(f); }
    else if (it->skip > 0) { r->left = -1; r->pc += it->skip; r->status = -1; r->state = RUN; advance(f); }
    else { r->state = DEAD; n_dropped++; }
    REACH("timeout");
}
static struct { int fd; int type; } B[MAX_EVENTS]; static int nB, atB; static bool settled;
/* node and interpreter agree on everything that was handled so far */
static void sync_(int upto) {
    for (int n = 0; n < nR; n++) advance(n);
    for (; atB < upto; atB++) if (B[atB].type == TIMER) { expire(); }
    for (int n = 0; n < nR; n++) advance(n);
    for (int k = 0; k < nSO; k++) CHECK(SO[k].used, "commands: no storage operation out of turn");
    for (int k = 0; k < nO; k++) {
        int f = -1; message_t *m = (message_t *)O[k].b;
        for (int x = 0; x < nX && (f < 0 || X[f].maybe); x++)
            if (f >= 0 && X[x].maybe) continue;
            else if (O[k].client ? X[x].reply && X[x].cl == O[k].cl && X[x].size == m->req_size
                            : !X[x].reply && X[x].size == m->req_size && same_to(X[x].to, O[k].to) && X[x].proto == O[k].proto) f = x;
        CHECK(f >= 0, "messages: none is sent out of turn, twice or elsewhere");
        struct rq *r = &R[X[f].r]; item_t *it = &r->it[X[f].item];
        if (X[f].reply) {
            CHECK(m->req_id == r->id, "reply: carries the id the sender used");
            CHECK(m->status == X[f].status, "reply: carries the request's status");
            CHECK(m->cmds[0].cmd == EOM, "reply: carries no commands");
            REACH("reply seen");
        } else {
            if (r->known) CHECK(r->iid == m->req_id, "forward: carries the id of its request"); else r->known = true, r->iid = m->req_id;
            CHECK(!memcmp(m->cmds, it->tail, it->tail_len), "forward: carries the commands that follow its group");
            ASSUME(nT < 256); T[nT].fd = O[k].fd; T[nT].iid = m->req_id; T[nT].r = X[f].r; T[nT].to = O[k].to; T[nT].used = false; T[nT].gen = sk(O[k].fd) ? gen[O[k].fd - FD0] : -1; nT++;
            REACH("forward seen");
        }
        X[f] = X[--nX];
    }
    nO = 0; nSO = 0;
    for (int n = 0; n < nR; n++) if (R[n].state == WAIT_FWD && R[n].due) CHECK(R[n].due + 16 >= now_us, "timeouts: expire in time");
}
static int batch_of(int fd) { for (int k = atB; k < nB; k++) if (B[k].fd == fd) return k; return nB; }
static void start_of(int fd) { int k = batch_of(fd); CHECK(k < nB, "events: only reported ones are handled"); sync_(k); atB = k + 1; }

/* ------------------------------------------------------------ system calls */
static int vp_socket(int d, int t, int p) {
    int fd = new_sk(); sk_t *s = sk(fd);
    s->proto = t == SOCK_STREAM ? TCP : UDP; s->credit = 1 + nd_below(3000);
    if (s->proto == UDP) s->conn = UP;
    return fd;
}
static int vp_connect(int fd, const void *a, socklen_t l) {
    sk_t *s = sk(fd); CHECK(s && s->proto == TCP && s->conn == IDLE, "connect: once");
    CHECK(s->nonblock, "connect: never blocks");
    memcpy(&s->to, a, sizeof s->to);
    if (nd_below(4) == 0) { s->conn = UP; return 0; }
    s->conn = CONNECTING_; vp_errno = EINPROGRESS;
    return -1;
}
static int vp_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return sk(fd) ? 0 : -1; }
static int vp_getsockopt(int fd, int l, int o, void *v, socklen_t *n) {
    sk_t *s = sk(fd); CHECK(s, "options of an open socket");
    *(int *)v = s->conn == REFUSED ? ECONNREFUSED : 0;
    if (s->conn == UP && !s->counted) s->counted = true;
    return 0;
}
static int vp_fcntl(int fd, int c, int a) { sk_t *s = sk(fd); if (s && c == F_SETFL && (a & O_NONBLOCK)) s->nonblock = true; return 2; }
static int vp_accept(int fd, void *a, socklen_t *n) {
    CHECK(fd == LFD && backlog > 0, "accept: a waiting connection");
    start_of(LFD);
    backlog--;
    int c = 0; while (CL[c].up) c++;
    int f = new_sk(); sk_t *s = sk(f);
    s->client = true; s->cl = c; s->proto = TCP; s->conn = UP; s->credit = 1 + nd_below(3000); s->counted = true;
    memset(&s->to, 0, sizeof s->to); s->to.sin_family = AF_INET; s->to.sin_addr.s_addr = htonl(0x0b000001 + c); s->to.sin_port = htons(40000 + c);
    memcpy(a, &s->to, sizeof s->to);
    CL[c].up = true; CL[c].fd = f;
    return f;
}
static int vp_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    CHECK(ep == EPFD, "watching: with the worker's own descriptor");
    sk_t *s = sk(fd);
    if (!s) { CHECK(fd == LFD || fd == TFD || fd == TERMFD || fd == RFD, "watching: an open descriptor"); return 0; }
    if (op == EPOLL_CTL_ADD) { if (s->reg) { vp_errno = EEXIST; return -1; } s->reg = true; }
    else if (!s->reg) { vp_errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_DEL) s->reg = false; else { s->watch = ev->events; s->data = ev->data.u64; }
    return 0;
}
static int vp_close(int fd) {
    sk_t *s = sk(fd);
    TR("close %d client=%d", fd, s ? s->client : -1);
    CHECK(s, "closing: an open descriptor, once");
    if (batch_of(fd) < nB) start_of(fd);
    if (s->client) {
        CHECK(s->seen_eof || s->send_err, "closing: a client's connection only when it is broken or closed by the client");
        for (int n = 0; n < nR; n++) if (R[n].cl == s->cl && R[n].state != OVER && R[n].state != NOT_SENT && R[n].state != DEAD) {
            R[n].dying = true;
            if (R[n].state == RUN) advance(n);
            if (R[n].state != OVER) R[n].state = DEAD;
        }
        any_closed = true; CL[s->cl].closed = true;
    } else CHECK(s->proto == TCP && (s->seen_eof || s->send_err || s->answered || s->conn == REFUSED), "closing: a forward's connection only when broken, refused or answered");
    for (int x = 0; x < nX; x++)     /* what it had left to send is lost */
        if (s->client ? X[x].reply && X[x].cl == s->cl : !X[x].reply && X[x].proto == TCP && same_to(X[x].to, s->to)) X[x].maybe = true;
    s->open = false;
    return 0;
}
static ssize_t vp_sendto(int fd, const void *b, size_t n, int f, const void *a, socklen_t l) {
    sk_t *s = sk(fd);
    CHECK(s && n > 0, "sending: on an open socket");
    CHECK(f & MSG_NOSIGNAL, "sending: no signal");
    if (s->proto == UDP) {
        CHECK(a && n >= sizeof(message_t) && n < 4096 && ((message_t *)b)->req_size == n, "sending: one message per datagram");
        ASSUME(nO < 64); memcpy(O[nO].b, b, n); O[nO].len = n; O[nO].fd = fd; O[nO].client = false; O[nO].proto = UDP; memcpy(&O[nO].to, a, sizeof O[nO].to); nO++;
        return n;
    }
    CHECK(s->conn == UP, "sending: only on an established connection");
    if (s->peer_closed && nd_bool()) { s->send_err = true; vp_errno = nd_bool() ? EPIPE : ECONNRESET; return -1; }
    if (s->credit == 0) { vp_errno = EAGAIN; return -1; }
    uint32_t k = n < s->credit ? n : s->credit;
    if (!drain && k > 1 && nd_below(4) == 0) k = 1 + nd_below(k);
    if (!drain) s->credit -= k;
    ASSUME(s->tx_len + k <= sizeof s->tx);
    memcpy(s->tx + s->tx_len, b, k); s->tx_len += k;
    while (s->tx_len >= sizeof(message_t) && s->tx_len >= ((message_t *)s->tx)->req_size) {
        uint32_t z = ((message_t *)s->tx)->req_size;
        CHECK(z >= sizeof(message_t) && z < 4096, "messages: well-formed");
        ASSUME(nO < 64); memcpy(O[nO].b, s->tx, z); O[nO].len = z; O[nO].fd = fd; O[nO].client = s->client; O[nO].cl = s->cl; O[nO].proto = TCP; O[nO].to = s->to; nO++;
        memmove(s->tx, s->tx + z, s->tx_len - z); s->tx_len -= z;
    }
    TR("send %d: %u of %zu", fd, k, n);
    return k;
}
static void deliver(sk_t *s, int r) {      /* a whole message reached the node */
    if (s->client) {
        struct rq *q = &R[r];
        CHECK(q->state == NOT_SENT, "world");
        q->state = RUN; n_accepted++;
    } else if (r >= 0) {
        struct rq *q = &R[r];
        s->answered = true;
        if (q->state == WAIT_FWD && --q->left <= 0) {
            q->left = -1; q->pc++; q->state = RUN;
            if (q->due) { forget_due(q->due); q->due = 0; }
            REACH("forward answered");
        }
    }
}
static ssize_t vp_recvfrom(int fd, void *b, size_t n, int f, void *a, socklen_t *l) {
    sk_t *s = sk(fd);
    CHECK(s && n > 0, "receiving: on an open socket");
    start_of(fd);
    if (s->rx_len == 0) { if (s->peer_closed) { s->seen_eof = true; return 0; } vp_errno = EAGAIN; return -1; }
    uint32_t k = s->rx_len;
    if (!s->client && s->n_ends) k = s->ends[0];
    if (s->proto == TCP && nd_bool()) k = 1 + nd_below(k);
    ASSUME(k <= n);
    memcpy(b, s->rx, k); memmove(s->rx, s->rx + k, s->rx_len - k); s->rx_len -= k;
    if (a) { memset(a, 0, sizeof(struct sockaddr_in)); memcpy(a, &s->to, sizeof s->to); }
    int done = 0;
    TR("recv %d: %u", fd, k);
    for (int e = 0; e < s->n_ends; e++) {
        if (s->ends[e] <= k) { deliver(s, s->rid[e]); done++; } else { s->ends[e - done] = s->ends[e] - k; s->rid[e - done] = s->rid[e]; }
    }
    s->n_ends -= done;
    return k;
}
static ssize_t vp_write(int fd, const void *b, size_t n) {
    CHECK(fd == SFD && n == sizeof(storage_req_t), "storage: handed over whole");
    ASSUME(nSO < 64 && n_acks < 64);
    memcpy(&SO[nSO].w, b, n); SO[nSO].used = false; acks[n_acks++] = SO[nSO].w.req_id; nSO++;
    return n;
}
static int acks_ready;
static ssize_t vp_read(int fd, void *b, size_t n) {
    CHECK(fd == RFD && n == sizeof(int) && acks_ready > 0, "storage: one acknowledgement is read");
    start_of(RFD);
    int id = acks[0];
    memmove(acks, acks + 1, --n_acks * sizeof *acks); acks_ready--;
    *(int *)b = id;
    for (int r = 0; r < nR; r++) if (R[r].known && R[r].iid == (uint32_t)id && R[r].state == WAIT_STORE) { R[r].state = RUN; REACH("stored"); }
    return n;
}

/* --------------------------------------------------------------- scheduler */
static void put_rx(sk_t *s, const void *b, uint32_t n) { ASSUME(s->rx_len + n <= sizeof s->rx); memcpy(s->rx + s->rx_len, b, n); s->rx_len += n; }
static void answer(int k) {
    sk_t *s = sk(T[k].fd);
    T[k].used = true;
    if (!s || gen[T[k].fd - FD0] != T[k].gen || s->peer_closed) return;
    unsigned char b[256]; memset(b, 0, sizeof b);
    message_t *m = (message_t *)b; m->req_id = T[k].iid; m->req_size = sizeof(message_t) + sizeof(command_t) + nd_below(100); m->cmds[0].cmd = EOM;
    put_rx(s, b, m->req_size);
    ASSUME(s->n_ends < 64); s->ends[s->n_ends] = s->rx_len; s->rid[s->n_ends++] = T[k].r;
    if (s->proto == UDP) { uint32_t off = 0; s->ends[s->n_ends - 1] = 0; for (int e = 0; e < s->n_ends - 1; e++) off = s->ends[e]; s->ends[s->n_ends - 1] = s->rx_len; (void)off; }
}
static void client_sends(int c, uint32_t k) {
    sk_t *s = sk(CL[c].fd);
    while (k && CL[c].cur < CL[c].n) {
        struct rq *r = &R[CL[c].rq[CL[c].cur]];
        uint32_t m = r->len - CL[c].off; if (m > k) m = k;
        put_rx(s, r->msg + CL[c].off, m); CL[c].off += m; k -= m;
        if (CL[c].off == r->len) { ASSUME(s->n_ends < 64); s->ends[s->n_ends] = s->rx_len; s->rid[s->n_ends++] = CL[c].rq[CL[c].cur]; CL[c].cur++; CL[c].off = 0; }
    }
}
static void act(void) {
    int what = nd_below(10), k;
    switch (what) {
    case 0: if (nC < MAXC && !drain) { int c = nC++; CL[c].n = 1 + nd_below(4); for (k = 0; k < CL[c].n; k++) CL[c].rq[k] = new_rq(c); backlog++; } break;
    case 1: case 2: k = nd_below(MAXC); if (k < nC && CL[k].up && !CL[k].closed && !sk(CL[k].fd)->peer_closed) client_sends(k, nd_bool() ? 1 + nd_below(40) : 5000); break;
    case 3: k = nd_below(MAXC); if (nd_below(12) == 0 && k < nC && CL[k].up && !CL[k].closed) sk(CL[k].fd)->peer_closed = true; break;
    case 4: case 5: if (nT) { k = nd_below(nT); if (!T[k].used) { if (nd_below(6)) answer(k); else T[k].used = true; } } break;
    case 6: k = nd_below(MAXS); if (S[k] && S[k]->open && S[k]->conn == CONNECTING_) S[k]->conn = nd_below(4) ? UP : REFUSED; break;
    case 7: k = nd_below(MAXS); if (S[k] && S[k]->open) S[k]->credit += nd_below(3) ? nd_below(3000) : 1; break;
    case 8: if (acks_ready < n_acks) acks_ready++; break;
    case 9: k = nd_below(MAXS); if (nd_below(12) == 0 && S[k] && S[k]->open && !S[k]->client && S[k]->proto == TCP && S[k]->conn == UP) S[k]->peer_closed = true; break;
    }
}
static uint32_t ready(sk_t *s) {
    uint32_t e = 0;
    if (!s->reg || (s->watch & ~EPOLLONESHOT) == 0) return 0;
    if (s->conn == REFUSED) return EPOLLERR | EPOLLHUP | (s->watch & EPOLLOUT);
    if (s->conn != UP) return 0;
    if (s->rx_len || s->peer_closed) e |= EPOLLIN;
    if (s->credit) e |= EPOLLOUT;
    return e & s->watch;
}
static void final(void);
static bool over;
static int spins;
static int vp_epoll_wait(int ep, struct epoll_event *ev, int n, int t) {
    CHECK(ep == EPFD && t == -1 && n >= 1, "waits for events");
    sync_(nB); nB = atB = 0;
    int up = 0;
    for (int k = 0; k < MAXS; k++) if (S[k] && S[k]->open && S[k]->proto == TCP && S[k]->counted) up++;
    CHECK(W->active_conns == up, "connections: every established one is counted once");
    if (!any_closed) CHECK(W->active_reqs == n_accepted - n_replied - n_dropped, "requests: every pending one is counted once");
    for (;;) {
        int c = 0;
        CHECK(++steps < 20000, "the node comes to rest");
        if (steps > 150 && !drain) {
            drain = true;
            for (int k = 0; k < nC; k++) ;
        }
        if (drain) {
            for (int k = 0; k < nC; k++) if (CL[k].up && !CL[k].closed && !sk(CL[k].fd)->peer_closed) client_sends(k, 50000);
            for (int k = 0; k < MAXS; k++) if (S[k] && S[k]->open) { S[k]->credit = 100000; if (S[k]->conn == CONNECTING_) S[k]->conn = UP; }
            acks_ready = n_acks;
        } else for (int k = nd_below(6); k > 0; k--) act();
        /* time passes up to the next expiry */
        if (!drain && !t_fired && nd_bool()) {
            long d = nd_bool() ? nd_below(300) : nd_below(6000);
            if (t_armed && now_us + d >= t_at) d = t_at > now_us ? t_at - now_us : 0;
            now_us += d;
        }
        if (t_armed && now_us >= t_at) t_fired = true;
        int lim = drain ? 1 : 1 + (int)nd_below(3); if (lim > n) lim = n;
        int start = nd_below(MAXS);
        bool tfirst = nd_bool();
        if (t_fired && tfirst && c < lim) { ev[c].events = EPOLLIN; ev[c].data.u64 = i2l(TIMER, TFD); B[c].fd = TFD; B[c++].type = TIMER; }
        if (backlog && c < lim && nd_bool()) { ev[c].events = EPOLLIN; ev[c].data.u64 = i2l(LISTEN, LFD); B[c].fd = LFD; B[c++].type = LISTEN; }
        if (acks_ready && c < lim && nd_bool()) { ev[c].events = EPOLLIN; ev[c].data.u64 = i2l(STORAGE, RFD); B[c].fd = RFD; B[c++].type = STORAGE; }
        for (int j = 0; j < MAXS && c < lim; j++) {
            int k = (start + j) % MAXS; sk_t *s = S[k];
            if (!s || !s->open) continue;
            uint32_t e = ready(s);
            if (!e) continue;
            if (s->watch & EPOLLONESHOT) s->watch = EPOLLONESHOT;
            ev[c].events = e; ev[c].data.u64 = s->data; B[c].fd = FD0 + k; B[c++].type = SOCKET;
        }
        if (t_fired && !tfirst && c < lim) { ev[c].events = EPOLLIN; ev[c].data.u64 = i2l(TIMER, TFD); B[c].fd = TFD; B[c++].type = TIMER; }
        for (int k = 0; k < c; k++) TR("event fd %d type %d events %x", B[k].fd, B[k].type, ev[k].events);
        if (c) { nB = c; return c; }
        if (drain && !backlog && !acks_ready && !t_fired) {
            if (t_armed) { now_us = t_at; t_fired = true; continue; }
            final();
            ev[0].events = EPOLLIN; ev[0].data.u64 = i2l(TERMINATION, TERMFD);
            over = true;
            return 1;
        }
    }
}
static void final(void) {
    for (int x = 0; x < nX; x++) {
        if (X[x].maybe) continue;
        if (X[x].reply && (CL[X[x].cl].closed || sk(CL[X[x].cl].fd)->peer_closed)) continue;
        CHECK(false, "messages: everything to be sent is sent in the end");
    }
    for (int k = 0; k < MAXS; k++) if (S[k] && S[k]->open && S[k]->conn == UP) CHECK(S[k]->rx_len == 0, "messages: everything received is read in the end");
    for (int n = 0; n < nR; n++) {
        CHECK(R[n].state != RUN && R[n].state != WAIT_STORE, "requests: none is left behind");
        if (R[n].state == WAIT_FWD) CHECK(!R[n].due, "timeouts: every one expires");
    }
    REACH("at rest");
}
void h_world(void) {
    conn_init(); req_init();
    W = &conn_worker_infos[0];
    W->listen_sock = LFD; W->timerfd = TFD; W->statfd = -1; W->epollfd = EPFD; W->storefd = SFD; W->store_replyfd = RFD; W->worker_id = 0; W->core_id = -1;
    W->timeout_queue = pqueue_alloc(256);
    terminationfd = TERMFD; conn_threads = 1; accept_mode = AM_CHILD;
    last_reqs = nd_below(4) ? (int)nd_below(100000) : 0;
    conn_worker(W);
    CHECK(over, "runs until told to stop");
}
