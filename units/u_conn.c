/* Contracts of src/connection.c: C05 (slots), C06 (sending), C07 (receiving),
 * C24 (lookups).  Conns W is an arbitrary other connection. */
#include "vp.h"
#include "vp_sys.h"
#include "message.h"
#include "request.h"
#include "connection.h"

static ssize_t vp_sendto(int fd, const void *buf, size_t len, int flags, const void *addr, socklen_t alen);
static ssize_t vp_recvfrom(int fd, void *buf, size_t len, int flags, void *addr, socklen_t *alen);
static pthread_t vp_self(void);
static void *vp_calloc(size_t n, size_t s);
static void vp_free(void *p);
static int g_mode;
static uint32_t W, X;                 /* W: slot of any other connection, X: any slot */
static bool g_x_taken, g_x_acq;       /* X seen taken at its last try; X found free and taken in one step */
#define sendto vp_sendto
#define send(fd, b, l, fl) vp_sendto((fd), (b), (l), (fl), NULL, 0)
#define recvfrom vp_recvfrom
#define recv(fd, b, l, fl) vp_recvfrom((fd), (b), (l), (fl), NULL, NULL)
#define pthread_self vp_self
/* atomic operations, other threads act in between: they allocate and release
 * slots at any time, but W stays theirs */
#undef atomic_exchange
#undef atomic_exchange_explicit
#undef atomic_store
#undef atomic_store_explicit
#undef atomic_load
#undef atomic_load_explicit
#undef atomic_compare_exchange_strong
#ifdef VP_CBMC
#define vp_interfere(x) ((x) = nd_bool(), ASSUME(conns[W].busy == 1))
#else
#define vp_interfere(x) (&(x) != &conns[W].busy ? (void)((x) = g_mode == 1 ? 1 : nd_bool()) : (void)0)
#endif
#define vp_rmw(x, v) ({ vp_interfere(x); int vp_old = (x), vp_x = conns[X].busy; \
    g_x_taken = vp_x != 0; (x) = (v); if (vp_x == 0 && conns[X].busy != 0) g_x_acq = true; vp_old; })
/* _lv: the object itself in place of its address (see registry: ATOMIC_LV) */
#define atomic_exchange_lv(x, v) vp_rmw(x, v)
#define atomic_exchange_explicit_lv(x, v, o) vp_rmw(x, v)
#define atomic_compare_exchange_strong_lv(x, e, v) ({ int vp_e = *(e), vp_o = vp_rmw(x, vp_old == vp_e ? (v) : vp_old); *(e) = vp_o; vp_o == vp_e; })
#define atomic_store_lv(x, v) ((void)((x) = (v)))
#define atomic_store_explicit_lv(x, v, o) ((void)((x) = (v)))
#define atomic_load_lv(x) ({ vp_interfere(x); (x); })
#define atomic_load_explicit_lv(x, o) atomic_load_lv(x)
#define atomic_exchange(p, v) atomic_exchange_lv(*(p), v)
#define atomic_exchange_explicit(p, v, o) atomic_exchange_lv(*(p), v)
#define atomic_compare_exchange_strong(p, e, v) atomic_compare_exchange_strong_lv(*(p), e, v)
#define atomic_store(p, v) atomic_store_lv(*(p), v)
#define atomic_store_explicit(p, v, o) atomic_store_lv(*(p), v)
#define atomic_load(p) atomic_load_lv(*(p))
#define atomic_load_explicit(p, o) atomic_load_lv(*(p))
#define calloc vp_calloc
#define free vp_free
static void vp_find_loop(int *i, int *rv, int what);
static void vp_alloc_loop(int *conn_id);
static void vp_cinit_loop(int *i);
static void vp_reset_loop(conn_info_t *conn, req_info_t **temp);
#include "connection.c"
#include "request.c"
#include "message.c"
#undef calloc
#undef free

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"

static uint32_t C;                    /* the connection at hand */
static conn_info_t w_old, c_old;
static uint32_t KB;                   /* arbitrary byte of a buffer */

static bool same_addr(struct sockaddr_in a, struct sockaddr_in b) { return a.sin_family == b.sin_family && a.sin_port == b.sin_port && a.sin_addr.s_addr == b.sin_addr.s_addr; }
static bool same_ident(conn_info_t *a, conn_info_t *b) { return a->proto == b->proto && a->sock == b->sock && a->parent_thread == b->parent_thread && a->busy == b->busy && a->req_list == b->req_list && a->serialize_request == b->serialize_request; }
static bool same_recv(conn_info_t *a, conn_info_t *b) { return a->recv_buf == b->recv_buf && a->curr_recv_buf == b->curr_recv_buf && a->curr_recv_size == b->curr_recv_size && a->curr_proc_buf == b->curr_proc_buf; }
static bool same_send(conn_info_t *a, conn_info_t *b) { return a->send_buf == b->send_buf && a->curr_send_buf == b->curr_send_buf && a->curr_send_size == b->curr_send_size; }
static bool same_conn(conn_info_t *a, conn_info_t *b) { return same_ident(a, b) && same_recv(a, b) && same_send(a, b) && a->status == b->status && same_addr(a->target, b->target); }

static struct sockaddr_in any_addr(void) {
    struct sockaddr_in a = {0};
    a.sin_family = AF_INET; a.sin_port = nd_u16(); a.sin_addr.s_addr = nd_u32();
    return a;
}
static void any_table(void) {
#ifdef VP_CBMC
    HAVOC_OBJ(conns);
#endif
}
/* an arbitrary slot: already arbitrary in the verifier, drawn natively */
#ifdef VP_CBMC
#define any_slot(i) ((void)0)
#else
#define any_slot(i) any_ident(&conns[i])
#endif
static void any_ident(conn_info_t *c) {
    c->proto = nd_irange(UDP, TCP);
    c->sock = nd_irange(-1, 0x7fffffff);
    c->status = nd_irange(NOT_INIT, CLOSE);
    c->target = any_addr();
    c->serialize_request = nd_bool();
    c->parent_thread = nd_u64();
    c->busy = nd_bool();
}
/* two arbitrary connections, C with buffers */
static uint32_t snd_off, rcv_off, prc_off;
static unsigned char *any_buf(void) {
#ifdef VP_CBMC
    uint32_t n = nd_u32();
    ASSUME(n == BUF_SIZE);            /* as a variable: keeps the array symbolic */
    return malloc(n);
#else
    return malloc(BUF_SIZE);
#endif
}
static conn_info_t CC, *CP = &CC;     /* functions given a pointer do not see where it lives */
static conn_info_t *any_conn(void) {
    W = nd_below(MAX_CONNS);
    conn_info_t *c = CP;
    if (CP == &CC) C = MAX_CONNS;
    if (W != C) { any_ident(&conns[W]); conns[W].curr_send_size = nd_u64(); conns[W].curr_recv_size = nd_u64(); }
    any_ident(c);
    c->send_buf = any_buf();
    c->recv_buf = any_buf();
    KB = nd_below(BUF_SIZE);
    /* pending bytes to send: [off, off+size) */
    snd_off = nd_below(BUF_SIZE);
    c->curr_send_buf = c->send_buf + snd_off;
    c->curr_send_size = nd_below(BUF_SIZE + 1);
    ASSUME(snd_off + c->curr_send_size <= BUF_SIZE && (c->curr_send_size > 0 || snd_off == 0));
    /* received bytes [0, r), delivered ones [0, p) */
    rcv_off = nd_below(BUF_SIZE + 1);
    prc_off = nd_below(rcv_off + 1);
    c->curr_recv_buf = c->recv_buf + rcv_off;
    c->curr_recv_size = BUF_SIZE - rcv_off;
    c->curr_proc_buf = c->recv_buf + prc_off;
    c_old = *c; w_old = conns[W];
    return c;
}

/* ---------------------------------------------------------------- sending */
static int g_sends; static uint32_t g_base, g_pend, g_sent; static bool g_send_err; static struct sockaddr_in g_to; static unsigned char g_kb; static bool g_kb_sent;
static ssize_t vp_sendto(int fd, const void *buf, size_t len, int flags, const void *addr, socklen_t alen) {
    conn_info_t *c = CP;
    CHECK(fd == c_old.sock, "send: on the connection's own socket");
    CHECK((flags & MSG_NOSIGNAL) != 0, "send: a broken connection raises no signal");
    CHECK((const unsigned char *)buf == c->send_buf + g_base + g_sent, "send: starts at the first byte not yet sent");
    CHECK(len > 0 && len <= g_pend - g_sent, "send: only waiting bytes");
    CHECK(!g_send_err, "send: not continued after a failure");
    if (addr) CHECK(same_addr(*(const struct sockaddr_in *)addr, g_to), "send: to the connection's peer");
    else CHECK(c->proto == TCP, "send: datagrams need the peer address");
    CHECK(c->send_buf[KB] == g_kb, "send: waiting bytes not altered");
    ASSUME(g_sends < 3);
    g_sends++;
    if (nd_bool()) { g_send_err = true; vp_errno = nd_irange(1, 133); return -1; }
    uint32_t n = nd_below((uint32_t)len + 1);
    g_sent += n;
    return n;
}
static void sent_post(conn_info_t *c, int ret, bool started) {
    uint32_t left = g_pend - g_sent;
    CHECK(c->curr_send_size == left, "send: exactly the accepted bytes are taken off the waiting ones");
    CHECK(left == 0 ? c->curr_send_buf == c->send_buf : c->curr_send_buf == c->send_buf + g_base + g_sent, "send: the next byte to send is the first one not accepted");
    CHECK(c->send_buf[KB] == g_kb, "send: waiting bytes unchanged");
    if (started) {
        if (g_sent > 0) CHECK(ret == (int)g_sent, "send: reports the bytes accepted");
        else if (!g_send_err || vp_errno == EAGAIN || vp_errno == EWOULDBLOCK) {
            CHECK(ret == 0, "send: would block is not an error");
        }
        if (!g_send_err || vp_errno == EAGAIN || vp_errno == EWOULDBLOCK)
            CHECK(c->status == c_old.status, "send: the connection stays healthy");
        else if (vp_errno == EPIPE || vp_errno == ECONNRESET)
            CHECK(c->status == CLOSE && ret <= 0, "send: a broken connection is closed");
        else
            CHECK(ret < 0, "send: other errors are failures");
    }
    CHECK(same_ident(c, &c_old) && same_recv(c, &c_old) && c->send_buf == c_old.send_buf && same_addr(c->target, g_to), "send: nothing else changed");
    CHECK(W == C || same_conn(&conns[W], &w_old), "send: other connections untouched");
}
void h_send(void) {
    conn_info_t *c = any_conn();
    ASSUME(c->curr_send_size > 0 && c->sock >= 0);
    g_base = snd_off; g_pend = c->curr_send_size; g_to = c->target; g_kb = c->send_buf[KB];
    int ret = conn_send(c);
    CHECK(g_sends > 0, "send: tries to send");
    sent_post(c, ret, true);
    if (g_sent > 0 && g_sent < g_pend) REACH("send partial");
    if (g_send_err && vp_errno == EPIPE) REACH("send closed");
}
void h_start_send(void) {
    conn_info_t *c = any_conn();
    uint32_t fr = BUF_SIZE - snd_off - c->curr_send_size, end = snd_off + c->curr_send_size;
    ASSUME(fr >= sizeof(message_t) && c->sock >= 0);
    uint32_t sz = nd_range(sizeof(message_t), fr);
    ((message_t *)(c->send_buf + end))->req_size = sz;      /* the message just composed */
    g_base = snd_off; g_pend = c->curr_send_size + sz; g_to = any_addr(); g_kb = c->send_buf[KB];
    int ret = conn_start_send(c, g_to);
    bool connecting = c_old.status == CONNECTING || c_old.status == NOT_INIT;
    CHECK((g_sends == 0) == connecting, "start: sends right away exactly when established");
    if (connecting) CHECK(ret == 0 && c->status == c_old.status, "start: kept waiting while connecting");
    sent_post(c, ret, !connecting);
    if (connecting && c_old.curr_send_size > 0) REACH("start queued");
    if (!connecting && g_sent == g_pend) REACH("start sent");
}
void h_compose(void) {
    conn_info_t *c = any_conn();
    uint32_t end = snd_off + c->curr_send_size;
    unsigned char b = c->send_buf[KB];
    message_t *m = conn_send_message(c);
    CHECK((m == NULL) == (BUF_SIZE - end < sizeof(message_t)), "compose: refused exactly without space for a header");
    if (!m) {
        CHECK(c->send_buf[KB] == b && same_conn(c, &c_old), "compose: nothing changes without space");
        REACH("compose refused");
        return;
    }
    CHECK((unsigned char *)m == c->send_buf + end, "compose: directly behind the waiting bytes");
    CHECK(m->req_size == BUF_SIZE - end, "compose: told exactly the space left");
    CHECK(KB >= end || c->send_buf[KB] == b, "compose: waiting bytes untouched");
    CHECK(same_conn(c, &c_old), "compose: connection state unchanged");
    CHECK(W == C || same_conn(&conns[W], &w_old), "compose: other connections untouched");
    REACH("compose");
}
void h_get_send_buf(void) {
    conn_info_t *c = any_conn();
    uint32_t end = snd_off + c->curr_send_size, sz = nd_u32();
    ASSUME(sz <= BUF_SIZE - end);
    CHECK(get_send_buf(c, sz) == c->send_buf + end, "space: directly behind the waiting bytes");
    CHECK(same_conn(c, &c_old), "space: connection state unchanged");
    REACH("space");
}

/* -------------------------------------------------------------- receiving */
static int g_recvs; static int g_got; static unsigned char g_new;
static ssize_t vp_recvfrom(int fd, void *buf, size_t len, int flags, void *addr, socklen_t *alen) {
    conn_info_t *c = CP;
    CHECK(fd == c_old.sock, "recv: on the connection's own socket");
    CHECK((unsigned char *)buf == c->recv_buf + rcv_off, "recv: behind the bytes already held");
    CHECK(len > 0 && len <= BUF_SIZE - rcv_off, "recv: within the free space");
    CHECK((flags & MSG_PEEK) == 0, "recv: consumes the bytes");
    CHECK(g_recvs == 0, "recv: one chunk at a time");
    g_recvs++;
    if (addr) {
        CHECK(alen && *alen >= sizeof(struct sockaddr_in), "recv: room for the peer address");
        if (nd_bool()) *(struct sockaddr_in *)addr = any_addr();
    }
    if (nd_bool()) { vp_errno = nd_irange(1, 133); return g_got = -1; }
    g_got = nd_below((uint32_t)len + 1);
    g_new = nd_u8();
    if (KB >= rcv_off && KB < rcv_off + g_got) c->recv_buf[KB] = g_new;
    return g_got;
}
void h_recv(void) {
    conn_info_t *c = any_conn();
    ASSUME(c->curr_recv_size > 0 && c->sock >= 0);
    unsigned char b = c->recv_buf[KB];
    int ret = conn_recv(c);
    CHECK(g_recvs == 1, "recv: asks the socket");
    uint32_t n = g_got > 0 ? g_got : 0;
    if (g_got > 0) CHECK(ret != 0, "recv: data is no failure");
    else if (g_got == 0) CHECK(ret == 0, "recv: shutdown by the peer is reported as closed");
    else if (vp_errno == EAGAIN || vp_errno == EWOULDBLOCK) CHECK(ret != 0, "recv: would block is no failure");
    else CHECK(ret == 0, "recv: errors are reported as closed");
    CHECK(c->curr_recv_buf == c->recv_buf + rcv_off + n && c->curr_recv_size == BUF_SIZE - rcv_off - n, "recv: free space kept exact");
    CHECK(c->recv_buf[KB] == (KB >= rcv_off && KB < rcv_off + n ? g_new : b), "recv: received bytes appended, held bytes unchanged");
    CHECK(c->curr_proc_buf == c_old.curr_proc_buf && c->recv_buf == c_old.recv_buf && c->status == c_old.status && same_send(c, &c_old) && same_ident(c, &c_old), "recv: nothing else changed");
    CHECK(W == C || same_conn(&conns[W], &w_old), "recv: other connections untouched");
    if (g_got > 0) REACH("recv data");
    if (g_got < 0) REACH("recv error");
}
void h_next(void) {
    conn_info_t *c = any_conn();
    uint32_t have = rcv_off - prc_off, sz = 0;
    if (have >= sizeof(message_t)) {
        sz = nd_range(sizeof(message_t), BUF_SIZE);
        ((message_t *)(c->recv_buf + prc_off))->req_size = sz;
    }
    unsigned char b = c->recv_buf[KB];
    message_t *m = conn_next_message(c);
    bool whole = have >= sizeof(message_t) && have >= sz;
    CHECK((m != NULL) == whole, "next: delivered exactly when complete");
    if (whole) CHECK((unsigned char *)m == c->recv_buf + prc_off, "next: the first message not yet delivered");
    CHECK(c->curr_proc_buf == c->recv_buf + prc_off + (whole ? sz : 0), "next: advances by exactly the delivered message");
    CHECK(c->recv_buf[KB] == b, "next: received bytes unchanged");
    CHECK(c->curr_recv_buf == c_old.curr_recv_buf && c->curr_recv_size == c_old.curr_recv_size && c->recv_buf == c_old.recv_buf &&
          c->status == c_old.status && same_send(c, &c_old) && same_ident(c, &c_old) && same_addr(c->target, c_old.target), "next: nothing else changed");
    CHECK(W == C || same_conn(&conns[W], &w_old), "next: other connections untouched");
    if (whole) REACH("next message");
    if (!whole && have >= sizeof(message_t)) REACH("next incomplete");
}

/* the last message delivered, of size sz, is dropped */
static int n_move; static unsigned char mv_b;
void *move_contract(void *d, const void *s, size_t n) {
    conn_info_t *c = CP;
    CHECK((const unsigned char *)s == c->recv_buf + prc_off && n <= rcv_off - prc_off, "drop: bytes received later move");
    CHECK((unsigned char *)d >= c->recv_buf && (unsigned char *)d <= (const unsigned char *)s, "drop: towards the front");
    n_move++;
    uint32_t at = (uint32_t)((unsigned char *)d - c->recv_buf);
    if (KB >= at && KB < at + n) { unsigned char v = ((const unsigned char *)s)[KB - at]; ((unsigned char *)d)[KB - at] = v; }
    return d;
}
void h_remove_msg(void) {
    conn_info_t *c = any_conn();
    uint32_t sz = nd_below(BUF_SIZE + 1); ASSUME(sz <= prc_off);
    unsigned char before = c->recv_buf[KB], after = KB + sz < BUF_SIZE ? c->recv_buf[KB + sz] : 0;
    conn_remove_message(c, sz);
    CHECK(c->recv_buf == c_old.recv_buf && c->curr_proc_buf == c->recv_buf + prc_off - sz && c->curr_recv_buf == c->recv_buf + rcv_off - sz && c->curr_recv_size == BUF_SIZE - rcv_off + sz,
          "drop: the space of exactly this message is given back");
    if (KB < prc_off - sz) CHECK(c->recv_buf[KB] == before, "drop: earlier messages untouched");
    else if (KB < rcv_off - sz) CHECK(c->recv_buf[KB] == after, "drop: bytes received later follow in order");
    CHECK(c->status == c_old.status && same_send(c, &c_old) && same_ident(c, &c_old) && same_addr(c->target, c_old.target), "drop: nothing else changed");
    CHECK(W == C || same_conn(&conns[W], &w_old), "drop: other connections untouched");
    if (sz && rcv_off > prc_off) REACH("drop");
}

/* ---------------------------------------------------------------- lookups */
static pthread_t g_self;
static pthread_t vp_self(void) { return g_self; }
static struct sockaddr_in f_target; static proto_t f_proto; static int f_sock; static int f_what;
static bool matches(uint32_t i) {
    conn_info_t *c = &conns[i];
    if (f_what == 1) return c->sock == f_sock;
    if (c->sock == -1 || c->status == CLOSE) return false;
    return f_proto == UDP ? c->proto == UDP && c->parent_thread == g_self
                          : c->proto == TCP && c->target.sin_port == f_target.sin_port && c->target.sin_addr.s_addr == f_target.sin_addr.s_addr;
}
static int fl_seen, fl_i;
static void vp_find_loop(int *i, int *rv, int what) {
#ifdef VP_CBMC
    if (!fl_seen) {
        fl_seen = 1;
        CHECK(*i == 0 && *rv == -1, "lookup loop: starts at the first slot with nothing found");
        *i = nd_irange(0, MAX_CONNS);
        ASSUME(!(W < (uint32_t)*i) || !matches(W));
        fl_i = *i;
        if (*i < MAX_CONNS && (uint32_t)*i != W) { any_ident(&conns[*i]); }
    } else {
        CHECK(*i == fl_i + 1 && *rv == -1, "lookup loop: advances by one slot with nothing found");
        CHECK(!(W < (uint32_t)*i) || !matches(W), "lookup loop: no slot passed over matches");
        CHECK(same_conn(&conns[W], &w_old), "lookup loop: nothing changed");
        STOP();
    }
#endif
}
#ifdef VP_NATIVE
static void some_conns(void) {
    for (int k = 0; k < MAX_CONNS; k++) conns[k].sock = -1;
    int n = nd_irange(0, 6);
    for (int k = 0; k < n; k++) {
        conn_info_t *c = &conns[nd_irange(0, 9)];
        c->proto = nd_irange(UDP, TCP); c->sock = nd_irange(-1, 4); c->parent_thread = nd_irange(0, 1);
        c->target.sin_port = nd_irange(1, 2); c->target.sin_addr.s_addr = nd_irange(1, 2);
    }
    W = nd_below(10);
}
#endif
void h_find_existing(void) {
    f_what = 0;
#ifdef VP_NATIVE
    some_conns();
    g_self = nd_irange(0, 1); f_target.sin_family = AF_INET; f_target.sin_port = nd_irange(1, 2); f_target.sin_addr.s_addr = nd_irange(1, 2);
#else
    W = nd_below(MAX_CONNS);
    any_ident(&conns[W]);
    g_self = nd_u64(); f_target = any_addr();
#endif
    f_proto = nd_irange(UDP, TCP);
    w_old = conns[W];
    int r = conn_find_existing(f_target, f_proto);
    CHECK(r >= -1 && r < MAX_CONNS, "lookup: a slot or none");
    if (r >= 0) { CHECK(matches(r), "lookup: the connection found is live and has the peer and protocol asked for"); REACH("found"); }
    else { CHECK(!matches(W), "lookup: none only if there is none"); REACH("not found"); }
    CHECK(same_conn(&conns[W], &w_old), "lookup: changes nothing");
}
void h_find_sock(void) {
    f_what = 1;
#ifdef VP_NATIVE
    some_conns();
#else
    W = nd_below(MAX_CONNS);
    any_ident(&conns[W]);
#endif
    f_sock = nd_irange(0, 0x7fffffff);
#ifdef VP_NATIVE
    f_sock %= 6;
#endif
    w_old = conns[W];
    int r = conn_find_sock(f_sock);
    CHECK(r >= -1 && r < MAX_CONNS, "lookup: a slot or none");
    if (r >= 0) { CHECK(conns[r].sock == f_sock, "lookup: the connection found uses the socket"); REACH("found"); }
    else { CHECK(conns[W].sock != f_sock, "lookup: none only if there is none"); REACH("not found"); }
    CHECK(same_conn(&conns[W], &w_old), "lookup: changes nothing");
}

/* ------------------------------------------------------------------ slots */
static int g_allocs, g_alloc_fail; static void *g_buf[3];
static void *vp_calloc(size_t n, size_t s) {
    CHECK(n * s == BUF_SIZE, "alloc: full-size buffers");
    CHECK(g_allocs < 2, "alloc: two buffers");
    if (nd_below(4) == 0) { g_alloc_fail = 1; return NULL; }
#ifdef VP_CBMC
    void *p = any_buf();
#else
    void *p = calloc(n, s);
#endif
    g_buf[g_allocs++] = p;
    return p;
}
static int g_freed; static int f_n0, f_n1;
static void vp_free(void *p) {
    if (p == NULL) return;
    if (p == g_buf[0]) f_n0++; else if (p == g_buf[1]) f_n1++; else CHECK(0, "free: only its own buffers are freed");
    CHECK(f_n0 <= 1 && f_n1 <= 1, "free: each buffer once");
}
static int al_seen, al_i; static bool g_xt;
static void vp_alloc_loop(int *conn_id) {
#ifdef VP_CBMC
    if (!al_seen) {
        al_seen = 1;
        CHECK(*conn_id == 0, "alloc loop: starts at the first slot");
        *conn_id = nd_irange(0, MAX_CONNS);
        g_xt = X < (uint32_t)*conn_id;
        al_i = *conn_id;
    } else {
        CHECK(*conn_id == al_i + 1, "alloc loop: advances by one slot");
        CHECK(!g_x_acq, "alloc loop: goes on only with nothing acquired");
        if (X == (uint32_t)al_i) g_xt = g_x_taken;
        CHECK(!(X < (uint32_t)*conn_id) || g_xt, "alloc loop: every slot passed over was taken");
        STOP();
    }
#endif
}
#ifdef VP_CBMC
#define X_TAKEN g_xt                  /* as established by the loop invariant */
#else
#define X_TAKEN (conns[X].busy != 0)
#endif
void h_alloc(void) {
    W = nd_below(MAX_CONNS); X = nd_below(MAX_CONNS);
    g_mode = nd_below(3);
    any_table();
    any_slot(W);
#ifdef VP_CBMC
    ASSUME(conns[W].busy == 1);       /* owned by another live connection */
#else
    conns[W].busy = 1;
#endif
#ifdef VP_CBMC
    ASSUME(X == W || conns[X].req_list == NULL);   /* of a free slot: see released_post */
#endif
    w_old = conns[W];
    g_self = nd_u64();
    int sock = nd_irange(0, 0x7fffffff);
    proto_t proto = nd_irange(UDP, TCP);
    struct sockaddr_in t = any_addr();
#ifdef VP_NATIVE
    if (g_mode == 2) X = 0;
#endif
    int id = conn_alloc(sock, t, proto);
    CHECK(id >= -1 && id < MAX_CONNS, "alloc: a slot or failure");
    if (id >= 0) {
        conn_info_t *c = &conns[id];
        CHECK((X != (uint32_t)id || g_x_acq) && c->busy == 1, "alloc: the slot was free and is taken atomically");
        CHECK((uint32_t)id != W, "alloc: a slot owned by another connection is not handed out");
        CHECK(c->sock == sock && c->proto == proto && same_addr(c->target, t), "alloc: carries socket, peer and protocol");
        CHECK(g_allocs == 2 && c->recv_buf != NULL && c->send_buf != NULL && c->recv_buf != c->send_buf &&
              (c->recv_buf == g_buf[0] || c->recv_buf == g_buf[1]) && (c->send_buf == g_buf[0] || c->send_buf == g_buf[1]), "alloc: owns two distinct full-size buffers");
        CHECK(f_n0 == 0 && f_n1 == 0, "alloc: its buffers stay allocated");
        CHECK(c->curr_recv_buf == c->recv_buf && c->curr_proc_buf == c->recv_buf && c->curr_recv_size == BUF_SIZE, "alloc: nothing received");
        CHECK(c->curr_send_buf == c->send_buf && c->curr_send_size == 0, "alloc: nothing to send");
        CHECK(X != (uint32_t)id || c->req_list == NULL, "alloc: no pending request left over");
        CHECK(c->serialize_request == 0 && c->parent_thread == g_self, "alloc: owned by the calling thread");
        CHECK(c->status == (proto == TCP ? NOT_INIT : READY), "alloc: initial state of the protocol");
        REACH("alloc ok");
    } else {
        CHECK(g_alloc_fail || X_TAKEN, "alloc: fails only if every slot is taken or memory is exhausted");
        CHECK(!g_x_acq || conns[X].busy == 0, "alloc: a failed allocation takes no slot");
        CHECK(f_n0 + f_n1 == g_allocs, "alloc: a failed allocation leaks no memory");
        REACH("alloc failed");
        if (!g_alloc_fail) REACH("alloc full");
    }
    CHECK(same_conn(&conns[W], &w_old), "alloc: other connections untouched");
}

/* pending requests of a connection: node k of the list is LN[k], for any n */
static req_info_t *LN; static uint32_t n_ln, WL; static req_info_t wl_old;
static void any_list(conn_info_t *c) {
#ifdef VP_CBMC
    n_ln = nd_below(MAX_REQS + 1);
#else
    n_ln = nd_below(6);
#endif
    LN = malloc((n_ln + 1) * sizeof(req_info_t));
    WL = n_ln == 0 ? 0 : nd_below(n_ln);
#ifdef VP_NATIVE
    for (uint32_t k = 0; k <= n_ln; k++) {
        LN[k].req_id = 100 + k; LN[k].conn_id = C;
        LN[k].next = k + 1 < n_ln ? &LN[k + 1] : NULL; LN[k].prev = k > 0 ? &LN[k - 1] : NULL;
    }
#endif
    c->req_list = n_ln ? &LN[0] : NULL;
}
static int rs_seen; static uint32_t rs_t;
static void list_at(uint32_t k) {      /* instance of the list's shape at node k */
    if (k >= n_ln) return;
    LN[k].next = k + 1 < n_ln ? &LN[k + 1] : NULL;
    LN[k].prev = k > 0 ? &LN[k - 1] : NULL;
    ASSUME(LN[k].req_id >= 0);
}
static void vp_reset_loop(conn_info_t *conn, req_info_t **temp) {
#ifdef VP_CBMC
    if (!rs_seen) {
        rs_seen = 1;
        CHECK(*temp == conn->req_list, "reset loop: starts at the newest pending request");
        rs_t = nd_below(n_ln + 1);
        list_at(rs_t); list_at(rs_t + 1);
        if (rs_t < n_ln) LN[rs_t].prev = NULL;      /* its predecessor is gone */
        if (WL < rs_t) LN[WL].req_id = -1;
        *temp = rs_t < n_ln ? &LN[rs_t] : NULL;
    } else {
        CHECK(*temp == (rs_t + 1 < n_ln ? &LN[rs_t + 1] : NULL), "reset loop: advances to the next request");
        CHECK(rs_t + 1 >= n_ln || LN[rs_t + 1].prev == NULL, "reset loop: the next request is first now");
        CHECK(!(WL <= rs_t && WL < n_ln) || LN[WL].req_id == -1, "reset loop: requests passed are released");
        STOP();
    }
#endif
}
void h_reset(void) {
    C = MAX_CONNS; W = nd_below(MAX_CONNS);
    any_table();
    any_slot(W);
    w_old = conns[W];
    any_ident(CP);
    any_list(CP);
    c_old = *CP;
    conn_reset(CP);
    CHECK(n_ln == 0 || LN[WL].req_id == -1, "reset: every pending request is released");
    CHECK(CP->req_list == NULL, "reset: no pending request left");
    c_old.req_list = NULL;
    CHECK(same_conn(CP, &c_old), "reset: nothing else changed");
    CHECK(same_conn(&conns[W], &w_old), "reset: other connections untouched");
    REACH("reset");
}
/* contract of conn_reset for its callers */
static int g_resets;
void reset_contract(conn_info_t *c) {
    CHECK(c == &conns[C], "reset: of the connection at hand");
    conns[C].req_list = NULL;
    g_resets++;
}
static void any_owned(void) {
    C = nd_below(MAX_CONNS); W = nd_below(MAX_CONNS);
    any_table();
    if (W != C) any_slot(W);
    any_slot(C);
    conns[C].busy = 1;
    conns[C].recv_buf = g_buf[0] = any_buf();
    conns[C].send_buf = g_buf[1] = any_buf();
#ifdef VP_CBMC
    conns[C].req_list = nd_bool() ? NULL : malloc(sizeof(req_info_t));
#else
    any_list(&conns[C]);
#endif
    c_old = conns[C]; w_old = conns[W];
}
static void released_post(void) {
#ifdef VP_CBMC
    CHECK(g_resets > 0, "release: every pending request is released");
#else
    for (uint32_t k = 0; k < n_ln; k++) CHECK(LN[k].req_id == -1, "release: every pending request is released");
#endif
    CHECK(conns[C].req_list == NULL, "release: no pending request left");
    CHECK(W == C || same_conn(&conns[W], &w_old), "release: other connections untouched");
}
void h_free(void) {
    any_owned();
    conn_free(C);
    conn_info_t *c = &conns[C];
    CHECK(f_n0 == 1 && f_n1 == 1, "free: both buffers are freed");
    CHECK(c->busy == 0 && c->sock == -1, "free: the slot is available again");
    CHECK(c->recv_buf == NULL && c->send_buf == NULL, "free: no reference to the freed buffers is kept");
    released_post();
    REACH("free");
}
void h_del_id(void) {
    any_owned();
    conn_del_id(C);
    conn_info_t *c = &conns[C];
    CHECK(c->sock == -1 && c->busy == 1 && same_recv(c, &c_old) && same_send(c, &c_old), "forget: only the socket is given up, the slot and its buffers stay owned");
    released_post();
    REACH("forget");
}
/* contracts used for conn_del_sock */
static int g_found, g_deleted = -2;
int find_sock_contract(int sock) { CHECK(sock != -1, "a socket"); g_found = nd_irange(-1, MAX_CONNS - 1); if (g_found >= 0) ASSUME(conns[g_found].sock == sock); return g_found; }
void del_id_contract(int id) { CHECK(id >= 0 && id < MAX_CONNS && g_deleted == -2, "forget: one slot"); g_deleted = id; }
void h_del_sock(void) {
    W = nd_below(MAX_CONNS); any_table(); any_slot(W); w_old = conns[W];
    int sock = nd_irange(0, 0x7fffffff);
    int r = conn_del_sock(sock);
    CHECK(r == g_found, "forget: reports the slot");
    CHECK(g_deleted == (r == -1 ? -2 : r), "forget: exactly the connection using the socket");
    CHECK(same_conn(&conns[W], &w_old), "forget: other connections untouched");
    REACH("del_sock");
}
static int ci_seen, ci_i;
static void vp_cinit_loop(int *i) {
#ifdef VP_CBMC
    if (!ci_seen) {
        ci_seen = 1;
        CHECK(*i == 0, "init loop: starts at 0");
        *i = nd_irange(0, MAX_CONNS);
        if (W < (uint32_t)*i) { conns[W].busy = 0; conns[W].sock = -1; conns[W].recv_buf = NULL; conns[W].send_buf = NULL; }
        ci_i = *i;
    } else {
        CHECK(*i == ci_i + 1, "init loop: advances");
        CHECK(!(W < (uint32_t)*i) || (conns[W].busy == 0 && conns[W].sock == -1 && conns[W].recv_buf == NULL && conns[W].send_buf == NULL), "init loop: slots handled so far are free");
        STOP();
    }
#endif
}
void h_init(void) {
    W = nd_below(MAX_CONNS); any_table(); any_slot(W);
    conn_init();
    CHECK(conns[W].busy == 0 && conns[W].sock == -1 && conns[W].recv_buf == NULL && conns[W].send_buf == NULL, "init: every slot is free");
    REACH("init");
}
#pragma CPROVER check pop
