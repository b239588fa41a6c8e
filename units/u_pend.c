/* C08: pending requests of a connection.  The list has any length; of the
 * requests newer than the one retired an arbitrary one (X) is followed. */
#include "vp.h"
#include "vp_sys.h"
#include "message.h"
#include "request.h"
#include "connection.h"
#ifdef VP_CBMC
static void *vp_memmove(void *d, const void *s, size_t n);
#define memmove vp_memmove
#endif
#undef atomic_fetch_add
#define atomic_fetch_add(p, v) ({ int vp_o = *(p); *(p) = (int)((unsigned)vp_o + (v)); vp_o; })
static void vp_rm_loop(req_info_t **temp);
#include "connection.c"
#include "request.c"
#include "message.c"
#undef memmove

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"

static conn_info_t CC, c_old;
static unsigned char *RB;
static bool same_addr(struct sockaddr_in a, struct sockaddr_in b) { return a.sin_family == b.sin_family && a.sin_port == b.sin_port && a.sin_addr.s_addr == b.sin_addr.s_addr; }
static bool same_rest(void) {
    return CC.proto == c_old.proto && CC.sock == c_old.sock && CC.status == c_old.status && same_addr(CC.target, c_old.target) && CC.recv_buf == c_old.recv_buf &&
        CC.send_buf == c_old.send_buf && CC.curr_send_buf == c_old.curr_send_buf && CC.curr_send_size == c_old.curr_send_size &&
        CC.serialize_request == c_old.serialize_request && CC.parent_thread == c_old.parent_thread && CC.busy == c_old.busy;
}
#ifdef VP_CBMC
static req_info_t REQ, X, NEWER, OLDER, O, O2;
static long n_new, kx, i_at;           /* newer requests; which of them is X; the one at the loop head */
static long a, s, x, cx, proc, recvd;  /* offsets: retired message, its size, X's message, X's command, processed, received */
static bool x_cmd;
static long KB, KL; static unsigned char kbv, klv; /* bytes behind and before the retired message */
static bool moved;
static void *vp_memmove(void *d, const void *src, size_t n) {
    CHECK((unsigned char *)d >= RB && (unsigned char *)d + n <= RB + BUF_SIZE && (unsigned char *)src >= RB && (unsigned char *)src + n <= RB + BUF_SIZE, "retire: moves within the buffer");
    long dd = (unsigned char *)d - RB, ss = (unsigned char *)src - RB;
    long p = KB - s;                   /* where byte KB belongs afterwards */
    unsigned char vp = p >= dd && p < dd + (long)n ? RB[ss + (p - dd)] : RB[p];
    unsigned char vl = KL >= dd && KL < dd + (long)n ? RB[ss + (KL - dd)] : RB[KL];
    HAVOC_OBJ(RB);
    ASSUME(RB[p] == vp && RB[KL] == vl);
    moved = true;
    return d;
}
static req_info_t *newer(long i, req_info_t *other) { return i > n_new ? NULL : i == kx ? &X : other; }
static bool x_is(bool shifted) {
    return X.message_ptr == RB + x - (shifted ? s : 0) && X.curr_cmd == (x_cmd ? (command_t *)(RB + cx - (shifted ? s : 0)) : NULL);
}
static void x_set(bool shifted) { X.message_ptr = RB + x - (shifted ? s : 0); X.curr_cmd = x_cmd ? (command_t *)(RB + cx - (shifted ? s : 0)) : NULL; }
static int rm_seen;
static void vp_rm_loop(req_info_t **temp) {
    if (!rm_seen) {
        rm_seen = 1;
        CHECK(*temp == newer(1, &NEWER), "retire loop: starts with the next newer request");
        CHECK(kx > n_new || x_is(false), "retire loop: nothing adjusted yet");
        i_at = (long)nd_u64(); ASSUME(i_at >= 1 && i_at <= n_new + 1);
        x_set(kx < i_at);
        long o = (long)nd_u64(); ASSUME(o >= a + s && o < proc);
        O.message_ptr = RB + o; O.curr_cmd = NULL;
        O.prev = newer(i_at + 1, &O2);
        X.prev = newer(kx + 1, &O2);
        *temp = i_at == 1 ? newer(1, &NEWER) : newer(i_at, &O);
        if (i_at == 1 && kx != 1 && n_new >= 1) NEWER.prev = newer(2, &O2);
    } else {
        CHECK(i_at <= n_new, "retire loop: a newer request");
        CHECK(*temp == newer(i_at + 1, &O2), "retire loop: goes on with the next newer request");
        CHECK(kx > n_new || x_is(kx < i_at + 1), "retire loop: newer requests follow their message, with their command");
        STOP();
    }
}
void h_req_remove(void) {
    uint32_t n = nd_u32(); ASSUME(n == BUF_SIZE);
    RB = malloc(n);
    HAVOC_OBJ(&CC);
    a = (long)nd_u64(); s = (long)nd_u64(); x = (long)nd_u64(); cx = (long)nd_u64(); proc = (long)nd_u64(); recvd = (long)nd_u64();
    ASSUME(a >= 0 && s >= 12 && s <= BUF_SIZE && a + s <= proc && proc <= recvd && recvd <= BUF_SIZE && a <= BUF_SIZE && proc <= BUF_SIZE);
    ASSUME(*(uint32_t *)(RB + a + 4) == (uint32_t)s);
    CC.recv_buf = RB; CC.curr_recv_buf = RB + recvd; CC.curr_proc_buf = RB + proc; CC.curr_recv_size = BUF_SIZE - recvd;
    n_new = (long)nd_u64(); kx = (long)nd_u64();
    ASSUME(n_new >= 0 && n_new < MAX_REQS && kx >= 1 && kx <= MAX_REQS);
    x_cmd = nd_bool();
    ASSUME(x >= a + s && x + 12 <= proc && x <= BUF_SIZE && cx >= x + 12 && cx < proc);
    x_set(false);
    bool older = nd_bool();
    REQ.req_id = nd_irange(0, 0x7fffffff);
    REQ.message_ptr = RB + a; REQ.curr_cmd = (command_t *)(RB + a + 12);
    REQ.prev = newer(1, &NEWER); REQ.next = older ? &OLDER : NULL;
    (n_new >= 1 && kx == 1 ? &X : &NEWER)->next = &REQ;
    long o1 = (long)nd_u64(); ASSUME(o1 >= a + s && o1 < proc);
    NEWER.message_ptr = RB + o1; NEWER.curr_cmd = NULL; NEWER.prev = newer(2, &O2);
    if (kx != 1) X.next = &O2;
    X.prev = newer(kx + 1, &O2);
    X.req_id = nd_irange(0, 0x7fffffff); X.conn_id = nd_int(); X.fwd_replies_left = nd_int();
    OLDER.prev = &REQ; OLDER.next = nd_bool() ? &O2 : NULL; OLDER.req_id = nd_irange(0, 0x7fffffff);
    long b = (long)nd_u64(); ASSUME(b >= 0 && b < a + 1); OLDER.message_ptr = RB + b; OLDER.curr_cmd = (command_t *)(RB + b);
    req_info_t *head = n_new == 0 ? &REQ : nd_bool() ? &O2 : n_new >= 1 && kx == n_new ? &X : &O;
    CC.req_list = head;
    KB = (long)nd_u64(); KL = (long)nd_u64();
    ASSUME(KB >= a + s && KB < recvd + (KB < recvd ? 0 : 1) && KB < BUF_SIZE && KL >= 0 && KL < BUF_SIZE && (KL < a || a == 0));
    kbv = RB[KB]; klv = RB[KL];
    bool in_b = KB < recvd;
    c_old = CC; req_info_t x_old = X, b_old = OLDER;
    req_info_t *r = conn_req_remove(&CC, &REQ);
    CHECK(r == (older ? &OLDER : NULL), "retire: returns the next older request");
    CHECK(same_rest(), "retire: the rest of the connection is left alone");
    CHECK(CC.curr_recv_buf == RB + recvd - s && CC.curr_proc_buf == RB + proc - s, "retire: received and delivered positions follow");
    CHECK(CC.curr_recv_size == BUF_SIZE - recvd + s, "retire: free space grows by the message's size");
    if (in_b) CHECK(RB[KB - s] == kbv, "retire: later bytes preserved and moved up by the message's size");
    if (KL < a) CHECK(RB[KL] == klv, "retire: earlier bytes untouched");
    if (kx <= n_new) {
        CHECK(x_is(true), "retire: every newer request refers to its own bytes and next command");
        CHECK(X.req_id == x_old.req_id && X.conn_id == x_old.conn_id && X.fwd_replies_left == x_old.fwd_replies_left && X.prev == newer(kx + 1, &O2), "retire: newer requests otherwise unchanged");
        CHECK(X.next == (kx == 1 ? (older ? &OLDER : NULL) : x_old.next), "retire: the others stay in the list in order");
        REACH("retired with newer");
    }
    if (older) {
        CHECK(OLDER.message_ptr == b_old.message_ptr && OLDER.curr_cmd == b_old.curr_cmd && OLDER.next == b_old.next && OLDER.req_id == b_old.req_id, "retire: older requests unchanged");
        CHECK(OLDER.prev == newer(1, &NEWER), "retire: the others stay in the list in order");
        REACH("retired with older");
    }
    CHECK(CC.req_list == (n_new == 0 ? (older ? &OLDER : NULL) : head), "retire: leaves the list");
    CHECK(REQ.req_id == -1 && REQ.message_ptr == NULL, "retire: the request is retired");
}
#else
static void vp_rm_loop(req_info_t **temp) { (void)temp; }
/* a connection with up to 6 pending requests and undelivered bytes */
void h_req_remove(void) {
    static unsigned char old[700]; static req_info_t R0[7];
    int n = 1 + nd_below(6); long at[8], sz[8], cm[8], p = 0;
    conn_info_t *c = &conns[3];
    RB = malloc(BUF_SIZE);
    req_init();
    c->recv_buf = RB; c->target.sin_port = 7; c->req_list = NULL;
    req_info_t *rq[8];
    for (int i = 0; i < n; i++) {
        rq[i] = conn_req_add(c);
        at[i] = p; sz[i] = 16 + nd_below(60); cm[i] = at[i] + 12 + nd_below(4);
        for (long k = 0; k < sz[i]; k++) RB[p + k] = nd_u8();
        *(uint32_t *)(RB + p + 4) = sz[i];
        rq[i]->message_ptr = RB + p; rq[i]->curr_cmd = nd_below(5) ? (command_t *)(RB + cm[i]) : NULL;
        rq[i]->fwd_replies_left = nd_below(5);
        p += sz[i];
    }
    long rest = nd_below(50);
    for (long k = 0; k < rest; k++) RB[p + k] = nd_u8();
    c->curr_proc_buf = RB + p; c->curr_recv_buf = RB + p + rest; c->curr_recv_size = BUF_SIZE - p - rest;
    memcpy(old, RB, p + rest);
    int d = nd_below(n);
    for (int i = 0; i < n; i++) R0[i] = *rq[i];
    conn_req_remove(c, rq[d]);
    CHECK(c->curr_recv_buf == RB + p + rest - sz[d] && c->curr_proc_buf == RB + p - sz[d] && c->curr_recv_size == BUF_SIZE - p - rest + sz[d], "retire: positions and free space");
    CHECK(!memcmp(RB + p - sz[d], old + p, rest), "retire: undelivered bytes preserved");
    req_info_t *it = c->req_list, *pv = NULL;
    for (int i = n - 1; i >= 0; i--) {
        if (i == d) continue;
        CHECK(it == rq[i] && it->prev == pv, "retire: the others stay in the list in order");
        long sh = i > d ? sz[d] : 0;
        CHECK(it->message_ptr == RB + at[i] - sh && !memcmp(it->message_ptr, old + at[i], sz[i]), "retire: every request refers to its own bytes");
        CHECK(it->curr_cmd == (R0[i].curr_cmd ? (command_t *)(RB + cm[i] - sh) : NULL), "retire: every newer request refers to its own bytes and next command");
        CHECK(it->req_id == R0[i].req_id && it->conn_id == R0[i].conn_id && it->fwd_replies_left == R0[i].fwd_replies_left, "retire: the others are unchanged");
        pv = it; it = it->next;
    }
    CHECK(it == NULL && rq[d]->req_id == -1, "retire: leaves the list");
    REACH("retired");
}
#endif

/* ----------------------------------------------------------------- adding */
static req_info_t NEWR, HEAD; static int ID; static bool a_fail;
req_info_t *alloc_contract(void) {     /* C04 */
    if (a_fail) return NULL;
    NEWR.req_id = nd_irange(0, 0x7fffffff); NEWR.curr_cmd = NULL; NEWR.fwd_replies_left = -1; NEWR.timeout_node = NULL; NEWR.next = NULL; NEWR.prev = NULL;
    return &NEWR;
}
int id_contract(conn_info_t *c) { CHECK(c == &CC, "add: the given connection"); return ID; }
#ifdef VP_CBMC
void h_req_add(void) {
    HAVOC_OBJ(&CC);
    a_fail = nd_bool(); ID = nd_irange(0, MAX_CONNS - 1);
    bool had = nd_bool();
    HEAD.prev = NULL; HEAD.next = nd_bool() ? &NEWR : NULL; HEAD.req_id = nd_irange(0, 0x7fffffff);
    CC.req_list = had ? &HEAD : NULL;
    c_old = CC; req_info_t h_old = HEAD;
    req_info_t *r = conn_req_add(&CC);
    CHECK(r == (a_fail ? NULL : &NEWR), "add: fails only without a free request");
    CHECK(same_rest() && CC.curr_recv_buf == c_old.curr_recv_buf && CC.curr_recv_size == c_old.curr_recv_size && CC.curr_proc_buf == c_old.curr_proc_buf, "add: the connection is otherwise unchanged");
    CHECK(HEAD.next == h_old.next && HEAD.req_id == h_old.req_id, "add: older requests otherwise unchanged");
    if (r) {
        CHECK(CC.req_list == r && r->next == (had ? &HEAD : NULL) && r->prev == NULL, "add: in front of the older ones");
        CHECK(HEAD.prev == (had ? r : NULL), "add: linked from the older one");
        CHECK(r->conn_id == ID && same_addr(r->target, CC.target), "add: addressed to the connection's current peer");
        CHECK(r->curr_cmd == NULL && r->fwd_replies_left == -1 && r->timeout_node == NULL, "add: no leftover state");
        REACH("added");
    } else {
        CHECK(CC.req_list == c_old.req_list && HEAD.prev == NULL, "add: failure changes nothing");
        REACH("not added");
    }
}
#else
void h_req_add(void) {
    req_init();
    int id = nd_below(MAX_CONNS), k = nd_below(5);
    conn_info_t *c = &conns[id];
    c->req_list = NULL;
    req_info_t *prev = NULL;
    for (int i = 0; i <= k; i++) {
        c->target.sin_port = nd_u16(); c->target.sin_addr.s_addr = nd_u32();
        if (nd_below(6) == 0) reqs[last_reqs % MAX_REQS].req_id = last_reqs + 77;
        bool full = reqs[last_reqs % MAX_REQS].req_id != -1;
        req_info_t *r = conn_req_add(c);
        CHECK((r == NULL) == full, "add: fails only without a free request");
        CHECK(c->req_list == (r ? r : prev), "add: in front of the older ones");
        if (!r) continue;
        CHECK(r->next == prev && r->prev == NULL && (!prev || prev->prev == r), "add: in front of the older ones");
        CHECK(r->conn_id == id && same_addr(r->target, c->target), "add: addressed to the connection's current peer");
        prev = r;
    }
    REACH("added");
}
#endif
void h_conn_id(void) {
    uint32_t i = nd_below(MAX_CONNS);
    conn_info_t *c = conn_get_by_id((int)i);
    CHECK(c == &conns[i], "the connection with that number");
    CHECK(conn_get_id_by_ptr(c) == (int)i, "the number of a connection");
    REACH("id");
}
#pragma CPROVER check pop
