/* C13, C14: pending forward timeouts of a worker.
 *
 * Time is counted in whole microseconds.  The keys of the pending timeouts
 * count from an origin they share; the time elapsed since it is the key of the
 * earliest one minus what is left on the timer.  The time left of a pending
 * timeout is its key minus that. */
#include "vp.h"
#define VP_TIMERFD
#include "vp_sys.h"
#include "vp_node.h"

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"

#define TFD 17
#define MAXUS (1 << 29)
static conn_worker_info_t WI;
static bool t_on; static int t_left;     /* the timer: armed or expired, time left */
static bool t_set;

#ifdef VP_CBMC
/* The pending timeouts: the request's own (NA), an arbitrary other one (NB),
 * and whichever other one is the earliest (NC).  Contract of the queue: C02. */
static pqueue_t PQ; static node_t NA, NB, NC, *q_top, *q_seen;
static bool in_a, in_b; static int q_size;
static req_info_t REQ; static bool live; static int RID;
static int b_key0, removals, inserts; static node_t *removed;

static void top_some(int atleast) {      /* the earliest of those pending */
    if (q_size <= 0) { q_top = NULL; return; }
    uint8_t w = nd_u8();
    q_top = w == 0 ? &NA : w == 1 ? &NB : &NC;
    ASSUME(q_top != &NA || in_a);
    ASSUME(q_top != &NB || in_b);
    if (q_top == &NC) {
        ASSUME(q_size > (in_a ? 1 : 0) + (in_b ? 1 : 0));
        int k = nd_int(); ASSUME(k >= atleast && k <= MAXUS * 2); NC.key = k;
        uint32_t v = nd_u32(); NC.data.value = v; ASSUME((int)v != RID);
    }
    ASSUME(!in_a || q_top->key <= NA.key);
    ASSUME(!in_b || q_top->key <= NB.key);
}
int size_contract(pqueue_t *q) { CHECK(q == &PQ, "the worker's timeouts"); return q_size; }
node_t *top_contract(pqueue_t *q) { CHECK(q == &PQ, "the worker's timeouts"); return q_top; }
void remove_contract(pqueue_t *q, node_t *n) {
    CHECK(q == &PQ, "the worker's timeouts");
    CHECK(n != NULL && ((n == &NA && in_a) || (n == &NB && in_b) || (n == &NC && q_top == &NC)), "removes a pending timeout");
    ASSUME(n != NULL);
    int low = q_top->key; bool was_top = n == q_top;
    removals++; removed = n;
    if (n == &NA) in_a = false;
    if (n == &NB) in_b = false;
    q_size--;
    if (was_top) top_some(low);
}
node_t *insert_contract(pqueue_t *q, int key, data_t data) {
    CHECK(q == &PQ, "the worker's timeouts");
    CHECK(!in_a, "a request waits on one timeout at a time");
    CHECK((int)data.value == RID, "arming: remembers the request");
    ASSUME(q_size < MAX_REQS);
    int low = q_size > 0 ? q_top->key : key;
    inserts++;
    in_a = true; NA.key = key; NA.data = data; q_size++;
    if (q_size == 1) q_top = &NA;
    else if (key < low || (key == low && nd_bool())) q_top = &NA;
    return &NA;
}
req_info_t *get_contract(int id) {       /* C04 */
    return live && id == RID ? &REQ : NULL;
}
static int e0;                           /* time elapsed since the origin */
static int a_left0, b_left0, size0, left0; static bool on0, in_a0, in_b0;
static long got_s, got_n, put_s, put_n; static int got_us, put_us;
static int vp_timerfd_gettime(int fd, struct itimerspec *t) {
    CHECK(fd == TFD, "the worker's timer");
    int s = nd_int(), u = nd_int();
    ASSUME(s >= 0 && s <= 2000 && u >= 0 && u < 1000000);
    ASSUME(s * 1000000 + u == (t_on ? t_left : 0));
    t->it_interval.tv_sec = 0; t->it_interval.tv_nsec = 0;
    t->it_value.tv_sec = s; t->it_value.tv_nsec = u * 1000;
    got_s = s; got_n = u * 1000; got_us = t_on ? t_left : 0;
    return 0;
}
/* conversions are exact (C03); the value read last and the one converted last are kept to spare the verifier the divisions */
int to_us_contract(struct itimerspec t) {
    if (t.it_value.tv_sec == got_s && t.it_value.tv_nsec == got_n) return got_us;
    return (int)(t.it_value.tv_sec * 1000000 + t.it_value.tv_nsec / 1000);
}
struct itimerspec to_its_contract(int us) {
    CHECK(us >= 0, "timer: set to a time that is not past");
    struct itimerspec t = {0};
    int s = nd_int(), u = nd_int();
    ASSUME(s >= 0 && s <= 2147 && u >= 0 && u < 1000000 && s * 1000000L + u == us);
    t.it_value.tv_sec = s; t.it_value.tv_nsec = u * 1000;
    put_s = s; put_n = u * 1000; put_us = us;
    return t;
}
static int vp_timerfd_settime(int fd, int flags, const struct itimerspec *t, struct itimerspec *old) {
    CHECK(fd == TFD && flags == 0, "timer: relative setting of the worker's timer");
    CHECK(t->it_interval.tv_sec == 0 && t->it_interval.tv_nsec == 0, "timer: fires once");
    CHECK(t->it_value.tv_sec >= 0 && t->it_value.tv_nsec >= 0 && t->it_value.tv_nsec < 1000000000L, "timer: a valid time");
    t_on = t->it_value.tv_sec != 0 || t->it_value.tv_nsec != 0;
    t_left = t->it_value.tv_sec == put_s && t->it_value.tv_nsec == put_n ? put_us : (int)(t->it_value.tv_sec * 1000000 + t->it_value.tv_nsec / 1000);
    t_set = true;
    /* already due: postponed, with all the others, by the shortest setting there is */
    if (q_size > 0 && q_top->key == e0 && t_left == 1) { e0--; b_left0++; }
    return 0;
}
static void any_timeouts(void) {
    WI.timeout_queue = &PQ; WI.timerfd = TFD; WI.time_elapsed = nd_int(); WI.epollfd = nd_int();
    WI.active_reqs = nd_irange(-1000, 1 << 20); WI.active_conns = nd_int();
    q_size = nd_irange(0, MAX_REQS - 1); in_a = nd_bool(); in_b = nd_bool();
    ASSUME(q_size >= (in_a ? 1 : 0) + (in_b ? 1 : 0));
    RID = nd_irange(0, 0x7fffffff); live = nd_bool();
    NA.key = nd_irange(1, MAXUS * 2); NB.key = nd_irange(1, MAXUS * 2); NC.key = nd_irange(1, MAXUS * 2);
    NA.data.value = (uint64_t)(int64_t)RID; NB.data.value = nd_u32();
    ASSUME((int)NB.data.value != RID);
    top_some(1);
    REQ.req_id = RID; REQ.timeout_node = in_a ? &NA : NULL;
    REQ.conn_id = nd_irange(0, MAX_CONNS - 1); REQ.fwd_replies_left = nd_irange(-1, 255);
    /* the timer expires when the earliest deadline is due; off without timeouts */
    t_left = nd_int(); t_on = q_size > 0;
    ASSUME(q_size > 0 ? t_left >= 0 && t_left <= MAXUS && t_left <= q_top->key : t_left == 0);
    e0 = q_size > 0 ? q_top->key - t_left : 0;
    a_left0 = NA.key - e0; b_left0 = NB.key - e0; size0 = q_size; left0 = t_left; on0 = t_on; in_a0 = in_a; in_b0 = in_b;
    t_set = false;
}
/* e: time elapsed since the origin of the keys now pending */
static void timer_inv(int e) {
    CHECK(t_on == (q_size > 0), "timer: on exactly while timeouts are pending");
    if (q_size > 0) {
        int want = q_top->key - e;
        CHECK(t_left == want, "timer: expires when the earliest pending deadline is due");
    }
}
static void others_kept(int e) {
    CHECK(in_b == in_b0 && NB.data.value != (uint64_t)(int64_t)RID, "other timeouts stay pending");
    if (in_b) CHECK(NB.key - e == b_left0, "other timeouts keep their deadline");
}
static void none_changed(void) {
    CHECK(removals == 0 && inserts == 0 && !t_set && q_size == size0, "nothing changes");
}
void h_insert(void) {
    any_timeouts();
    int us = nd_irange(1, MAXUS), id = nd_bool() ? RID : nd_int();
    insert_timeout(&WI, id, WI.epollfd, us);
    if (!live || id != RID) { none_changed(); REACH("no such request"); return; }
    CHECK(in_a && REQ.timeout_node == &NA && inserts == 1, "arming: the request's timeout is pending");
    CHECK(q_size == size0 + (in_a0 ? 0 : 1), "arming: adds one, replacing the request's own");
    int e = size0 - (in_a0 ? 1 : 0) == 0 ? 0 : e0;
    CHECK(NA.key - e == us, "arming: due after the given time");
    others_kept(e);
    timer_inv(e);
    CHECK(WI.timeout_queue == &PQ && WI.timerfd == TFD, "arming: the worker is otherwise unchanged");
    if (q_top == &NA) REACH("earliest"); else REACH("not earliest");
}
void h_remove(void) {
    any_timeouts();
    int id = nd_bool() ? RID : nd_int();
    int r = remove_timeout(&WI, id, WI.epollfd);
    if (!live || id != RID || !in_a0) { none_changed(); CHECK(r == -1, "cancelling: harmless when none is pending"); REACH("none pending"); return; }
    CHECK(!in_a && REQ.timeout_node == NULL && removals == 1 && inserts == 0 && removed == &NA && q_size == size0 - 1, "cancelling: removes only that one");
    CHECK(r == a_left0, "cancelling: reports the time that was left");
    others_kept(e0);
    timer_inv(e0);
    REACH("cancelled");
}
/* ---------------------------------------------------------------- expiry */
static union { message_t m; unsigned char b[64]; } MSG, MSG0;
static union { command_t c; unsigned char b[64]; } FWD, SKIPTO;
#define OPT ((fwd_opts_t *)FWD.c.opts)
static int processed, dropped, skipped, retries0, skip0, left_acks0, active0; static int8_t status0; static command_type_t type0;
static bool stale;
/* executing the request again may do anything to it: C15 */
int process_contract(req_info_t *req, int epollfd, conn_worker_info_t *infos) {
    CHECK(req == &REQ && epollfd == WI.epollfd && infos == &WI, "expiry: concerns the request whose deadline expired");
    CHECK(removals == 1 && removed == &NA && REQ.timeout_node == NULL, "expiry: consumed before the request goes on");
    CHECK(dropped == 0, "expiry: a dropped request does not go on");
    processed++;
    CHECK(type0 == FORWARD && !stale && (retries0 > 0 || skip0 > 0), "expiry: only a waiting forward goes on");
    if (retries0 > 0) {
        CHECK(REQ.curr_cmd == &FWD.c, "retry: the forward is sent again");
        CHECK(OPT->retries == retries0 - 1, "retry: the retry count decreases by one");
        CHECK(MSG.m.status == status0 && REQ.fwd_replies_left == left_acks0, "retry: the status is kept");
    } else {
        CHECK(REQ.curr_cmd == &SKIPTO.c && skipped == 1, "failure: continues after the skipped steps");
        CHECK(MSG.m.status != 0 && MSG.m.status == -1, "failure: status marked failed");
        CHECK(REQ.fwd_replies_left == -1, "failure: no longer waits for acknowledgements");
    }
    return nd_irange(-1, 1);
}
command_t *skip_contract(message_t *m, command_t *cmd, int n) {   /* C10 */
    CHECK(m == &MSG.m && cmd == &FWD.c && n == skip0, "failure: skips exactly the configured steps from the forward");
    skipped++;
    return &SKIPTO.c;
}
req_info_t *drop_contract(conn_info_t *conn, req_info_t *req) {   /* C08 */
    CHECK(conn == &conns[REQ.conn_id] && req == &REQ && live, "drop: the request from its connection");
    dropped++; live = false;
    REQ.req_id = -1; REQ.message_ptr = NULL; REQ.curr_cmd = NULL; REQ.conn_id = nd_int(); HAVOC_OBJ(&MSG);
    return NULL;
}
void h_handle(void) {
    any_timeouts();
    HAVOC_OBJ(&MSG); HAVOC_OBJ(&FWD);
    REQ.message_ptr = MSG.b; REQ.curr_cmd = &FWD.c;
    if (q_size > 0) ASSUME(q_top == &NA);              /* the earliest is the one that expires */
    stale = !live || nd_bool();
    if (live && stale) REQ.timeout_node = nd_bool() ? &NB : NULL;
    int rc = REQ.conn_id; (void)rc;
    type0 = FWD.c.cmd; retries0 = OPT->retries; skip0 = OPT->on_fail_skip; status0 = MSG.m.status; left_acks0 = REQ.fwd_replies_left; active0 = WI.active_reqs;
    ASSUME((uint32_t)type0 <= EOM);
    MSG0 = MSG; req_info_t r0 = REQ; fwd_opts_t o0 = *OPT;
    handle_timeout(WI.epollfd, &WI);
    if (size0 == 0) { none_changed(); CHECK(!processed && !dropped, "expiry: nothing without a timeout"); REACH("no timeout"); return; }
    if (left0 > 0) { none_changed(); CHECK(!processed && !dropped && REQ.timeout_node == r0.timeout_node, "expiry: never before the deadline"); REACH("not due"); return; }
    CHECK(removals == 1 && removed == &NA && inserts == 0 && q_size == size0 - 1, "expiry: consumes its timeout, and only that");
    others_kept(e0);
    timer_inv(e0);
    CHECK(WI.active_reqs == active0 - dropped, "expiry: a dropped request is no longer active");
    CHECK(OPT->pkt_size == o0.pkt_size && OPT->timeout == o0.timeout && OPT->on_fail_skip == o0.on_fail_skip && OPT->fwd_host == o0.fwd_host && OPT->fwd_port == o0.fwd_port, "expiry: the forward is otherwise unchanged");
    if (stale || type0 != FORWARD) {
        CHECK(!processed && !dropped, "expiry: a request that moved on or disappeared is left alone");
        CHECK(REQ.curr_cmd == r0.curr_cmd && REQ.fwd_replies_left == r0.fwd_replies_left && REQ.message_ptr == r0.message_ptr && MSG.m.status == status0 && MSG.m.req_id == MSG0.m.req_id && OPT->retries == retries0, "expiry: a request that moved on or disappeared is left alone");
        if (stale) { CHECK(REQ.timeout_node == r0.timeout_node, "expiry: another timeout of the request stays"); REACH("stale"); }
        return;
    }
    CHECK(processed == (retries0 > 0 || skip0 > 0 ? 1 : 0), "expiry: goes on once while retries or a failure skip are left");
    CHECK(dropped == (retries0 > 0 || skip0 > 0 ? 0 : 1), "expiry: dropped once otherwise");
    if (retries0 > 0) REACH("retried"); else if (skip0 > 0) REACH("skipped"); else REACH("dropped");
}
#else
static int now_us, t_due;                /* simulated clock and timer */
static int vp_timerfd_gettime(int fd, struct itimerspec *t) {
    long l = t_on && t_due > now_us ? t_due - now_us : 0;
    memset(t, 0, sizeof *t);
    t->it_value.tv_sec = l / 1000000; t->it_value.tv_nsec = l % 1000000 * 1000;
    return 0;
}

/* random histories against real queue and requests, with a simulated clock */
#define NR 12
static struct { int id, due; bool on; } G[NR]; static int cur;
static void native_setup(void) {
    req_init();
    WI.timeout_queue = pqueue_alloc(64); WI.timerfd = TFD; WI.active_reqs = 100;
    t_on = false; now_us = 0;
    for (int i = 0; i < NR; i++) {
        int skip = nd_below(5);
        while (skip--) { req_info_t *x = req_alloc(); req_free(x); }
        req_info_t *r = req_alloc(); G[i].id = r->req_id; G[i].on = false;
    }
}
static int earliest(void) { int b = -1; for (int i = 0; i < NR; i++) if (G[i].on && (b < 0 || G[i].due < G[b].due)) b = i; return b; }
static void native_inv(void) {
    int b = earliest(), n = 0;
    for (int i = 0; i < NR; i++) n += G[i].on;
    CHECK(pqueue_size(WI.timeout_queue) == n, "exactly the timeouts armed are pending");
    CHECK(t_on == (b >= 0), "timer: on exactly while timeouts are pending");
    if (b >= 0) CHECK(t_due == G[b].due || (G[b].due <= now_us && t_due <= now_us + 1), "timer: expires when the earliest pending deadline is due");
    for (int i = 0; i < NR; i++) { req_info_t *r = req_get_by_id(G[i].id); if (r) CHECK((r->timeout_node != NULL) == G[i].on, "the request's timeout is pending"); }
}
static int vp_timerfd_settime(int fd, int flags, const struct itimerspec *t, struct itimerspec *old) {
    CHECK(fd == TFD && flags == 0 && t->it_interval.tv_sec == 0 && t->it_interval.tv_nsec == 0, "timer: fires once");
    CHECK(t->it_value.tv_sec >= 0 && t->it_value.tv_nsec >= 0 && t->it_value.tv_nsec < 1000000000L, "timer: a valid time");
    t_on = t->it_value.tv_sec || t->it_value.tv_nsec;
    t_due = now_us + t->it_value.tv_sec * 1000000 + t->it_value.tv_nsec / 1000;
    /* already due: postponed, with all the others, by the shortest setting there is */
    bool on = G[cur].on;
    G[cur].on = false;
    int b = earliest();
    if (b >= 0 && G[b].due <= now_us && t_due == now_us + 1)
        for (int i = 0; i < NR; i++) if (i != cur) G[i].due++;
    G[cur].on = on;
    return 0;
}
static void native_arm(int i, int us) {
    insert_timeout(&WI, G[i].id, 3, us);
    G[i].on = true; G[i].due = now_us + us;
}
static void h_history(void) {
    native_setup();
    int ops = 5 + nd_below(40);
    while (ops--) {
        int i = cur = nd_below(NR), b = earliest();
        switch (nd_below(4)) {
        case 0: case 1: native_arm(i, 1 + (nd_below(4) ? (int)nd_below(50) : (int)nd_below(3000000))); break;
        case 2: {
            int left = G[i].due - now_us, was = G[i].on;
            int r = remove_timeout(&WI, nd_below(8) ? G[i].id : G[i].id + (int)MAX_REQS, 3);
            if (r == -1 && !was) break;
            if (r == -1 && req_get_by_id(G[i].id)->timeout_node) break;
            CHECK(was && r == left, "cancelling: reports the time that was left");
            G[i].on = false; break; }
        default:                          /* time passes, never beyond a due deadline */
            if (b >= 0) { int d = nd_below(60); if (now_us + d > G[b].due) d = G[b].due - now_us; if (d > 0) now_us += d; }
            else now_us += nd_below(100);
        }
        native_inv();
    }
    REACH("history");
}
void h_insert(void) { h_history(); }
void h_remove(void) { h_history(); }
#endif
#pragma CPROVER check pop
