/* C26: the client's sender (thread_sender, idx in dw_client.c).  Composing,
 * encoding, sampling and sending go to the contracts below, natively too. */
#include "vp.h"
#include "vp_sys.h"
#include "distrib.h"
#include "message.h"
#include "connection.h"
#include "timespec.h"
#include "address_utils.h"
#include "queue.h"
#include "dw_debug.h"
static message_t *vp_compose(conn_info_t *c);
static double vp_sample(pd_spec_t *p);
static int vp_start_send(conn_info_t *c, struct sockaddr_in target);
static int vp_send(conn_info_t *c);
static conn_info_t *vp_conn(int id);
static int vp_clock(clockid_t id, struct timespec *t);
static int vp_sleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem);
#define conn_send_message vp_compose
#define ccmd_dump vp_encode
#define pd_sample vp_sample
#define conn_start_send vp_start_send
#define conn_send vp_send
#define conn_get_by_id vp_conn
#define clock_gettime vp_clock
#define clock_nanosleep vp_sleep
#define prctl(...) 0
#define pd_init(s) ((void)0)
#undef sprintf
#define sprintf(...) ((void)0)
#ifdef VP_CBMC
#undef assert
#define assert(c) CHECK(c, "assertion of the program holds")
#endif
#define main client_main
#ifdef VP_NATIVE
#pragma weak conn_init
#pragma weak req_init
#pragma weak pd_str
#pragma weak pd_len
#pragma weak pd_avg
#pragma weak pd_parse
#pragma weak pd_parse_time
#pragma weak pd_parse_bytes
#pragma weak ccmd_log
#pragma weak ccmd_init
#pragma weak ccmd_add
#pragma weak ccmd_destroy
#pragma weak conn_alloc
#pragma weak conn_free
#pragma weak conn_recv
#pragma weak conn_next_message
#pragma weak conn_set_status_by_id
#pragma weak addr_parse
#pragma weak addr_proto_parse
#pragma weak queue_alloc
#pragma weak queue_free
#pragma weak queue_enqueue
#pragma weak queue_dequeue_tail
#endif
#include "dw_client.c"
#undef main

#define G 1000000000L
#define SMAX (1L << 31)
static thread_data_t TD;
static conn_info_t C0;
static union { message_t m; unsigned char b[64]; } MB;
static int n_sent, n_comp; static bool encoded, failed, closed_;
static uint32_t space, need; static double size_; static bool sampled;
static struct timespec last; static bool read_;          /* the last clock reading */
static long last_us;                                     /* ... relative to the start, in microseconds (C03) */
static int W; static long WV;                            /* some request; its recorded time */
static int SESS;                                         /* slot of the first request */

static struct timespec any_ts(void) {
    struct timespec t;
    t.tv_sec = nd_range(0, SMAX);
    t.tv_nsec = nd_range(0, G - 1);
    return t;
}
static int vp_clock(clockid_t id, struct timespec *t) {
    (void)id;
    *t = any_ts();
#ifdef VP_NATIVE
    t->tv_sec = ts_start.tv_sec + nd_below(1000); if (t->tv_sec == ts_start.tv_sec) t->tv_nsec = ts_start.tv_nsec;
#endif
    ASSUME(t->tv_sec > ts_start.tv_sec || (t->tv_sec == ts_start.tv_sec && t->tv_nsec >= ts_start.tv_nsec));
    last = *t; read_ = true;
#ifdef VP_CBMC
    last_us = nd_range(0, 1L << 52);
#else
    last_us = ts_sub_us(last, ts_start);
#endif
    return 0;
}
static int vp_sleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem) { (void)id; (void)flags; (void)t; (void)rem; return 0; }
static conn_info_t *vp_conn(int id) { CHECK(id == TD.conn_id, "sender: its own connection"); return &C0; }
/* C06: room for a message behind what is waiting, or none */
static message_t *vp_compose(conn_info_t *c) {
    CHECK(c == &C0, "sender: its own connection");
    encoded = sampled = read_ = false;
    if (nd_below(20) == 0) { failed = true; return NULL; }
    space = (uint32_t)nd_range(sizeof(message_t), BUF_SIZE);
    MB.m.req_id = nd_u32(); MB.m.req_size = space;
    n_comp++;
    return &MB.m;
}
/* C09: the command list, or failure if it does not fit */
int vp_encode(ccmd_t *q, message_t *m) {
    CHECK(q == ccmd && m == &MB.m, "sender: its command list in the composed message");
    CHECK(m->req_size <= space && n_comp > n_sent, "sender: encoded within the space");
    need = (uint32_t)nd_range(sizeof(message_t) + sizeof(command_t), 1 << 24);
    if (m->req_size < need) { m->req_size = nd_below(m->req_size + 1); failed = true; return -1; }
    m->req_size -= need;
    encoded = true;
    return 1;
}
static double vp_sample(pd_spec_t *p) {
    if (p == &send_pkt_size_pd) {
#ifdef VP_CBMC
        size_ = nd_double();
#else
        size_ = nd_below(2) ? nd_below(4096) : nd_below(1 << 25);
#endif
        ASSUME(size_ >= 0 && size_ <= 0x1p31);
        sampled = true;
        /* more than fits is not sent */
        if (size_ > space) failed = true;
        return size_;
    }
    if (p == &send_period_us_pd || p == &send_rate_pd) return 1 + nd_below(1000000);
    CHECK(0, "sender: samples its own quantities");
    return 0;
}
static int slot(int id) { return SESS + (id - TD.first_pkt_id); }
static int give(uint32_t n) {                            /* what the socket takes: some, nothing, or an error */
    int r = nd_irange(0, 7);
    if (r == 0) { failed = true; return -1; }
    if (r == 1) { failed = closed_ = true; C0.status = CLOSE; return 0; }
    if (r == 2) return 0;
    uint32_t k = (uint32_t)nd_range(1, n);
    C0.curr_send_size -= k;
    return (int)k;
}
static int vp_start_send(conn_info_t *c, struct sockaddr_in t) {
    CHECK(c == &C0 && C0.curr_send_size == 0 && t.sin_port == C0.target.sin_port && t.sin_addr.s_addr == C0.target.sin_addr.s_addr, "sender: to its peer, the request before it sent completely");
    CHECK(n_comp == n_sent + 1 && encoded, "sender: every request with its command list");
    CHECK(MB.m.req_id == (uint32_t)(TD.first_pkt_id + n_sent), "sender: consecutive request ids from the first");
    CHECK(sampled && MB.m.req_size == (size_ < need ? need : (uint32_t)size_), "sender: the configured size, but at least that of the commands");
    CHECK(MB.m.req_size <= space, "sender: within the space of the message");
    CHECK(read_ && usecs_send[TD.thread_id][slot(TD.first_pkt_id + n_sent)] == last_us, "sender: the send time recorded for its own request");
    CHECK(usecs_elapsed[TD.thread_id][slot(TD.first_pkt_id + n_sent)] == 0, "sender: no latency before a reply");
    if (n_sent == W) WV = usecs_send[TD.thread_id][slot(TD.first_pkt_id + W)];
    n_sent++;
    C0.curr_send_size = MB.m.req_size;
    return give(MB.m.req_size);
}
static int vp_send(conn_info_t *c) {
    CHECK(c == &C0 && C0.curr_send_size > 0 && !failed, "sender: sends on only what is waiting");
    return give((uint32_t)C0.curr_send_size);
}
#ifdef VP_CBMC
int idx_contract(int id) {                               /* unit idx */
    CHECK(id >= TD.first_pkt_id - 1 && id < TD.first_pkt_id + TD.num_send_pkts, "sender: an own request's record, or the one before");
    if (id < TD.first_pkt_id) { CHECK(id >= 0, "sender: an own request's record, or the one before"); return nd_irange(0, MAX_PKTS - 1); }
    return slot(id);
}
static bool same_ts(struct timespec a, struct timespec b) { return a.tv_sec == b.tv_sec && a.tv_nsec == b.tv_nsec; }
long sub_us_contract(struct timespec a, struct timespec b) { return read_ && same_ts(a, last) && same_ts(b, ts_start) ? last_us : nd_long(); }
struct timespec add_contract(struct timespec a, struct timespec b) {
    CHECK(a.tv_nsec >= 0 && a.tv_nsec < G && b.tv_nsec >= 0 && b.tv_nsec < G, "sender: times are normalised");
    return any_ts();
}
int leq_contract(struct timespec a, struct timespec b) { return nd_bool(); }
static bool s_seen, g_seen, r_seen, p_seen;
static void vp_s_loop(int *i, struct timespec *now) {
    if (!s_seen) {
        s_seen = true;
        CHECK(*i == 0 && n_sent == 0, "sender: starts with the first");
        *i = nd_irange(0, TD.num_send_pkts); n_sent = n_comp = *i;
        *now = any_ts(); ASSUME(now->tv_nsec < G);
        send_period_us_pd.val = nd_double();
        if (W < n_sent) WV = usecs_send[TD.thread_id][slot(TD.first_pkt_id + W)];
        REACH("sender loop");
    } else {
        CHECK(*i == n_sent && *i <= TD.num_send_pkts, "sender: one request per round");
        CHECK(!failed && C0.curr_send_size == 0, "sender: goes on only after the request is sent completely");
        CHECK(now->tv_nsec >= 0 && now->tv_nsec < G, "sender: the next time is normalised");
        if (W < n_sent) CHECK(usecs_send[TD.thread_id][slot(TD.first_pkt_id + W)] == WV, "sender: recorded times stay");
        STOP();
    }
}
static void vp_g_loop(int *sent) {
    if (!g_seen) {
        g_seen = true;
        if (!failed) { C0.curr_send_size = nd_u32(); ASSUME(C0.curr_send_size <= MB.m.req_size); *sent = nd_irange(0, BUF_SIZE); }
    } else STOP();
}
static void vp_r_loop(int *a) {
    if (!r_seen) { r_seen = true; *a = nd_int(); ASSUME(*a < 0x7fffffff); send_period_us_pd.val = nd_double(); } else STOP();
}
static void vp_p_loop(void) { if (p_seen) STOP(); p_seen = true; }
#endif
static long *SA, *EA;
static void tables(int t) {
#ifdef VP_CBMC
    int n = nd_irange(MAX_PKTS, 1 << 28);         /* not a constant, else the tables are taken apart */
    SA = __CPROVER_allocate(n * sizeof *SA, 0); EA = __CPROVER_allocate(n * sizeof *EA, 0);
#else
    SA = calloc(MAX_PKTS, sizeof(long)); EA = calloc(MAX_PKTS, sizeof(long));
    for (int i = 0; i < 128; i++) EA[i] = 7;
#endif
    usecs_send[t] = SA; usecs_elapsed[t] = EA;
}
void h_sender(void) {
    n_sent = n_comp = 0; failed = closed_ = encoded = false;
    TD.thread_id = nd_irange(0, MAX_THREADS - 1);
    TD.conn_id = nd_irange(0, MAX_CONNS - 1);
    use_per_session_output = nd_bool(); use_wait_spinning = nd_bool();
    ramp_step_secs = nd_bool() ? nd_irange(1, 100000) : 0;
#ifdef VP_NATIVE
    TD.num_send_pkts = nd_below(20);
    use_wait_spinning = 0;               /* the clock stub does not advance */
    pkts_per_session = TD.num_send_pkts ? TD.num_send_pkts : 1;
    TD.first_pkt_id = pkts_per_session * nd_below(5);
#else
    TD.num_send_pkts = nd_irange(0, MAX_PKTS); TD.first_pkt_id = nd_irange(0, MAX_PKTS);
#endif
    ASSUME(TD.first_pkt_id + TD.num_send_pkts <= MAX_PKTS);
    SESS = use_per_session_output ? 0 : TD.first_pkt_id;
    W = nd_irange(0, MAX_PKTS - 1);
    ts_start = any_ts(); ASSUME(ts_start.tv_sec < SMAX);
    tables(TD.thread_id);
    C0.status = READY; C0.curr_send_size = 0;
    C0.target.sin_port = nd_u16(); C0.target.sin_addr.s_addr = nd_u32();
    thread_sender(&TD);
    CHECK(failed || n_sent == TD.num_send_pkts, "sender: every request of the session, unless sending fails");
    CHECK(failed || C0.curr_send_size == 0, "sender: every request completely");
    if (W < n_sent) CHECK(SA[slot(TD.first_pkt_id + W)] == WV, "sender: recorded times stay");
    REACH("sender ends");
#ifdef VP_NATIVE
    free(SA); free(EA);
#endif
}
void h_idx(void) {
    int id = nd_irange(0, 0x7fffffff);
    use_per_session_output = nd_bool();
    pkts_per_session = (uint64_t)nd_range(1, MAX_PKTS);
    ASSUME(use_per_session_output || id < MAX_PKTS);
    int r = idx(id);
    CHECK(r >= 0 && r < MAX_PKTS, "idx: within the table");
    if (!use_per_session_output) CHECK(r == id, "idx: the request's own record");
    else if ((unsigned long)id < pkts_per_session) CHECK(r == id, "idx: the request's place in its session");
    if (use_per_session_output) CHECK((unsigned long)r == (unsigned long)id % pkts_per_session, "idx: the request's place in its session");
    REACH("idx");
}
