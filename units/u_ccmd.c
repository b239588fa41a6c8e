/* C09: encoding a configured list into a message; C10: skipping in a
 * configured list.  The list is of arbitrary length; the code reaches a node
 * only through the list head or another node's next, so at each loop head the
 * current node and its two successors are fresh objects with arbitrary content. */
#include "vp.h"
#include "vp_sys.h"
static int vp_drand48_r(struct drand48_data *b, double *x);
#define drand48_r vp_drand48_r
#include "ccmd.h"
#define __CCMD_H__                    /* what its include guard tests */
static double vp_pd_sample(pd_spec_t *p);
#define pd_sample vp_pd_sample
static char *vp_pd_str(pd_spec_t *p);
#define pd_str vp_pd_str
static void vp_cskip_loop(ccmd_node_t **itr, int *skipped);
static void vp_cstep_loop(ccmd_node_t **itr, int *nested);
static void vp_crun_loop(ccmd_node_t **itr);
static void vp_dump_loop(message_t *m, ccmd_node_t **itr, command_t **out);
#ifdef VP_CBMC
#define sprintf(...) 0
#endif
#include "ccmd.c"
#include "message.c"
#undef sprintf
__thread struct drand48_data rnd_buf;

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
static char *vp_pd_str(pd_spec_t *p) { (void)p; return ""; }
static int tsz(int t) {
    switch (t) {
    case REPLY: return 4 + sizeof(reply_opts_t);
    case MULTI_FORWARD: case FORWARD: return 4 + sizeof(fwd_opts_t);
    case COMPUTE: return 4 + sizeof(comp_opts_t);
    case LOAD: return 4 + sizeof(load_opts_t);
    case STORE: return 4 + sizeof(store_opts_t);
    }
    return 4;
}
static bool isf(int t) { return t == FORWARD || t == MULTI_FORWARD; }

/* ---------------------------------------------------------- skipping (C10) */
#define ENDL 99                        /* type of the place behind the list */
#ifdef VP_CBMC
int __CPROVER_uninterpreted_T(long i);
long __CPROVER_uninterpreted_D(long i);
#define T(i) __CPROVER_uninterpreted_T(i)
#define D(i) __CPROVER_uninterpreted_D(i)
#else
static int T_[64]; static long D_[64];
#define T(i) T_[i]
#define D(i) D_[i]
#endif
static long len, start, w; static int n_skip; static long k_done;
static long enters(long i) { return T(i) == FORWARD || (T(i) == MULTI_FORWARD && T(i + 1) != MULTI_FORWARD); }
static bool boundary(long i) { return i == 0 || !(T(i - 1) == MULTI_FORWARD && T(i) == MULTI_FORWARD); }
static bool is_step(long a, long e) {
    if (!isf(T(a))) return e == a + 1;
    if (e <= a || e > len) return false;
    if (e != len && D(e) > D(a)) return false;
    if (e != len && T(e - 1) != REPLY) return false;
    return !(w > a && w < e && boundary(w)) || D(w) > D(a);
}
#ifdef VP_CBMC
static void at1(long i) {
    if (i < 0 || i > len) return;
    ASSUME(i == len ? T(i) == ENDL : T(i) >= COMPUTE && T(i) <= REPLY);
    ASSUME(D(i) <= i && D(i) >= -i);
    if (i == 0) ASSUME(D(i) == 0);
    if (i < len) ASSUME(D(i + 1) == D(i) + enters(i) - (T(i) == REPLY));
}
static void at(long i) { at1(i); at1(i + 1); at1(i + 2); }
#endif
typedef struct { ccmd_node_t n[3]; } win_t;    /* nodes i, i+1, i+2 of the list */
static win_t WA, WB, WC;
static ccmd_node_t *window(win_t *x, long i) {
    for (int k = 0; k < 3; k++) {
        x->n[k].cmd = (command_type_t)T(i + k);
        x->n[k].next = k < 2 && i + k + 1 < len ? &x->n[k + 1] : NULL;
    }
    return i < len ? &x->n[0] : NULL;
}
static long ja, jb, jd; static bool in_run;
static int skip_seen, step_seen, run_seen; static ccmd_node_t *FIRST;
static void unchanged(win_t *x, long i) {
    CHECK(i >= len || (x->n[0].cmd == (command_type_t)T(i) && x->n[0].next == (i + 1 < len ? &x->n[1] : NULL)), "skip: the list is unchanged");
}
static void vp_cskip_loop(ccmd_node_t **itr, int *skipped) {
#ifdef VP_CBMC
    if (!skip_seen) {
        skip_seen = 1;
        CHECK(*itr == FIRST && *skipped == n_skip, "skip loop: starts at the given position");
        k_done = (long)nd_u64(); ja = (long)nd_u64();
        ASSUME(k_done >= 0 && k_done <= (n_skip > 0 ? n_skip : 0) && ja >= start && ja <= len && (k_done > 0 || ja == start));
        at(ja);
        w = (long)nd_u64(); ASSUME(w >= 1 && w <= len);
        at(w - 1);
        *itr = window(&WA, ja); *skipped = (int)(n_skip - k_done);
    } else {
        long e = (in_run ? jd : jb) + 1;
        at(e);
        CHECK(e <= len && *itr == (in_run ? WC : WB).n[0].next, "skip loop: at a node of the list or behind it");
        CHECK(*skipped == n_skip - (k_done + 1), "skip loop: counts one step");
        CHECK(is_step(ja, e), "skip loop: one command, or a forward up to its matching reply");
        unchanged(&WB, jb); if (in_run) unchanged(&WC, jd);
        STOP();
    }
#endif
}
static void vp_cstep_loop(ccmd_node_t **itr, int *nested) {
#ifdef VP_CBMC
    if (!step_seen) {
        step_seen = 1;
        CHECK(*itr == &WA.n[0] && *nested == 0 && ja < len, "step loop: starts in front of the step");
        jb = (long)nd_u64();
        ASSUME(jb >= ja && jb < len);
        at(jb);
        ASSUME(boundary(jb) || jb == ja);
        if (jb > ja) ASSUME(isf(T(ja)) && D(jb) > D(ja));
        ASSUME(!(w > ja && w < jb && boundary(w)) || D(w) > D(ja));
        *itr = window(&WB, jb); *nested = (int)(D(jb) - D(ja));
    } else {
        long e = (in_run ? jd : jb) + 1;
        at(e);
        CHECK(e < len && *itr == (in_run ? WC : WB).n[0].next, "step loop: at a node of the list");
        CHECK(*nested == D(e) - D(ja) && *nested > 0, "step loop: nesting depth");
        CHECK(isf(T(ja)) && boundary(e), "step loop: only a forward takes more than one command");
        CHECK(!(w > ja && w < e && boundary(w)) || D(w) > D(ja), "step loop: the matching reply is not passed");
        unchanged(&WB, jb); if (in_run) unchanged(&WC, jd);
        STOP();
    }
#endif
}
static void vp_crun_loop(ccmd_node_t **itr) {
#ifdef VP_CBMC
    if (!run_seen) {
        run_seen = 1; in_run = true;
        CHECK(*itr == &WB.n[0] && T(jb) == MULTI_FORWARD, "run loop: starts with a multi-forward");
        jd = (long)nd_u64();
        ASSUME(jd >= jb && jd < len);
        at(jd);
        ASSUME(T(jd) == MULTI_FORWARD && D(jd) == D(jb));
        ASSUME(!(w >= jb && w <= jd) || T(w) == MULTI_FORWARD);
        ASSUME(!(w - 1 >= jb && w - 1 <= jd) || T(w - 1) == MULTI_FORWARD);
        *itr = window(&WC, jd);
    } else {
        long e = jd + 1;
        at(e);
        CHECK(e < len && *itr == WC.n[0].next && T(e) == MULTI_FORWARD && D(e) == D(jb), "run loop: stays within the run");
        CHECK((!(w >= jb && w <= e) || T(w) == MULTI_FORWARD) && (!(w - 1 >= jb && w - 1 <= e) || T(w - 1) == MULTI_FORWARD), "run loop: only multi-forwards so far");
        unchanged(&WC, jd);
        STOP();
    }
#endif
}
static const int kinds[] = { COMPUTE, STORE, LOAD, FORWARD, MULTI_FORWARD, REPLY, FORWARD, MULTI_FORWARD, REPLY, REPLY, MULTI_FORWARD, REPLY, PSKIP };
#ifdef VP_NATIVE
static ccmd_node_t *NODES; static ccmd_t Q;
static void native_list(void) {
    len = nd_below(20);
    NODES = calloc(len + 1, sizeof *NODES);
    for (long i = 0; i < len; i++) T(i) = kinds[nd_below(13)];
    T(len) = T(len + 1) = ENDL;
    D(0) = 0;
    for (long i = 0; i < len; i++) {
        D(i + 1) = D(i) + enters(i) - (T(i) == REPLY);
        NODES[i].cmd = T(i); NODES[i].next = i + 1 < len ? &NODES[i + 1] : NULL;
    }
    Q.head = len ? &NODES[0] : NULL;
}
static long ref_skip(long i, long n) {
    for (long k = 0; k < n && i < len; k++) {
        long e = i + 1;
        if (isf(T(i))) while (e < len && (!boundary(e) || D(e) > D(i))) e++;
        i = e;
    }
    return i;
}
#endif
void h_cskip(void) {
#ifdef VP_CBMC
    len = (long)nd_u64(); start = (long)nd_u64(); n_skip = nd_int();
    ASSUME(len >= 0 && len < (1L << 30) && start >= 0 && start <= len);
    at(start); at(len);
    FIRST = window(&WA, start);
    ccmd_node_t *r = ccmd_skip(FIRST, n_skip);
    CHECK(r == (ja < len ? &WA.n[0] : NULL), "skip: result is where the steps taken end");
    CHECK(k_done <= (n_skip > 0 ? n_skip : 0), "skip: never more steps than asked for");
    CHECK(n_skip <= 0 || k_done == n_skip || ja == len, "skip: fewer only at the end of the list");
    unchanged(&WA, ja);
#else
    native_list();
    start = nd_below(len + 1); n_skip = (int)nd_below(12) - 2;
    ccmd_node_t *r = ccmd_skip(start < len ? &NODES[start] : NULL, n_skip);
    long e = ref_skip(start, n_skip);
    CHECK(r == (e < len ? &NODES[e] : NULL), "skip: over exactly the steps asked for");
    for (long i = 0; i < len; i++) CHECK((int)NODES[i].cmd == T(i) && NODES[i].next == (i + 1 < len ? &NODES[i + 1] : NULL), "skip: the list is unchanged");
#endif
    REACH("skip");
}

/* ---------------------------------------------------------- encoding (C09) */
static unsigned char *M; static uint32_t size0; static long msize;
static long KB; static unsigned char kv, kh;   /* an arbitrary byte: at the start, at the loop head */
static long pos;                                /* bytes used at the loop head */
static ccmd_node_t ND, AFTER, SKIPPED, *cur;    /* the node at the loop head, what follows it, what a skip leads to */
static ccmd_node_t ND0;                         /* its content */
static double v1, v2, vx; static int n1, n2, nx, ns;
static double any_value(void) {
#ifdef VP_CBMC
    double v = nd_double(); ASSUME(v >= -1.0 && v <= 4294967295.0); return v;
#else
    return (double)nd_below(1000000);
#endif
}
#ifdef VP_NATIVE
static struct { long node; double v1, v2; } smp[64]; static double draws[64]; static int ndraws;
#endif
static double vp_pd_sample(pd_spec_t *p) {
    double v = any_value();
#ifdef VP_CBMC
    if (p == &ND.pd_val) { n1++; v1 = v; }
    else { CHECK(p == &ND.pd_val2, "sampled from the command's own distributions"); n2++; v2 = v; }
#else
    for (long i = 0; i < len; i++) {
        if (p == &NODES[i].pd_val) { n1++; smp[i].v1 = v; }
        if (p == &NODES[i].pd_val2) { n2++; smp[i].v2 = v; }
    }
#endif
    return v;
}
static int vp_drand48_r(struct drand48_data *b, double *x) {
    CHECK(b == &rnd_buf, "drawn from the thread's own generator");
#ifdef VP_CBMC
    vx = nd_double(); ASSUME(vx >= 0.0 && vx < 1.0);
    nx++;
#else
    vx = nd_below(101) / 100.0;
    draws[ndraws++] = vx;
#endif
    *x = vx;
    return 0;
}
/* contract of ccmd_skip (C10) */
ccmd_node_t *cskip_contract(ccmd_node_t *n, int k) {
    CHECK(n == ND0.next && k == ND0.n_skip, "encode: skips the configured number of following commands");
    ns++;
    return nd_bool() ? &SKIPPED : NULL;
}
static int dump_seen;
#define OPT(t, p) ((t *)(M + (p) + 4))
static bool same_bytes(void *a, const void *b, size_t n) {
    for (size_t i = 0; i < n; i++) if (((unsigned char *)a)[i] != ((const unsigned char *)b)[i]) return false;
    return true;
}
/* the command encoded at p is node n with the sampled values */
static void encoded(long p, ccmd_node_t *n, double a, double b) {
    CHECK(*(int *)(M + p) == (int)n->cmd, "encode: the configured command");
    switch (n->cmd) {
    case STORE: CHECK(OPT(store_opts_t, p)->offset == (uint64_t)b && OPT(store_opts_t, p)->store_nbytes == (uint64_t)a && OPT(store_opts_t, p)->wait_sync == n->store.wait_sync, "encode: store options"); break;
    case LOAD: CHECK(OPT(load_opts_t, p)->offset == (uint64_t)b && OPT(load_opts_t, p)->load_nbytes == (uint64_t)a, "encode: load options"); break;
    case COMPUTE: CHECK(OPT(comp_opts_t, p)->comp_time_us == (uint32_t)a, "encode: compute time"); break;
    case REPLY: CHECK(OPT(reply_opts_t, p)->resp_size == (uint32_t)a && OPT(reply_opts_t, p)->n_ack == n->resp.n_ack, "encode: reply options"); break;
    default: {
        fwd_opts_t *f = OPT(fwd_opts_t, p);
        CHECK(f->pkt_size == (uint32_t)a, "encode: forward size");
        CHECK(f->fwd_host == n->fwd.fwd_host && f->fwd_port == n->fwd.fwd_port && f->proto == n->fwd.proto, "encode: forward target");
        CHECK(f->timeout == n->fwd.timeout && f->retries == n->fwd.retries && f->on_fail_skip == n->fwd.on_fail_skip, "encode: forward failure options"); }
    }
}
static void vp_dump_loop(message_t *m, ccmd_node_t **itr, command_t **out) {
#ifdef VP_CBMC
    if (!dump_seen) {
        dump_seen = 1;
        CHECK((unsigned char *)*out == M + sizeof(message_t) && *itr == cur, "encode loop: starts with the first command behind the header");
        CHECK(m->req_size == size0 - sizeof(message_t), "encode loop: the header is accounted for");
        HAVOC_OBJ(M);
        pos = (long)nd_u64();
        ASSUME(pos >= (long)sizeof(message_t) && pos <= (long)size0);
        ASSUME(KB < pos || M[KB] == kv);
        cur = nd_bool() ? &ND : NULL;
        *itr = cur;
        *out = (command_t *)(M + pos);
        m->req_size = (uint32_t)(size0 - pos);
        kh = M[KB];
    } else {
        CHECK(cur != NULL, "encode loop: a command to encode");
        bool sk = ND0.cmd == PSKIP;
        long np = pos + (sk ? 0 : tsz(ND0.cmd));
        CHECK((unsigned char *)*out == M + np && np <= (long)size0, "encode loop: back to back");
        CHECK(m->req_size == size0 - np, "encode loop: space decreases by the bytes used");
        if (KB >= (long)sizeof(message_t) && KB < pos) CHECK(M[KB] == kh, "encode loop: earlier commands stay");
        if (KB >= np && np > pos) CHECK(M[KB] == kv, "encode loop: nothing beyond");
        if (sk) {
            CHECK(nx == 1 && n1 == 0 && n2 == 0, "encode loop: one draw per skip");
            CHECK(ns == (vx <= ND0.pd_val.val), "encode loop: skips exactly when the draw does not exceed the probability");
            CHECK(KB < pos || M[KB] == kv, "encode loop: a skip contributes no command");
            if (!ns) CHECK(*itr == ND0.next, "encode loop: goes on with the next command");
            else CHECK(*itr == &SKIPPED || *itr == NULL, "encode loop: goes on behind the skipped commands");
        } else {
            CHECK(*itr == ND0.next && nx == 0 && ns == 0, "encode loop: goes on with the next command");
            bool two = ND0.cmd == STORE || ND0.cmd == LOAD;
            CHECK(n1 == 1 && n2 == two, "encode loop: each quantity sampled once");
            encoded(pos, &ND0, v1, v2);
        }
        STOP();
    }
#endif
}
void h_dump(void) {
#ifdef VP_CBMC
    ccmd_t q;
    msize = (long)nd_u64(); ASSUME(msize >= (long)sizeof(message_t) && msize <= BUF_SIZE);
    M = malloc(msize);
    message_t *m = (message_t *)M;
    size0 = (uint32_t)msize;
    m->req_size = size0;
    KB = (long)nd_u64(); ASSUME(KB >= 0 && KB < msize);
    kv = M[KB];
    ND.cmd = (command_type_t)nd_irange(COMPUTE, REPLY);
    ND.n_skip = nd_int();
    ND.pd_val.val = nd_double(); ASSUME(ND.pd_val.val >= 0.0 && ND.pd_val.val <= 1.0);
    ND.next = nd_bool() ? &AFTER : NULL;
    ND.store.wait_sync = nd_u8();
    ND.resp.n_ack = nd_u8();
    ND.fwd.fwd_host = nd_u32(); ND.fwd.fwd_port = nd_u16(); ND.fwd.timeout = nd_u32();
    ND.fwd.retries = nd_u8(); ND.fwd.on_fail_skip = nd_u8(); ND.fwd.proto = (proto_t)nd_irange(0, 1);
    ND0 = ND;
    cur = nd_bool() ? &ND : NULL;
    q.head = cur;
    int r = ccmd_dump(&q, m);
    CHECK(r == 1 || r == -1, "encode: success or failure");
    if (r == 1) {
        CHECK(cur == NULL, "encode: success only after the last command");
        CHECK(pos + 4 <= (long)size0 && *(int *)(M + pos) == EOM, "encode: followed by one end marker");
        CHECK(m->req_size == size0 - pos - 4, "encode: space decreases by exactly the bytes used");
        if (KB >= (long)sizeof(message_t) && KB < pos) CHECK(M[KB] == kh, "encode: the commands stay");
        if (KB >= pos + 4) CHECK(M[KB] == kv, "encode: nothing beyond the end marker");
        REACH("encoded");
    } else {
        CHECK((long)size0 - pos < (cur == NULL ? 4 : tsz(ND0.cmd)) && (cur == NULL || ND0.cmd != PSKIP), "encode: fails only for lack of space");
        if (KB >= pos) CHECK(M[KB] == kv, "encode: nothing written that does not fit");
        REACH("no space");
    }
    CHECK(same_bytes(&ND.fwd, &ND0.fwd, sizeof ND.fwd) && ND.next == ND0.next && ND.cmd == ND0.cmd && ND.n_skip == ND0.n_skip, "encode: the configured list is unchanged");
#else
    native_list();
    double *prob = calloc(len + 1, sizeof(double));
    for (long i = 0; i < len; i++) {
        ccmd_node_t *n = &NODES[i];
        n->store.wait_sync = nd_u8(); n->resp.n_ack = nd_u8();
        n->fwd.fwd_host = nd_u32(); n->fwd.fwd_port = nd_u16(); n->fwd.timeout = nd_u32();
        n->fwd.retries = nd_u8(); n->fwd.on_fail_skip = nd_u8(); n->fwd.proto = nd_below(2);
        n->n_skip = nd_below(4);
        n->pd_val.val = prob[i] = nd_below(101) / 100.0;
    }
    msize = nd_below(4) ? 600 : sizeof(message_t) + nd_below(200);
    M = malloc(msize);
    for (long i = 0; i < msize; i++) M[i] = (unsigned char)(i * 3 + 1);
    message_t *m = (message_t *)M;
    m->req_size = msize;
    int r = ccmd_dump(&Q, m);
    uint32_t left = m->req_size;
    /* reference */
    long p = sizeof(message_t), i = 0; int d = 0, one = 0, two = 0; bool full = false;
    while (i < len && !full) {
        int t = T(i);
        if (t == PSKIP) { CHECK(d < ndraws, "encode: one draw per skip"); i = draws[d++] <= prob[i] ? ref_skip(i + 1, NODES[i].n_skip) : i + 1; continue; }
        if (p + tsz(t) > msize) { full = true; break; }
        encoded(p, &NODES[i], smp[i].v1, smp[i].v2);
        one++; two += t == STORE || t == LOAD;
        p += tsz(t); i++;
    }
    if (!full && p + 4 > msize) full = true;
    CHECK((r == 1) == !full && (r == -1) == full, "encode: fails exactly for lack of space");
    CHECK(n1 == one && n2 == two && d == ndraws, "encode: each quantity sampled once");
    if (!full) {
        CHECK(*(int *)(M + p) == EOM, "encode: followed by one end marker");
        CHECK(left == (uint32_t)(msize - p - 4), "encode: space decreases by exactly the bytes used");
        for (long k = p + 4; k < msize; k++) CHECK(M[k] == (unsigned char)(k * 3 + 1), "encode: nothing beyond the end marker");
    }
    REACH("encoded");
#endif
}
#pragma CPROVER check pop
