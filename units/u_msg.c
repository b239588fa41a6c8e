/* C10 and C11: skipping over commands and copying a forward's commands.
 *
 * An encoded list of arbitrary length is described by ghost functions of the
 * command's index: its type T, its position P in the message and the nesting
 * depth D in front of it.  A forward counts as entering, the last one of a run
 * of multi-forwards as entering, a reply as leaving.  What the functions say
 * about an index is used through instances (at()). */
#include "vp.h"
#include "vp_sys.h"
#ifdef VP_CBMC
static void *vp_memcpy(void *d, const void *s, size_t n);
#define memcpy vp_memcpy
#endif
#include "message.h"
static void vp_skip_loop(command_t **itr, int *skipped);
static void vp_step_loop(command_t **itr, int *nested);
static void vp_run_loop(command_t **itr);
static void vp_copy_loop(command_t **itr);
#include "message.c"
#undef memcpy

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"

static int tsz(int t) {
    switch (t) {
    case REPLY: return 4 + sizeof(reply_opts_t);
    case MULTI_FORWARD: case FORWARD: return 4 + sizeof(fwd_opts_t);
    case COMPUTE: return 4 + sizeof(comp_opts_t);
    case LOAD: return 4 + sizeof(load_opts_t);
    case STORE: return 4 + sizeof(store_opts_t);
    }
    return 4;
}
#ifdef VP_CBMC
int __CPROVER_uninterpreted_T(long i);
long __CPROVER_uninterpreted_P(long i);
long __CPROVER_uninterpreted_D(long i);
#define T(i) __CPROVER_uninterpreted_T(i)
#define P(i) __CPROVER_uninterpreted_P(i)
#define D(i) __CPROVER_uninterpreted_D(i)
#else
#define MAXC 64
static int T_[MAXC + 4]; static long P_[MAXC + 4], D_[MAXC + 4];
#define T(i) T_[i]
#define P(i) P_[i]
#define D(i) D_[i]
#endif
static unsigned char *M; static long len, size;   /* commands before the end marker; bytes of the message */
static long KB; static unsigned char kv;           /* an arbitrary byte of the message */
static bool isf(int t) { return t == FORWARD || t == MULTI_FORWARD; }
static long enters(long i) { return T(i) == FORWARD || (T(i) == MULTI_FORWARD && T(i + 1) != MULTI_FORWARD); }
/* not inside a run of multi-forwards */
static bool boundary(long i) { return i == 0 || !(T(i - 1) == MULTI_FORWARD && T(i) == MULTI_FORWARD); }
#ifdef VP_CBMC
static void at1(long i) {
    if (i < 0 || i > len) return;
    ASSUME(T(i) >= COMPUTE && T(i) <= EOM && (T(i) == EOM) == (i == len) && T(i) != PSKIP);
    ASSUME(D(i) <= i && D(i) >= -i);
    ASSUME(P(i) >= (long)sizeof(message_t) + 4 * i && P(i) + tsz(T(i)) + (i < len ? 4 : 0) <= size);
    ASSUME(*(int *)(M + P(i)) == T(i));
    ASSUME(i < len || P(i) + 4 == size);
    if (i == 0) ASSUME(P(i) == sizeof(message_t) && D(i) == 0);
    if (i < len) ASSUME(P(i + 1) == P(i) + tsz(T(i)) && D(i + 1) == D(i) + enters(i) - (T(i) == REPLY));
}
static void at(long i) { at1(i); at1(i + 1); at1(i + 2); }
#endif
static void any_list(void) {
#ifdef VP_CBMC
    len = (long)nd_u64(); size = (long)nd_u64();
    ASSUME(len >= 0 && len < (1L << 30) && size >= 16 && size <= BUF_SIZE);
    M = malloc(size);
    at(0); at(len);
    KB = (long)nd_u64(); ASSUME(KB >= 0 && KB < size);
#else
    static const int kinds[] = { COMPUTE, STORE, LOAD, FORWARD, MULTI_FORWARD, REPLY, FORWARD, MULTI_FORWARD, REPLY, REPLY, MULTI_FORWARD, REPLY };
    len = nd_below(24);
    P(0) = sizeof(message_t); D(0) = 0;
    for (long i = 0; i < len; i++) { T(i) = kinds[nd_below(12)]; }
    T(len) = EOM; T(len + 1) = EOM;
    for (long i = 0; i < len; i++) { P(i + 1) = P(i) + tsz(T(i)); D(i + 1) = D(i) + enters(i) - (T(i) == REPLY); }
    size = P(len) + 4;
    M = malloc(size);
    for (long i = 0; i < size; i++) M[i] = (unsigned char)(i * 7 + 3);
    for (long i = 0; i <= len; i++) *(int *)(M + P(i)) = T(i);
    KB = nd_below(size);
#endif
    kv = M[KB];
}
/* the commands a..e-1 are one step; w is an arbitrary position in between */
static bool is_step(long a, long e, long w) {
    if (!isf(T(a))) return e == a + 1;
    if (e <= a || e > len) return false;
    if (T(e) != EOM && D(e) > D(a)) return false;
    if (T(e) != EOM && T(e - 1) != REPLY) return false;
    return !(w > a && w < e && boundary(w)) || D(w) > D(a);
}

/* ---------------------------------------------------------- skipping (C10) */
static long ja, jb, jd, w;             /* index at the heads of the three loops */
static bool in_run; static int n_skip; static long k_done, start;
static int skip_seen, step_seen, run_seen;
static void vp_skip_loop(command_t **itr, int *skipped) {
#ifdef VP_CBMC
    if (!skip_seen) {
        skip_seen = 1;
        CHECK((unsigned char *)*itr == M + P(start) && *skipped == n_skip, "skip loop: starts at the given position");
        k_done = (long)nd_u64(); ja = (long)nd_u64();
        ASSUME(k_done >= 0 && k_done <= (n_skip > 0 ? n_skip : 0) && ja >= start && ja <= len && (k_done > 0 || ja == start));
        at(ja);
        w = (long)nd_u64(); ASSUME(w >= 1 && w <= len);
        at(w - 1);
        *itr = (command_t *)(M + P(ja)); *skipped = (int)(n_skip - k_done);
    } else {
        long e = (in_run ? jd : jb) + 1;
        at(e);
        CHECK((unsigned char *)*itr == M + P(e) && e <= len, "skip loop: at a command of the list");
        CHECK(*skipped == n_skip - (k_done + 1), "skip loop: counts one step");
        CHECK(is_step(ja, e, w), "skip loop: one command, or a forward up to its matching reply");
        STOP();
    }
#endif
}
static void vp_step_loop(command_t **itr, int *nested) {
#ifdef VP_CBMC
    if (!step_seen) {
        step_seen = 1;
        CHECK((unsigned char *)*itr == M + P(ja) && *nested == 0 && T(ja) != EOM, "step loop: starts in front of the step");
        jb = (long)nd_u64();
        ASSUME(jb >= ja && jb < len);
        at(jb);
        ASSUME(boundary(jb) || jb == ja);
        if (jb > ja) ASSUME(isf(T(ja)) && D(jb) > D(ja));
        ASSUME(!(w > ja && w < jb && boundary(w)) || D(w) > D(ja));
        *itr = (command_t *)(M + P(jb)); *nested = (int)(D(jb) - D(ja));
    } else {
        long e = (in_run ? jd : jb) + 1;
        at(e);
        CHECK(e < len && (unsigned char *)*itr == M + P(e), "step loop: at a command of the list");
        CHECK(*nested == D(e) - D(ja) && *nested > 0, "step loop: nesting depth");
        CHECK(isf(T(ja)) && boundary(e), "step loop: only a forward takes more than one command");
        CHECK(!(w > ja && w < e && boundary(w)) || D(w) > D(ja), "step loop: the matching reply is not passed");
        STOP();
    }
#endif
}
static void vp_run_loop(command_t **itr) {
#ifdef VP_CBMC
    if (!run_seen) {
        run_seen = 1; in_run = true;
        CHECK((unsigned char *)*itr == M + P(jb) && T(jb) == MULTI_FORWARD, "run loop: starts with a multi-forward");
        jd = (long)nd_u64();
        ASSUME(jd >= jb && jd < len);
        at(jd);
        ASSUME(T(jd) == MULTI_FORWARD && D(jd) == D(jb));
        ASSUME(!(w >= jb && w <= jd) || T(w) == MULTI_FORWARD);
        ASSUME(!(w - 1 >= jb && w - 1 <= jd) || T(w - 1) == MULTI_FORWARD);
        *itr = (command_t *)(M + P(jd));
    } else {
        long e = jd + 1;
        at(e);
        CHECK(e < len && (unsigned char *)*itr == M + P(e) && T(e) == MULTI_FORWARD && D(e) == D(jb), "run loop: stays within the run");
        CHECK((!(w >= jb && w <= e) || T(w) == MULTI_FORWARD) && (!(w - 1 >= jb && w - 1 <= e) || T(w - 1) == MULTI_FORWARD), "run loop: only multi-forwards so far");
        STOP();
    }
#endif
}
#ifdef VP_NATIVE
static long ref_step(long a) {
    if (!isf(T(a))) return a + 1;
    long e = a + 1;
    while (T(e) != EOM && (!boundary(e) || D(e) > D(a))) e++;
    return e;
}
#endif
void h_skip(void) {
    any_list();
    start = (long)nd_u64();
    n_skip = nd_int();
#ifdef VP_CBMC
    ASSUME(start >= 0 && start <= len);
    at(start);
#else
    start = (start & 0x7fffffff) % (len + 1);
    n_skip = n_skip % 12;
#endif
    command_t *r = message_skip_cmds((message_t *)M, (command_t *)(M + P(start)), n_skip);
#ifdef VP_CBMC
    CHECK((unsigned char *)r == M + P(ja), "skip: result is where the steps taken end");
    CHECK(k_done <= (n_skip > 0 ? n_skip : 0), "skip: never more steps than asked for");
    CHECK(n_skip <= 0 || k_done == n_skip || T(ja) == EOM, "skip: fewer only at the end of the list");
#else
    long e = start;
    for (int k = 0; k < n_skip && T(e) != EOM; k++) e = ref_step(e);
    CHECK((unsigned char *)r == M + P(e), "skip: over exactly the steps asked for");
#endif
    CHECK(M[KB] == kv, "skip: changes nothing");
    REACH("skip");
}

/* ----------------------------------------------------------- copying (C11) */
static unsigned char *DST; static long dsize, KD; static unsigned char dv;
static long c0, jc, c_len, r0; static bool copied; /* r0: the first reply at the level of c0 */
#ifdef VP_CBMC
static void *vp_memcpy(void *d, const void *s, size_t n) {
    CHECK(!copied, "copy: once");
    CHECK((unsigned char *)s >= M && (unsigned char *)s + n <= M + size, "copy: from within the message");
    CHECK((unsigned char *)d >= DST && (unsigned char *)d + n <= DST + dsize, "copy: within the space available");
    copied = true;
    long o = KD - ((unsigned char *)d - DST);
    if (o >= 0 && o < (long)n) DST[KD] = ((unsigned char *)s)[o];
    return d;
}
#endif
/* that r0 is the first such reply, used for position i */
static void first(long i) {
    if (i >= c0 && i < r0) ASSUME(!(boundary(i) || i == c0) || D(i) > D(c0) || (D(i) == D(c0) && T(i) != REPLY));
}
/* contract of message_skip_cmds for one step (C10) */
static long next_step(long a) {
#ifdef VP_CBMC
    long e = (long)nd_u64();
    ASSUME(e > a && e <= len);
    at(e - 1); at(e);
    ASSUME(is_step(a, e, r0));
    ASSUME(D(e) <= D(a) || T(e) == EOM);
    /* leaves by one reply at a time */
    if (isf(T(a)) && T(e) != EOM) ASSUME(D(e) == D(a));
    return e;
#else
    return a;
#endif
}
command_t *skip_contract(message_t *m, command_t *cmd, int n) {
    CHECK((unsigned char *)m == M && (unsigned char *)cmd == M + P(jc) && n == 1 && T(jc) != EOM, "copy: steps from a command of the list");
    jc = next_step(jc);
    return (command_t *)(M + P(jc));
}
static int copy_seen;
static void vp_copy_loop(command_t **itr) {
#ifdef VP_CBMC
    if (!copy_seen) {
        copy_seen = 1;
        CHECK((unsigned char *)*itr == M + P(c0), "copy loop: starts at the given position");
        jc = (long)nd_u64();
        ASSUME(jc >= c0 && jc <= len && jc <= r0);
        at(jc);
        ASSUME(D(jc) == D(c0));
        ASSUME(boundary(jc) || jc == c0);
        first(jc);
        *itr = (command_t *)(M + P(jc));
    } else {
        CHECK((unsigned char *)*itr == M + P(jc) && jc <= len, "copy loop: at a command of the list");
        CHECK(jc <= r0, "copy loop: the matching reply is not passed");
        CHECK(D(jc) == D(c0) && boundary(jc), "copy loop: at the same nesting level");
        STOP();
    }
#endif
}
void h_copy_tail(void) {
    any_list();
    message_t *m = (message_t *)M;
    c0 = (long)nd_u64();
#ifdef VP_CBMC
    /* a reply at the level of c0 exists: r0 is the first */
    r0 = (long)nd_u64();
    ASSUME(c0 >= 0 && c0 <= r0 && r0 < len);
    at(c0); at(r0 - 1); at(r0);
    ASSUME(T(r0) == REPLY && D(r0) == D(c0));
    ASSUME(P(r0) >= P(c0) + 4 * (r0 - c0));    /* positions increase by at least a command's size */
    first(c0);
    dsize = (long)nd_u64(); ASSUME(dsize >= (long)sizeof(message_t) && dsize <= BUF_SIZE);
    ASSUME(m->req_size >= size && m->req_size <= BUF_SIZE);
    DST = malloc(dsize);
    KD = (long)nd_u64(); ASSUME(KD >= 0 && KD < dsize);
#else
    ASSUME(len > 0);
    c0 = (c0 & 0x7fffffff) % len;
    r0 = c0;
    while (T(r0) != EOM && T(r0) != REPLY) r0 = ref_step(r0);
    ASSUME(T(r0) == REPLY);
    ASSUME(boundary(c0));
    dsize = 12 + nd_below(400);
    long need = P(r0) + 12 - P(c0) + 4 + 12;
    if (nd_bool()) dsize = need + (long)nd_below(9) - 4;
    m->req_size = (uint32_t)(size + nd_below(100));
    m->status = (int8_t)nd_u8(); m->req_id = nd_u32();
    kv = M[KB];
    DST = malloc(dsize);
    for (long i = 0; i < dsize; i++) DST[i] = (unsigned char)(i * 5 + 1);
    KD = nd_below(dsize);
#endif
    message_t *d = (message_t *)DST;
    d->req_size = (uint32_t)dsize;
    dv = DST[KD];
    c_len = P(r0) + tsz(REPLY) - P(c0);
    uint32_t id = m->req_id; int8_t st = m->status;
    command_t *r = message_copy_tail(m, d, (command_t *)(M + P(c0)));
    bool fits = (long)sizeof(message_t) + c_len + 4 <= dsize;
    long o = KD - (long)sizeof(message_t);
    CHECK((r != NULL) == fits, "copy: refused exactly if commands and end marker do not fit");
    CHECK(M[KB] == kv, "copy: the source is unchanged");
    if (r) {
        CHECK((unsigned char *)r == M + P(r0), "copy: reports the matching reply");
        CHECK(d->req_id == id && d->status == st, "copy: request id and status of the source");
        CHECK((long)d->req_size <= dsize && (long)d->req_size >= (long)sizeof(message_t) + c_len + 4, "copy: declared size within the space and covering the commands");
        if (o >= 0 && o < c_len) CHECK(DST[KD] == M[P(c0) + o], "copy: commands byte for byte");
        CHECK(*(int *)(DST + sizeof(message_t) + c_len) == EOM, "copy: followed by an end marker");
        if (o >= c_len + 4) CHECK(DST[KD] == dv, "copy: nothing beyond the end marker");
        REACH("copied");
    } else {
        if (o >= 0) CHECK(DST[KD] == dv, "copy refused: nothing beyond the header touched");
        REACH("refused");
    }
}

/* ------------------------------------------------- sizes and iteration (C10) */
void h_next(void) {
    union { command_t c; unsigned char b[64]; } u;
    int t = nd_irange(COMPUTE, EOM);
    u.c.cmd = t;
    CHECK(cmd_type_size(t) == tsz(t), "size of a command");
    CHECK((unsigned char *)cmd_next(&u.c) == u.b + tsz(t), "the next command follows back to back");
    CHECK((unsigned char *)message_first_cmd((message_t *)&u) == u.b + sizeof(message_t), "the first command follows the header");
    REACH("next");
}
#pragma CPROVER check pop
