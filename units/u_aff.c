/* C22: CPU lists (thread_affinity.c). */
#define _GNU_SOURCE
#include "vp.h"
#include <sched.h>
#include <errno.h>
#include <assert.h>
#include <unistd.h>
#include <pthread.h>

/* a list entry: a number, possibly with a dash before or after it, or a range
 * with an optional step, or something else */
enum { RANGE_STEP, RANGE, NUMBER, OTHER };
typedef struct { int kind, a, b, s; } entry_t;

#ifdef VP_CBMC
static entry_t E; static bool g_more;    /* the current entry; entries follow */
static char text[2];
static char *vp_strsep(char **str, const char *d);
static int vp_sscanf(const char *s, const char *fmt, int *a, int *b, int *c);
#define VP_SC(s, f, a, b, c, ...) vp_sscanf(s, f, a, b, c)
#define sscanf(s, f, ...) VP_SC(s, f, __VA_ARGS__, 0, 0, 0)
#define strsep vp_strsep
#define fprintf(...) ((void)0)
static void vp_list_loop(char **str, char **tok, int *min, int *val, int *max, cpu_set_t *mask);
static void vp_range_loop(int *i, int min, int max, int step, cpu_set_t *mask);
static void vp_it_loop(int *it);
#endif
#define exit vp_exit
#include "thread_affinity.c"
#undef exit
#undef sscanf
#undef strsep

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"

static int NCPU, W;                      /* number of cores; an arbitrary core */
static bool g_in;                        /* W is listed by an entry so far */
static cpu_set_t M;
static bool listed(entry_t *e, int w) {
    if (e->kind == NUMBER) return w == (e->a < 0 ? -e->a : e->a);
    int lo = e->a < e->b ? e->a : e->b, hi = e->a < e->b ? e->b : e->a, s = e->kind == RANGE ? 1 : e->s;
    return w >= lo && w <= hi && (w - lo) % s == 0;
}
static bool fine(entry_t *e) {
    if (e->kind == NUMBER) return e->a > -NCPU && e->a < NCPU;
    return e->a >= 0 && e->a < NCPU && e->b >= 0 && e->b < NCPU && (e->kind == RANGE || e->s > 0) && e->kind != OTHER;
}
static void an_entry(entry_t *e) {
    e->kind = nd_irange(0, 3);
#ifdef VP_CBMC
    e->a = nd_int(); e->b = nd_int(); e->s = nd_int();
    ASSUME(e->a != INT32_MIN);                       /* no such number can be written without overflowing */
    ASSUME(e->s <= INT32_MAX - CPU_SETSIZE);
#else
    e->a = nd_irange(0, NCPU - 1 + (nd_below(20) == 0)); e->b = nd_irange(0, NCPU - 1 + (nd_below(20) == 0)); e->s = nd_irange(nd_below(20) != 0, 9);
    if (e->kind == OTHER && nd_below(8)) e->kind = RANGE;
#endif
}

#ifdef VP_CBMC
void vp_unmodelled(void);                /* no contract for this use */
static char *vp_strsep(char **str, const char *d) {
    if (d[0] != ',' || d[1] != 0) vp_unmodelled();
    if (!*str) return NULL;
    CHECK(*str == text, "list: entries taken one after the other");
    an_entry(&E);
    vp_exit_allowed = !fine(&E);
    if (nd_bool()) *str = NULL;
    return text;
}
/* what sscanf makes of an entry of each kind */
static int vp_sscanf(const char *s, const char *fmt, int *a, int *b, int *c) {
    CHECK(s == text, "list: reads the entry");
    if (E.kind == OTHER) return nd_bool() ? 0 : -1;
    if (!strcmp(fmt, "%d-%d:%d") || !strcmp(fmt, "%d-%d")) {
        *a = E.a;
        if (E.kind == NUMBER) return 1;
        *b = E.b;
        if (E.kind == RANGE || fmt[5] == 0) return 2;
        *c = E.s;
        return 3;
    }
    if (!strcmp(fmt, "%d-") || !strcmp(fmt, "%d")) { *a = E.a; return 1; }
    if (!strcmp(fmt, "-%d")) { if (E.a >= 0 && nd_bool()) return 0; if (E.a > 0) return 0; *a = -E.a; return 1; }
    vp_unmodelled();
    return 0;
}
static int l_seen; static bool l_last;
static void vp_list_loop(char **str, char **tok, int *min, int *val, int *max, cpu_set_t *mask) {
    CHECK(mask == &M, "list: the caller's set");
    if (!l_seen) {
        l_seen = 1;
        CHECK(!CPU_ISSET(W, &M) && *str == text, "list loop: starts with no core selected and the whole list");
        HAVOC_OBJ(&M); HAVOC_OBJ(tok); HAVOC_OBJ(min); HAVOC_OBJ(val); HAVOC_OBJ(max);
        g_in = nd_bool();
        l_last = nd_bool();
        *str = l_last ? NULL : text;
        ASSUME(!CPU_ISSET(W, &M) == !g_in);
        REACH("any entry");
    } else {
        if (E.kind == OTHER) CHECK(0, "list: anything else is refused");
        CHECK(fine(&E), "list: cores out of range are refused");
        CHECK(!CPU_ISSET(W, &M) == !(g_in || listed(&E, W)), "list: an entry adds exactly its cores");
        if (E.kind == NUMBER) REACH("number taken"); else REACH("range taken");
        STOP();
    }
}
static bool r_seen, r_in;
static void vp_range_loop(int *i, int min, int max, int step, cpu_set_t *mask) {
    CHECK(mask == &M, "range: the caller's set");
    CHECK(fine(&E) && E.kind <= RANGE, "range: only ranges within the cores");
    int lo = E.a < E.b ? E.a : E.b, hi = E.a < E.b ? E.b : E.a, s = E.kind == RANGE ? 1 : E.s;
    if (!r_seen) {
        r_seen = true;
        CHECK(*i == lo && min == lo && max == hi, "range: from its first to its last core");
        CHECK(step == s, "range: with its own step");
        r_in = CPU_ISSET(W, &M);
        HAVOC_OBJ(&M);
        *i = nd_int();
        ASSUME(*i >= lo && (*i - lo) % s == 0 && (*i <= hi || *i - hi <= s));
        ASSUME(!CPU_ISSET(W, &M) == !(r_in || (W >= lo && W < *i && W <= hi && (W - lo) % s == 0)));
        REACH("inside a range");
    } else {
        CHECK(*i >= lo && (*i - lo) % s == 0 && (*i <= hi || *i - hi <= s), "range: steps on");
        CHECK(!CPU_ISSET(W, &M) == !(r_in || (W >= lo && W < *i && W <= hi && (W - lo) % s == 0)), "range: every step selects its core and no other");
        STOP();
    }
}
#endif

void h_list(void) {
    NCPU = nd_irange(1, CPU_SETSIZE); W = nd_irange(0, CPU_SETSIZE - 1);
#ifdef VP_CBMC
    aff_list_parse(text, &M, NCPU);
    CHECK(l_last, "list: every entry is looked at");
    CHECK(!CPU_ISSET(W, &M) == !g_in, "list: the selected cores are those listed");
    REACH("end of the list");
#else
    static char t[4096]; int n = 1 + nd_below(6), l = 0; bool ok = true;
    if (nd_bool()) { NCPU = nd_irange(1, 32); W %= 40; }
    for (int i = 0; i < n; i++) {
        entry_t e; an_entry(&e);
        if (!fine(&e)) ok = false;
        else if (ok && listed(&e, W)) g_in = true;
        if (i) t[l++] = ',';
        if (e.kind == RANGE_STEP) l += sprintf(t + l, "%d-%d:%d", e.a, e.b, e.s);
        else if (e.kind == RANGE) l += sprintf(t + l, "%d-%d", e.a, e.b);
        else if (e.kind == OTHER) l += sprintf(t + l, "x");
        else switch (nd_below(3)) { case 0: l += sprintf(t + l, "%d", e.a); break; case 1: l += sprintf(t + l, "%d-", e.a); break; default: l += sprintf(t + l, "-%d", e.a); }
    }
    memset(&M, nd_u8(), sizeof M);
    vp_exit_allowed = !ok;
    aff_list_parse(t, &M, NCPU);
    CHECK(ok, "list: cores out of range and anything else are refused");
    CHECK(!CPU_ISSET(W, &M) == !g_in, "list: the selected cores are those listed");
    REACH("end of the list");
#endif
}

/* ------------------------------------------------- handing out the cores */
static int I0, S, K;                     /* current core (-1: none yet), some selected core, steps made */
static int dist(int w) { int d = w - I0; return d <= 0 ? d + NCPU : d; }   /* steps from I0 to w, 1..NCPU */
static int after(int k) { return I0 + k < NCPU ? I0 + k : I0 + k - NCPU; }
#ifdef VP_CBMC
static bool i_seen;
static void vp_it_loop(int *it) {
    if (!i_seen) {
        i_seen = true;
        CHECK(*it == I0, "hand out: starts at the current core");
        K = nd_irange(0, NCPU - 1);
        *it = after(K);
        ASSUME(dist(S) > K && (!CPU_ISSET(W, &M) || dist(W) > K));
        REACH("cores passed over");
    } else {
        K++;
        CHECK(*it == after(K), "hand out: one core after the other");
        CHECK(dist(S) > K && (!CPU_ISSET(W, &M) || dist(W) > K), "hand out: passes over no selected core");
        STOP();
    }
}
void next_contract(int *it, cpu_set_t *mask, int ncpu) {
    CHECK(mask == &M && ncpu == NCPU && *it >= -1 && *it < ncpu, "contract: the given set, a core or none yet");
    I0 = *it;
    *it = nd_irange(0, NCPU - 1);
    ASSUME(CPU_ISSET(*it, &M) && (!CPU_ISSET(W, &M) || dist(*it) <= dist(W)));
}
#endif
static void a_set(void) {
    NCPU = nd_irange(1, CPU_SETSIZE);
#ifdef VP_CBMC
    HAVOC_OBJ(&M);
#else
    if (nd_bool()) NCPU = 1 + NCPU % 12;
    int p = nd_below(8); for (int i = 0; i < CPU_SETSIZE; i++) if ((int)nd_below(8) <= p && nd_bool()) CPU_SET(i, &M);
#endif
    S = nd_irange(0, NCPU - 1); W = nd_irange(0, NCPU - 1);
#ifdef VP_NATIVE
    CPU_SET(S, &M);
#endif
    ASSUME(CPU_ISSET(S, &M));
}
void h_next(void) {
    a_set();
    int it = I0 = nd_irange(-1, NCPU - 1), w2 = nd_irange(0, CPU_SETSIZE - 1); bool in2 = CPU_ISSET(w2, &M);
    aff_it_next(&it, &M, NCPU);
    CHECK(it >= 0 && it < NCPU && CPU_ISSET(it, &M), "hand out: a selected core");
    CHECK(!CPU_ISSET(W, &M) || dist(W) >= dist(it), "hand out: the nearest selected core that follows, starting again after the highest");
    CHECK(!CPU_ISSET(w2, &M) == !in2, "hand out: the set is unchanged");
    REACH("a core");
}
void h_first(void) {
    a_set();
    int it = aff_it_init(&M, NCPU);
    CHECK(it >= 0 && it < NCPU && CPU_ISSET(it, &M), "first: a selected core");
    CHECK(!CPU_ISSET(W, &M) || W >= it, "first: the lowest one");
    REACH("first");
}
#pragma CPROVER check pop
