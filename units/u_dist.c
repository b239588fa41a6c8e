/* C20 sampled quantities, C21 quantities with units (distrib.c). */
#define _GNU_SOURCE
#include "vp.h"
#include <math.h>
#include <errno.h>
#include <unistd.h>
#include <time.h>
#include <sys/prctl.h>
#ifdef VP_CBMC
struct pd_spec_s;
static int vp_sscanf(const char *s, const char *fmt, void *v);
static char *vp_strsep(char **s, const char *d);
static int vp_strcmp(const char *a, const char *b);
static int vp_strncmp(const char *a, const char *b, size_t n);
static size_t vp_strlen(const char *s);
static char *vp_fgets(char *b, int n, FILE *f);
static FILE *vp_fopen(const char *n, const char *m);
static int vp_fclose(FILE *f);
static void *vp_malloc(size_t n);
static void *vp_realloc(void *p, size_t n);
static int vp_drand(struct drand48_data *b, double *x);
double __CPROVER_uninterpreted_log(double), __CPROVER_uninterpreted_exp(double), __CPROVER_uninterpreted_sqrt(double);
static void vp_retry(void *p);
static void vp_tok_loop(char **s, char **tok, void *p, int *col, char **fname, char **sep, double *xavg, double *xstd, double *k, double *scale, double *unit);
static void vp_scale_loop(int *i, void *p, double unit);
static void vp_line_loop(int *n, int *n_max, void *p);
static void vp_col_loop(int *c, char **colstr);
#define sscanf(s, f, v) vp_sscanf(s, f, v)
#define strsep vp_strsep
#define strcmp vp_strcmp
#define strncmp vp_strncmp
#define strlen vp_strlen
#define fgets vp_fgets
#define fopen vp_fopen
#define fclose vp_fclose
#define malloc vp_malloc
#define realloc vp_realloc
#define drand48_r vp_drand
#define log __CPROVER_uninterpreted_log
#define exp __CPROVER_uninterpreted_exp
#define sqrt __CPROVER_uninterpreted_sqrt
#define fprintf(...) ((void)0)
#else
static int vp_drand(struct drand48_data *b, double *x);
#define drand48_r vp_drand
#endif
#define exit vp_exit
#include "distrib.c"
#undef exit
#undef sscanf
#undef strsep
#undef strcmp
#undef strncmp
#undef strlen
#undef fgets
#undef fopen
#undef fclose
#undef malloc
#undef realloc
#undef log
#undef exp
#undef sqrt

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "float-overflow"
#pragma CPROVER check disable "nan"
void vp_unmodelled(void);                /* no contract for this use */
static uint64_t bits(double d) { union { double d; uint64_t u; } x; x.d = d; return x.u; }
static bool same(double a, double b) { return bits(a) == bits(b) || (isnan(a) && isnan(b)); }
static bool close_to(double a, double b) { return same(a, b) || fabs(a - b) <= 1e-9 * fabs(b); }
#ifdef VP_CBMC
#define EQ same
#else
#define EQ close_to                      /* the order of the operations is not prescribed */
#endif
static int UNIT;                         /* which function is under contract */
enum { U_UNIT, U_PARSE, U_LOAD };
static double a_number(void) {           /* what sscanf can yield */
#ifdef VP_CBMC
    return nd_double();
#else
    double v = (double)(nd_u32() % (1U << nd_below(31))); if (nd_bool()) v /= 4; return v;
#endif
}

/* ------------------------------------------------------ C21: a unit suffix */
static char *STR; static uint32_t LEN; static const char *FMT; static double V; static int RV;
static double scaled(double v, char c, char before, bool time, bool *ok) {
    *ok = true;
    switch (c) {
    case 'k': case 'K': return v * 1000;
    case 'm': case 'M': return v * 1000000;
    case 'g': case 'G': return v * 1000000000;
    case 's':
        if (!time) { *ok = false; return v; }
        switch (before) {
        case 'n': return v / 1000;
        case 'u': return v;
        case 'm': return v * 1000;
        default: *ok = before >= '0' && before <= '9'; return v * 1000000;
        }
    }
    return v;
}
void h_unit(void) {
    UNIT = U_UNIT;
    int time = nd_bool();
    char c = 0, before = 0, before2 = 0;
#ifdef VP_CBMC
    LEN = nd_u32();
    ASSUME(LEN <= 1 << 20);
    STR = __CPROVER_allocate(LEN + 1, 0);
    FMT = "%lf"; RV = nd_irange(-1, 1); V = nd_double();
    ASSUME(LEN > 0 || RV != 1);
    if (LEN > 0) c = STR[LEN - 1];
    if (LEN > 1) before = STR[LEN - 2];
    if (LEN > 2) before2 = STR[LEN - 3];
#else
    static const char *suf[] = { "", "k", "K", "m", "M", "g", "G", "s", "ns", "us", "ms", "kb", "KB", "b", "mB", "gb", "B" };
    static char t[64];
    V = a_number(); RV = 1; FMT = "%lf";
    int pre = nd_below(3); if (pre) FMT = pre == 1 ? "min=%lf" : "step=%lf";
    sprintf(t, "%s%.17g%s", pre == 0 ? "" : pre == 1 ? "min=" : "step=", V, suf[nd_below(17)]);
    if (nd_below(10) == 0) { strcpy(t, nd_bool() ? "" : "what"); RV = 0; }
    STR = t; LEN = strlen(t); 
    if (LEN > 0) c = STR[LEN - 1];
    if (LEN > 1) before = STR[LEN - 2];
#endif
    /* sizes may end in b */
    bool ok = true; double want = V, p = nd_double(), p0 = p;
    if (RV == 1) {
        if (!time && LEN >= 2 && (c == 'b' || c == 'B')) { want = scaled(V, before, before2, false, &ok); }
        else want = scaled(V, c, before, time, &ok);
        if (c == 's' && LEN < 2) ok = false;
    }
    vp_exit_allowed = !ok;
    int rv = sscanf_unit(STR, FMT, &p, time);
    CHECK(ok, "unit: a time unit that is wrong or where none is expected is refused");
    CHECK((rv == 1) == (RV == 1), "unit: succeeds if there is a number");
    if (rv == 1) {
        CHECK(EQ(p, want), "unit: the number scaled by its unit");
        REACH("scaled");
    } else CHECK(same(p, p0), "unit: nothing is stored without a number");
}

/* --------------------------------------------- C21: values, distributions */
enum { T_MIN, T_MAX, T_STD, T_K, T_SCALE, T_AVG, T_STEP, T_COL, T_XAVG, T_XSTD, T_NUM, T_SEP, T_UNIT, T_NAME, T_KINDS };
static const char *const names[] = { "number", "unif", "exp", "norm", "lognorm", "gamma", "aseq", "gseq", "file" };
static const double unit_of[] = { 1e3, 1e3, 1e6, 1e6, 1e9, 1e9, 1e6, 1e3, 1.0, 1e-3 };
static const char *const unit_name[] = { "k", "K", "m", "M", "g", "G", "s", "ms", "us", "ns" };
typedef struct { double min, max, std, val, k, scale, xavg, xstd, unit; int col; char *fname, *sep; } given_t;
static given_t G;                        /* the last value given for each parameter */
static pd_spec_t SP; static pd_type_t PT; static int TIME;
static int T, T_unit; static double T_v; static int T_i;    /* the current entry */
static bool usable(void) {               /* by this distribution */
    if (T == T_STEP) return PT == ARITH_SEQ || PT == GEO_SEQ;
    if (T == T_XAVG || T == T_XSTD) return PT == LOGNORM;
    if (T == T_COL || T == T_SEP || T == T_UNIT || T == T_NAME) return PT == SFILE;
    return true;
}
static void take(char *s, char *se) {
    switch (T) {
    case T_MIN: G.min = T_v; break;
    case T_MAX: G.max = T_v; break;
    case T_STD: case T_STEP: G.std = T_v; break;
    case T_K: G.k = T_v; break;
    case T_SCALE: G.scale = T_v; break;
    case T_AVG: case T_NUM: G.val = T_v; break;
    case T_COL: G.col = T_i; break;
    case T_XAVG: G.xavg = T_v; break;
    case T_XSTD: G.xstd = T_v; break;
    case T_SEP: G.sep = se; break;
    case T_UNIT: G.unit = unit_of[T_unit]; break;
    case T_NAME: G.fname = s; break;
    }
}
static void an_entry(void) {
    T = nd_irange(0, T_KINDS - 1); T_v = a_number(); T_i = nd_irange(0, 1000); T_unit = nd_irange(0, 9);
    ASSUME(!isnan(T_v));
    ASSUME(PT != SFILE || (T != T_STEP && T != T_XAVG && T != T_XSTD));   /* those are file names */
}
static pd_spec_t WANT; static bool want_ok;
#ifdef VP_CBMC
#define LN_AVG __CPROVER_uninterpreted_exp(G.xavg + G.xstd * G.xstd / 2.0)
#define LN_STD __CPROVER_uninterpreted_sqrt((__CPROVER_uninterpreted_exp(G.xstd * G.xstd) - 1.0) * __CPROVER_uninterpreted_exp(2 * G.xavg + G.xstd * G.xstd))
#define SQRT __CPROVER_uninterpreted_sqrt
#else
#define LN_AVG exp(G.xavg + G.xstd * G.xstd / 2.0)
#define LN_STD sqrt((exp(G.xstd * G.xstd) - 1.0) * exp(2 * G.xavg + G.xstd * G.xstd))
#define SQRT sqrt
#endif
static void expected(void) {
    double val = G.val, std = G.std; bool ok;
    if (PT == GAMMA && !isnan(G.k) && !isnan(G.scale)) val = G.k * G.scale, std = SQRT(G.k) * G.scale;
    if (PT == ARITH_SEQ) { if (isnan(std)) std = 1; if (isnan(val)) val = std >= 0 ? G.min : G.max; }
    if (PT == GEO_SEQ) { if (isnan(std)) std = 2; if (isnan(val)) val = std >= 1 ? G.min : G.max; }
    if (PT == LOGNORM && !isnan(G.xavg) && !isnan(G.xstd)) { if (isnan(val)) val = LN_AVG; if (isnan(std)) std = LN_STD; }
    switch (PT) {
    case FIXED: ok = !isnan(val); break;
    case UNIF: ok = !isnan(G.min) && !isnan(G.max); break;
    case EXPON: ok = !isnan(val) && isnan(std); break;
    case NORM: case LOGNORM: case GAMMA: ok = !isnan(val) && !isnan(std); break;
    case ARITH_SEQ: ok = !isnan(val) && (std >= 0 ? !isnan(G.max) : !isnan(G.min)); break;
    case GEO_SEQ: ok = !isnan(val) && (std >= 1 ? !isnan(G.max) : !isnan(G.min)); break;
    default: ok = G.fname != NULL;
    }
    want_ok = ok;
    WANT = (pd_spec_t) { .prob = PT, .val = val, .std = std, .min = G.min, .max = G.max };
}
static double *SMP; static int NS, WS; static double s_0, s_u;    /* samples of a file, an arbitrary one */
#ifdef VP_CBMC
static char text[16], tok1[2], tok2[16], lnbuf[2];
static bool first_done, g_last;
static char *line_strsep(char **s, const char *d);
static char *vp_strsep(char **s, const char *d) {
    if (UNIT == U_LOAD) return line_strsep(s, d);
    if (!*s) return NULL;
    if (!first_done) {
        if (d[0] != ':' || d[1]) vp_unmodelled();
        first_done = true;
        G.unit = 1.0;
        if (nd_bool()) { *s = NULL; g_last = true; }
        return tok1;
    }
    if (d[0] != ',' || d[1]) vp_unmodelled();
    CHECK(!g_last, "values: entries taken one after the other");
    an_entry();
    vp_exit_allowed = !usable() || (PT == SFILE && T == T_UNIT && T_unit >= 6 && !TIME);
    if (nd_bool()) { *s = NULL; g_last = true; }
    return tok2;
}
static int vp_strcmp(const char *a, const char *b) {
    const char *x;
    if (a == tok1) x = names[PT];
    else if (a == tok2 + 5) { if (T != T_UNIT) vp_unmodelled(); x = unit_name[T_unit]; }
    else { vp_unmodelled(); return 0; }
    if (a == tok1 && PT == FIXED) return 1;
    for (int i = 0;; i++) { if (x[i] != b[i]) return 1; if (!x[i]) return 0; }
}
static int vp_strncmp(const char *a, const char *b, size_t n) {
    if (a != tok2) vp_unmodelled();
    if (n == 4 && b[0] == 's' && b[1] == 'e' && b[2] == 'p' && b[3] == '=') return T == T_SEP ? 0 : 1;
    if (n == 5 && b[0] == 'u' && b[1] == 'n' && b[2] == 'i' && b[3] == 't' && b[4] == '=') return T == T_UNIT ? 0 : 1;
    vp_unmodelled();
    return 1;
}
static size_t vp_strlen(const char *s) {
    if (UNIT == U_UNIT) { if (s != STR) vp_unmodelled(); return LEN; }
    if (s == text) return LEN;
    if (s == tok2 + 4) { if (nd_bool()) { vp_exit_allowed = true; return 0; } return 1; }
    vp_unmodelled(); return 0;
}
static bool line_sscanf(const char *s, double *v);
static int fmt_kind(const char *f) {
    static const char *const fmts[] = { "min=%lf", "max=%lf", "std=%lf", "k=%lf", "scale=%lf", "avg=%lf", "step=%lf", "col=%d", "xavg=%lf", "xstd=%lf", "%lf" };
    for (int k = 0; k < 11; k++) { int i = 0; while (f[i] && f[i] == fmts[k][i]) i++; if (f[i] == fmts[k][i]) return k; }
    vp_unmodelled();
    return -1;
}
static int vp_sscanf(const char *s, const char *fmt, void *v) {
    if (UNIT == U_UNIT) {
        if (s != STR || fmt != FMT) vp_unmodelled();
        if (RV == 1) *(double *)v = V;
        return RV;
    }
    int k = fmt_kind(fmt);
    if (UNIT == U_LOAD) { if (k != T_NUM) vp_unmodelled(); return line_sscanf(s, v); }
    CHECK(s == tok2, "values: reads the entry");
    if (k == T_COL && T == T_COL) { *(int *)v = T_i; return 1; }
    if ((k == T_XAVG || k == T_XSTD) && T == k) { *(double *)v = T_v; return 1; }
    if (k != T_COL && k != T_XAVG && k != T_XSTD) vp_unmodelled();
    return 0;
}
int unit_contract(const char *s, const char *fmt, double *v, int is_time) {
    int k = fmt_kind(fmt);
    if (s == tok1) {
        CHECK(is_time == TIME, "values: times where times are expected");
        if (k != T_NUM) vp_unmodelled();
        if (PT != FIXED) vp_unmodelled();
        if (nd_below(8) == 0) { vp_exit_allowed = true; return 0; }
        G.val = a_number(); ASSUME(!isnan(G.val));
        *v = G.val;
        return 1;
    }
    CHECK(s == tok2, "values: reads the entry");
    if (T != k) return 0;
    CHECK(is_time == (k == T_K || k == T_SCALE ? 0 : TIME), "values: times where times are expected");
    *v = T_v;
    return 1;
}
static bool p_matches(pd_spec_t *p, int col, char *fname, char *sep, double xavg, double xstd, double k, double scale, double unit) {
    return same(p->min, G.min) && same(p->max, G.max) && same(p->std, G.std) && same(p->val, G.val) && p->prob == PT && col == G.col && fname == G.fname
        && (sep == G.sep || (G.sep == NULL && sep[0] == ',' && sep[1] == 0)) && same(xavg, G.xavg) && same(xstd, G.xstd) && same(k, G.k) && same(scale, G.scale) && same(unit, G.unit);
}
static bool t_seen;
static void vp_tok_loop(char **s, char **tok, void *pp, int *col, char **fname, char **sep, double *xavg, double *xstd, double *k, double *scale, double *unit) {
    pd_spec_t *p = pp;
    CHECK(p == &SP, "values: the caller's");
    if (!t_seen) {
        t_seen = true;
        CHECK(p_matches(p, *col, *fname, *sep, *xavg, *xstd, *k, *scale, *unit), "values: nothing is given to begin with but a number");
        CHECK(first_done, "values: starts with a number or the kind of distribution");
        g_last = nd_bool(); *s = g_last ? NULL : text;
        double v0 = G.val;
        G.min = nd_double(); G.max = nd_double(); G.std = nd_double(); G.val = nd_double(); G.k = nd_double(); G.scale = nd_double(); G.xavg = nd_double(); G.xstd = nd_double();
        G.unit = nd_double(); G.col = nd_int(); G.fname = nd_bool() ? NULL : tok2; G.sep = nd_bool() ? NULL : tok2 + 4;
        ASSUME(PT == LOGNORM || (isnan(G.xavg) && isnan(G.xstd)));
        ASSUME(PT == SFILE || G.unit == 1.0);
        p->min = G.min; p->max = G.max; p->std = G.std; p->val = G.val; *k = G.k; *scale = G.scale; *xavg = G.xavg; *xstd = G.xstd; *unit = G.unit; *col = G.col; *fname = G.fname;
        *sep = G.sep ? G.sep : ",";
        vp_exit_allowed = false;
        if (g_last) { expected(); vp_exit_allowed = !want_ok; }
        REACH("any entry");
    } else {
        CHECK(usable() && !(PT == SFILE && T == T_UNIT && T_unit >= 6 && !TIME), "values: entries that do not belong to the distribution are refused");
        take(tok2, tok2 + 4);
        CHECK(p_matches(p, *col, *fname, *sep, *xavg, *xstd, *k, *scale, *unit), "values: an entry sets exactly its own parameter");
        if (T == T_MIN) REACH("bound taken");
        STOP();
    }
}
static bool c_seen;
static double c_v;
static void vp_scale_loop(int *i, void *pp, double unit) {
    pd_spec_t *p = pp;
    CHECK(p->samples == SMP && p->num_samples == NS && same(unit, G.unit), "values: the file's values");
    if (!c_seen) {
        c_seen = true;
        CHECK(*i == 0, "values: from the first one");
        *i = nd_irange(0, NS);
        HAVOC_OBJ(SMP);
        c_v = WS < *i ? s_u : s_0;
        ASSUME(same(SMP[WS], c_v));
    } else {
        CHECK(same(SMP[WS], WS < *i ? s_u : s_0), "values: every value of the file is scaled once");
        STOP();
    }
}
void load_contract(pd_spec_t *p, char *fname, int col, char *sep) {
    CHECK(p == &SP && fname == G.fname && fname && col == G.col && (sep == G.sep || (!G.sep && sep[0] == ',' && !sep[1])), "values: the given file, column and separator");
    CHECK(PT == SFILE, "values: a file is read only when asked for");
    NS = nd_irange(1, 1 << 24); WS = nd_irange(0, NS - 1);
    SMP = __CPROVER_allocate(NS * sizeof *SMP, 0);
    s_0 = SMP[WS]; s_u = s_0 * G.unit;
    p->samples = SMP; p->num_samples = NS; p->cur_sample = 0;
}
#endif
void h_parse(void) {
    UNIT = U_PARSE;
    PT = nd_irange(FIXED, SFILE); TIME = nd_bool();
#ifdef KIND
    PT = KIND;
#endif
    G = (given_t) { NAN, NAN, NAN, NAN, NAN, NAN, NAN, NAN, 1.0, 0, NULL, NULL };
#ifdef VP_CBMC
    text[0] = '1';
    int rv = pd_parse_internal(&SP, text, TIME);
    CHECK(g_last, "values: every entry is looked at");
#else
    static char t[4096], fn[64]; static double vals[8]; int n = 0, l = 0, bytes = 0; bool ok = true;
    if (!TIME) bytes = nd_bool();
    if (PT == FIXED) { G.val = a_number(); bool k = nd_bool(); l += sprintf(t, "%.17g%s", G.val, k ? "k" : ""); if (k) G.val *= 1000; }
    else {
        l += sprintf(t, "%s:", names[PT]);
        int ne = nd_below(7); bool withfile = PT == SFILE && nd_below(8);
        if (ne == 0 && !withfile) ASSUME(0);
        for (int e = 0; e < ne; e++) {
            an_entry();
            if (T == T_NAME || T == T_SEP || (T == T_COL && nd_bool())) T = T_NUM;
            if (T == T_COL) T_i = nd_below(2);
            if (!usable() && nd_below(4)) T = nd_below(3);
            if (!usable() || (PT == SFILE && T == T_UNIT && T_unit >= 6 && !TIME)) { if (PT == SFILE && T != T_UNIT) ASSUME(0); ok = false; }
            static const char *const fmts[] = { "min=%.17g", "max=%.17g", "std=%.17g", "k=%.17g", "scale=%.17g", "avg=%.17g", "step=%.17g", "col=%d", "xavg=%.17g", "xstd=%.17g", "%.17g" };
            if (e) t[l++] = ',';
            if (T == T_UNIT) l += sprintf(t + l, "unit=%s", unit_name[T_unit]);
            else if (T == T_COL) l += sprintf(t + l, "col=%d", T_i);
            else {
                l += sprintf(t + l, fmts[T], T_v);
                if (T != T_XAVG && T != T_XSTD && nd_bool()) {
                    bool tm = TIME && T != T_K && T != T_SCALE;
                    static const char *const sf[] = { "k", "M", "g", "ms", "ns", "us", "s" }; static const double sv[] = { 1e3, 1e6, 1e9, 1e3, 1e-3, 1, 1e6 };
                    int x = nd_below(tm ? 7 : 3); l += sprintf(t + l, "%s", sf[x]); T_v *= sv[x];
                    if (bytes && nd_bool()) t[l++] = 'b', t[l] = 0;
                }
            }
            take(fn, NULL);
        }
        if (withfile) {
            strcpy(fn, "/tmp/vp-dist-XXXXXX");
            int fd = mkstemp(fn), fd2 = dup(fd); ASSUME(fd2 >= 0); unlink(fn); sprintf(fn, "/proc/self/fd/%d", fd2);
            FILE *f = fdopen(fd, "w"); n = 1 + nd_below(20); double x[20][2];
            for (int i = 0; i < n; i++) { x[i][0] = a_number(); x[i][1] = a_number(); if (nd_below(6) == 0) fprintf(f, G.col == 0 && nd_bool() ? "\n\n" : "a,b\n"); fprintf(f, "%.17g,%.17g%s", x[i][0], x[i][1], i < n - 1 || nd_bool() ? "\n" : ""); }
            fclose(f);
            if (ne) t[l++] = ',';
            l += sprintf(t + l, "%s", fn); G.fname = fn;
            NS = n; WS = nd_below(n); s_0 = x[WS][G.col]; s_u = s_0 * G.unit;
        }
    }
    expected();
    vp_exit_allowed = !ok || !want_ok;
    int rv = bytes ? pd_parse_bytes(&SP, t) : TIME ? pd_parse_time(&SP, t) : pd_parse(&SP, t);
    CHECK(ok, "values: entries that do not belong to the distribution are refused");
#endif
    CHECK(rv == 1, "values: success is reported");
    CHECK(want_ok, "values: missing parameters are refused");
    CHECK(SP.prob == PT && EQ(SP.min, WANT.min) && EQ(SP.max, WANT.max), "values: the distribution named, with the range given");
    CHECK(EQ(SP.val, WANT.val), "values: the average or start is the one given or the default");
    CHECK(EQ(SP.std, WANT.std), "values: the deviation or step is the one given or the default");
    if (PT == SFILE) {
        CHECK(SP.num_samples == NS && SP.cur_sample == 0, "values: as many as in the file, starting with the first");
        CHECK(EQ(SP.samples[WS], s_u), "values: the file's values times its unit");
    } else CHECK(SP.samples == NULL, "values: no file");
    REACH("parsed");
}

/* the three ways to parse */
#ifdef VP_CBMC
static int w_calls, w_time; static bool w_cut;
int internal_contract(pd_spec_t *p, char *s, int is_time) {
    CHECK(p == &SP && s == STR, "parse: the given text");
    w_calls++; w_time = is_time; w_cut = LEN > 0 && STR[LEN - 1] == 0;
    return 1;
}
void h_ways(void) {
    UNIT = U_UNIT;
    LEN = nd_u32(); ASSUME(LEN <= 1 << 20);
    STR = __CPROVER_allocate(LEN + 1, 0);
    STR[LEN] = 0;
    uint32_t p = nd_below(LEN + 1); char c = STR[p];
    bool b = LEN > 0 && (STR[LEN - 1] == 'b' || STR[LEN - 1] == 'B');
    ASSUME(LEN == 0 || STR[LEN - 1] != 0);
    int way = nd_below(3), rv;
    rv = way == 0 ? pd_parse(&SP, STR) : way == 1 ? pd_parse_time(&SP, STR) : pd_parse_bytes(&SP, STR);
    CHECK(rv == 1 && w_calls == 1 && w_time == (way == 1), "parse: times as times, sizes and numbers not");
    if (way == 2 && b) { CHECK(w_cut, "parse: a final b is left out of sizes"); CHECK(p == LEN - 1 || STR[p] == c, "parse: nothing else is changed"); REACH("b"); }
    else { CHECK(STR[p] == c, "parse: the text is taken as it is"); REACH("as is"); }
}
#endif

/* ------------------------------------------------ C20: the values of a file */
#ifdef VP_CBMC
static char FN[2], SEPS[2]; static int COL; static FILE *FILEP; static bool f_open;
static int g_n; static double g_w;       /* values so far; value WS, if among them */
static int l_kind; static double l_v;    /* the current line: 0 no such column, 1 no number, 2 number */
static int l_col, l_m; static char cols[2];      /* column, number of columns */
static double *cur; static size_t cap;
static FILE *vp_fopen(const char *n, const char *m) { CHECK(n == FN && m[0] == 'r' && !m[1], "file: opened for reading"); if (nd_below(4) == 0) { vp_exit_allowed = true; return NULL; } f_open = true; return FILEP; }
static int vp_fclose(FILE *f) { CHECK(f == FILEP && f_open, "file: closed once"); f_open = false; return 0; }
static char *vp_fgets(char *b, int n, FILE *f) {
    CHECK(f == FILEP && f_open && n > 0, "file: lines of the open file");
    CHECK(__CPROVER_w_ok(b, n), "file: a line fits where it is stored");
    if (nd_bool()) { l_kind = -1; return NULL; }
    l_kind = nd_irange(0, 2); l_v = nd_double(); l_col = -1;
    l_m = nd_irange(1, 1 << 21); ASSUME((l_kind == 0) == (l_m <= COL));
    vp_exit_allowed = l_kind == 0;
    return b;
}
static char *line_strsep(char **s, const char *d) {
    CHECK(d == SEPS, "file: the given separator");
    if (l_col == -1) { l_col = 0; }
    else l_col++;
    if (l_col >= l_m) { *s = NULL; return NULL; }
    return cols;
}
static bool line_sscanf(const char *s, double *v) {
    CHECK(s == cols && l_col == COL, "file: the value of the given column");
    CHECK(l_kind != 0, "file: a line without that column is refused");
    if (l_kind == 1) return 0;
    *v = l_v;
    return 1;
}
static bool col_seen;
static void vp_col_loop(int *c, char **colstr) {
    /* head of the do loop: c columns still to pass */
    if (!col_seen) {
        col_seen = true;
        CHECK(*c == COL && l_col == -1, "file: starts with the first column");
        l_col = nd_irange(-1, COL - 1);
        *c = COL - 1 - l_col;
        *colstr = l_col < 0 ? *colstr : cols;
        ASSUME(l_col < l_m);
    } else {
        CHECK(*colstr == cols && *c == COL - 1 - l_col && l_col < COL && l_col < l_m, "file: one column after the other");
        STOP();
    }
}
static void *vp_malloc(size_t n) { cap = n; if (nd_below(8) == 0) { vp_exit_allowed = true; return NULL; } cur = __CPROVER_allocate(n, 0); return cur; }
static void *vp_realloc(void *p, size_t n) {
    CHECK(p == cur, "file: the values read so far are kept");
    CHECK(n >= g_n * sizeof *cur, "file: room for the values read so far");
    if (nd_below(8) == 0 || n == 0) { vp_exit_allowed = true; return NULL; }
    double *q = __CPROVER_allocate(n, 0);
    if (WS < g_n) { ASSUME(bits(q[WS]) == bits(cur[WS])); }
    cap = n; cur = q;
    return q;
}
static bool ln_seen;
static void vp_line_loop(int *n, int *n_max, void *pp) {
    pd_spec_t *p = pp;
    CHECK(p == &SP && p->samples == cur, "file: the caller's values");
    if (!ln_seen) {
        ln_seen = true;
        CHECK(*n == 0 && *n_max > 0 && cap == *n_max * sizeof(double), "file: no values yet, and room for some");
        *n_max = nd_irange(1, 1 << 28); *n = nd_irange(0, *n_max); g_n = *n;
        cap = *n_max * sizeof(double); cur = __CPROVER_allocate(cap, 0); p->samples = cur;
        if (WS < g_n) g_w = cur[WS];
        REACH("any line");
    } else {
        if (l_kind == 2) { if (g_n == WS) g_w = l_v; g_n++; }
        CHECK(l_kind != 0, "file: a line without that column is refused");
        CHECK(*n == g_n && *n <= *n_max && cap >= *n_max * sizeof(double), "file: one value per line that has one, and room for all");
        CHECK(WS >= g_n || same(cur[WS], g_w), "file: the values in their order");
        if (l_kind == 2) REACH("value taken");
        STOP();
    }
}
void h_file(void) {
    UNIT = U_LOAD;
    COL = nd_irange(0, 1 << 20); WS = nd_irange(0, 1 << 28);
    FILEP = (FILE *)&FILEP;
    pd_spec_t s0 = { nd_irange(FIXED, SFILE), nd_double(), nd_double(), nd_double(), nd_double() };
    SP = s0;
    pd_load_file(&SP, FN, COL, SEPS);
    CHECK(!f_open, "file: closed");
    CHECK(SP.num_samples == g_n && SP.num_samples > 0 && SP.cur_sample == 0, "file: as many values as lines with one, at least one, starting with the first");
    CHECK(WS >= g_n || same(SP.samples[WS], g_w), "file: the values in their order");
    CHECK(SP.prob == s0.prob && same(SP.val, s0.val) && same(SP.std, s0.std) && same(SP.min, s0.min) && same(SP.max, s0.max), "file: nothing else is changed");
    REACH("loaded");
}
#endif

/* -------------------------------------------------------- C20: sampling */
static pd_spec_t S0; static int n_draw; static int SK;      /* the distribution before; some sample within the range */
static double r_val; static bool r_any;
static int vp_drand(struct drand48_data *b, double *x) {
    (void)b;
    uint64_t r = nd_u64() & ((1UL << 48) - 1);
    *x = r * 0x1p-48;
    n_draw++;
#ifdef VP_CBMC
    if (PT == UNIF) {                    /* IEEE arithmetic is monotone: u <= v implies u * d <= v * d for d >= 0, and a + u <= a + v */
        double d = S0.max - S0.min, y = d * *x, z = *x * d;
        ASSUME(y >= 0 && y <= d && z == y);
        ASSUME(S0.min + y >= S0.min && S0.min + y <= S0.min + d && z + S0.min == S0.min + y);
    }
#endif
    return 0;
}
static bool within(double v) { return !(!isnan(S0.min) && v < S0.min) && !(!isnan(S0.max) && v > S0.max); }
static double bounded(double v) { return v >= S0.max ? S0.max : v <= S0.min ? S0.min : v; }
static int skipped_to;
#ifdef VP_CBMC
double expon_contract(double lambda) { return nd_double(); }
double gauss_contract(double avg, double std) { return nd_double(); }
double gamma_contract(double avg, double std) { return nd_double(); }
static bool rt_seen; static int rt_cur;
static bool passed(int w, int cur) { return S0.cur_sample <= cur ? (w >= S0.cur_sample && w < cur) : (w >= S0.cur_sample || w < cur); }
static void vp_retry(void *pp) {
    pd_spec_t *p = pp;
    CHECK(p == &SP, "sample: the caller's distribution");
    if (!rt_seen) {
        rt_seen = true;
        if (PT == SFILE) {               /* some values outside the range have been passed over */
            p->cur_sample = nd_irange(0, S0.num_samples - 1);
            ASSUME(!passed(SK, p->cur_sample) && !(passed(WS, p->cur_sample) && within(SMP[WS])));
            rt_cur = p->cur_sample;
        } else if ((PT == ARITH_SEQ || PT == GEO_SEQ) && !within(S0.val) && nd_bool()) {
            p->val = nd_double();        /* values outside the range have been passed over */
            ASSUME(!isnan(p->val));
            r_any = true;
        }
        r_val = p->val;
    } else {
        if (PT == SFILE) {
            CHECK(p->cur_sample >= 0 && p->cur_sample < S0.num_samples, "sample: a value of the file is next");
            CHECK(!within(SMP[rt_cur]), "sample: only values outside the range are passed over");
            CHECK(p->cur_sample == (rt_cur + 1 == S0.num_samples ? 0 : rt_cur + 1), "sample: one value of the file after the other");
        } else if (PT == ARITH_SEQ || PT == GEO_SEQ) {
            CHECK(!within(r_val), "sample: only values outside the range are passed over");
        } else CHECK(same(p->val, S0.val), "sample: drawn again from the same distribution");
        CHECK(PT != FIXED && PT != UNIF, "sample: fixed and uniform values are never drawn again");
        CHECK(p->prob == PT && same(p->std, S0.std) && same(p->min, S0.min) && same(p->max, S0.max) && p->samples == SMP && p->num_samples == S0.num_samples, "sample: parameters stay");
        STOP();
    }
}
#endif
static void a_spec(void) {
    S0 = (pd_spec_t) { .prob = PT, .val = NAN, .std = NAN, .min = NAN, .max = NAN };
    if (nd_bool() || PT == UNIF) S0.min = a_number();
    if (nd_bool() || PT == UNIF) S0.max = a_number();
#ifdef VP_NATIVE
    if (S0.min > S0.max) { double t = S0.min; S0.min = S0.max; S0.max = t; }
#endif
    ASSUME(isnan(S0.min) || isnan(S0.max) || S0.min <= S0.max);
    ASSUME(!isinf(S0.min) && !isinf(S0.max));
    if (PT == UNIF) ASSUME(!isnan(S0.min) && !isnan(S0.max));
#ifdef VP_CBMC
    if (PT == UNIF) ASSUME(S0.min + (S0.max - S0.min) == S0.max);
#endif
    S0.val = a_number(); S0.std = PT == EXPON ? NAN : a_number();
    ASSUME(!isnan(S0.val));
#ifdef VP_NATIVE
    if (PT == NORM || PT == LOGNORM || PT == EXPON || PT == GAMMA) {
        S0.val = 1 + nd_below(100); S0.std = 1 + nd_below(20);
        if (PT == EXPON) S0.std = NAN;
        if (PT == GAMMA) { int k = 1 + nd_below(4); double sc = 1 + nd_below(9); S0.val = k * sc; S0.std = sqrt(k) * sc; }
        if (!isnan(S0.min)) S0.min = S0.val * 0.75;
        if (!isnan(S0.max)) S0.max = S0.val * 1.25;
    }
    if (PT == ARITH_SEQ && nd_bool()) S0.std = -S0.std;
    if (PT == GEO_SEQ && nd_bool()) S0.std = 1 / (1 + S0.std);
#endif
    if (PT == ARITH_SEQ) ASSUME(S0.std >= 0 ? !isnan(S0.max) : !isnan(S0.min));
    if (PT == GEO_SEQ) ASSUME(S0.std >= 1 ? !isnan(S0.max) : !isnan(S0.min));
    if (PT == ARITH_SEQ || PT == GEO_SEQ) ASSUME(!isnan(S0.std));
    if (PT == SFILE) {
#ifdef VP_CBMC
        S0.num_samples = nd_irange(1, 1 << 28);
        SMP = __CPROVER_allocate(S0.num_samples * sizeof *SMP, 0);
        S0.cur_sample = nd_irange(0, S0.num_samples - 1);
        SK = nd_irange(0, S0.num_samples - 1); WS = nd_irange(0, S0.num_samples - 1);
#else
        S0.num_samples = 1 + nd_below(8);
        SMP = malloc(S0.num_samples * sizeof *SMP);
        S0.cur_sample = nd_below(S0.num_samples); SK = nd_below(S0.num_samples); WS = nd_below(S0.num_samples);
        for (int i = 0; i < S0.num_samples; i++) SMP[i] = a_number();
#endif
        S0.samples = SMP;
        ASSUME(within(SMP[SK]));         /* else there is nothing to draw */
    }
    SP = S0;
}
void h_sample(void) {
    PT = nd_irange(FIXED, SFILE);
#ifdef KIND
    PT = KIND;
#endif
    a_spec();
    double w0 = PT == SFILE ? SMP[WS] : 0;
    int other_errno = 0; (void)other_errno;
    double v = pd_sample(&SP);
    if (PT == FIXED) { CHECK(same(v, S0.val), "sample: the fixed value"); }
    else if (PT == UNIF) {
        CHECK(v >= S0.min && v <= S0.max, "sample: uniform within its bounds");
    } else { CHECK(within(v), "sample: within the range given"); }
    if (PT == ARITH_SEQ || PT == GEO_SEQ) {
        if (within(S0.val)) {
            CHECK(same(v, S0.val), "sample: the next value of the sequence");
            CHECK(same(SP.val, bounded(PT == ARITH_SEQ ? S0.val + S0.std : S0.val * S0.std)), "sample: the value after it is a step on, or the bound reached");
        }
    } else CHECK(same(SP.val, S0.val), "sample: parameters stay");
    if (PT == SFILE) {
        int at = SP.cur_sample == 0 ? S0.num_samples - 1 : SP.cur_sample - 1;
        CHECK(SP.cur_sample >= 0 && SP.cur_sample < S0.num_samples, "sample: a value of the file is next");
        CHECK(same(v, SMP[at]), "sample: the value of the file in front of the next one");
        int dw = WS - S0.cur_sample, da = at - S0.cur_sample;
        if (dw < 0) dw += S0.num_samples;
        if (da < 0) da += S0.num_samples;
        CHECK(!within(SMP[WS]) || dw >= da, "sample: values of the file within the range in order, starting again after the last");
        CHECK(same(SMP[WS], w0), "sample: the file's values stay");
    } else CHECK(SP.cur_sample == S0.cur_sample, "sample: parameters stay");
    CHECK(SP.prob == PT && same(SP.std, S0.std) && same(SP.min, S0.min) && same(SP.max, S0.max) && SP.samples == S0.samples && SP.num_samples == S0.num_samples, "sample: parameters stay");
    REACH("sampled");
}
#pragma CPROVER check pop
