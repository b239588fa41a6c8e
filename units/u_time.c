/* C03: contracts of the time helpers (src/timespec.h). */
#include "vp.h"
#include "timespec.h"
#define G 1000000000L
#define SMAX (1L << 40)
static bool norm(struct timespec t) { return t.tv_nsec >= 0 && t.tv_nsec < G; }
static struct timespec any_ts(void) {
    struct timespec t;
    t.tv_sec = nd_range(-SMAX, SMAX);
    t.tv_nsec = nd_range(0, G - 1);
    return t;
}
void h_add(void) {
    struct timespec a = any_ts(), b = any_ts(), c = ts_add(a, b);
    CHECK(norm(c), "add: result normalised");
    long carry = a.tv_nsec + b.tv_nsec >= G;
    CHECK(c.tv_sec == a.tv_sec + b.tv_sec + carry && c.tv_nsec == a.tv_nsec + b.tv_nsec - carry * G, "add: exact sum");
    REACH("add");
}
void h_sub(void) {
    struct timespec a = any_ts(), b = any_ts(), c = ts_sub(a, b);
    CHECK(norm(c), "sub: result normalised");
    long borrow = a.tv_nsec < b.tv_nsec;
    CHECK(c.tv_sec == a.tv_sec - b.tv_sec - borrow && c.tv_nsec == a.tv_nsec - b.tv_nsec + borrow * G, "sub: exact difference");
    REACH("sub");
}
void h_sub_us(void) {
    struct timespec a = any_ts(), b = any_ts();
    long r = ts_sub_us(a, b);
    /* the exact difference in ns is ds * 10^9 + dn with 0 <= dn < 10^9 */
    long borrow = a.tv_nsec < b.tv_nsec;
    long ds = a.tv_sec - b.tv_sec - borrow, dn = a.tv_nsec - b.tv_nsec + borrow * G;
    long us = r - ds * 1000000;
    CHECK(us >= 0 && us < 1000000, "sub_us: whole microseconds of the difference");
    CHECK(us * 1000 <= dn && dn < (us + 1) * 1000, "sub_us: exact difference rounded down to microseconds");
    REACH("sub_us");
}
void h_leq(void) {
    struct timespec a = any_ts(), b = any_ts();
    int r = ts_leq(a, b);
    bool less = a.tv_sec < b.tv_sec || (a.tv_sec == b.tv_sec && a.tv_nsec < b.tv_nsec);
    bool more = a.tv_sec > b.tv_sec || (a.tv_sec == b.tv_sec && a.tv_nsec > b.tv_nsec);
    CHECK(!less || r, "leq: an earlier time precedes");
    CHECK(!more || !r, "leq: a later time does not precede");
    REACH("leq");
}
void h_us_its(void) {
    int us = nd_irange(0, 0x7fffffff);
    struct itimerspec t = us_to_its(us);
    CHECK(t.it_interval.tv_sec == 0 && t.it_interval.tv_nsec == 0, "us_to_its: one shot");
    CHECK(norm(t.it_value) && t.it_value.tv_sec >= 0, "us_to_its: normalised");
    CHECK((us == 0) == (t.it_value.tv_sec == 0 && t.it_value.tv_nsec == 0), "us_to_its: zero exactly for zero");
    CHECK(its_to_us(t) == us, "us_to_its/its_to_us: identity");
    REACH("us_its");
}
