/* Contracts of the node's storage side: C16 store/load, C17 exact-length
 * transfers, C19 compute_for. */
#include "vp.h"
#define VP_RW
#define VP_FILE
#define VP_CLOCK
#define VP_NODE_DECL \
    static void vp_sw_loop(unsigned char **buf, size_t *len); \
    static void vp_sr_loop(unsigned char **buf, size_t *len, size_t *lol); \
    static void vp_cf_loop(struct timespec *ts_end); \
    static void vp_st_loop(size_t *bytes, size_t *done);
#include "vp_node.h"

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"

/* ------------------------------------------------- exact-length transfers */
#ifdef VP_CBMC
#define MAXB (1UL << 48)
#else
#define MAXB 40UL
#endif
#define MAXRW 0x7ffff000UL            /* a single transfer, man 2 write */
static unsigned char *B; static size_t N, KB; static int FD;
static size_t g_done;                 /* bytes transferred */
static bool g_err, g_eof;             /* a failed transfer; the last read found no data */
static bool g_seeked; static size_t g_seek_at; /* restarted, and after how many bytes */
static unsigned char g_kv;            /* what byte KB should hold */
static bool g_ended;
static int g_store;                    /* in a unit of store/load */
static ssize_t store_rw(int fd, unsigned char *buf, size_t n, bool rd);
static ssize_t vp_write(int fd, const void *buf, size_t n) {
    if (g_store) return store_rw(fd, (unsigned char *)buf, n, false);
    CHECK(fd == FD, "write: to the given descriptor");
    CHECK(!g_err, "write: nothing written after a failure");
    CHECK((const unsigned char *)buf == B + g_done, "write: starts at the first byte not yet accepted");
    CHECK(n > 0 && n <= N - g_done, "write: only bytes of the buffer not yet accepted");
    if (nd_below(4) == 0) { g_err = true; vp_errno = nd_irange(1, 133); return -1; }
    size_t k = nd_u64();
#ifdef VP_CBMC
    ASSUME(k <= n && k <= MAXRW);
#else
    k %= n + 1;
#endif
    g_done += k;
    return (ssize_t)k;
}
static int sw_seen; static size_t sw_0;
static void vp_sw_loop(unsigned char **buf, size_t *len) {
#ifdef VP_CBMC
    if (!sw_seen) {
        sw_seen = 1;
        CHECK(*buf == B && *len == N && g_done == 0, "write loop: starts with the whole buffer");
        g_done = nd_u64();
        ASSUME(g_done <= N);
        sw_0 = g_done;
        *buf = B + g_done; *len = N - g_done;
    } else {
        CHECK(*buf == B + g_done && *len == N - g_done, "write loop: the rest is what was not accepted");
        CHECK(g_done >= sw_0 && g_done <= N && !g_err, "write loop: continues only without failure");
        STOP();
    }
#endif
}
static void any_transfer(void) {
    FD = nd_irange(0, 0x7fffffff);
    N = nd_u64();
#ifdef VP_CBMC
    ASSUME(N <= MAXB);
#else
    N %= MAXB + 1;
#endif
    B = malloc(N + 1);
    KB = nd_u64();
#ifdef VP_CBMC
    ASSUME(KB <= N);
#else
    KB %= N + 1;
#endif
    g_kv = nd_u8();
    B[KB] = g_kv;
}
void h_safe_write(void) {
    any_transfer();
    int r = safe_write(FD, B, N);
    CHECK(r == 0 || r == -1, "write: success or failure");
    if (r == 0) CHECK(g_done == N && !g_err, "write: success only after every byte was accepted");
    else CHECK(g_err, "write: failure only if a write failed");
    CHECK(B[KB] == g_kv, "write: the buffer is not altered");
    if (r == 0 && N > 0) REACH("written");
    if (r < 0) REACH("write failed");
}
static ssize_t vp_read(int fd, void *buf, size_t n) {
    if (g_store) return store_rw(fd, buf, n, true);
    CHECK(fd == FD, "read: from the given descriptor");
    CHECK(!g_err, "read: nothing read after a failure");
    CHECK(!(g_eof && !(g_seeked && g_seek_at == g_done)), "read: at end of data it restarts first");
    CHECK((unsigned char *)buf == B + g_done, "read: stores behind the bytes already read");
    CHECK(n > 0 && n <= N - g_done, "read: never beyond the buffer's n bytes");
    CHECK(!g_ended, "read: not asked again once a restart yielded nothing");
    if (nd_below(8) == 0) { g_err = true; vp_errno = nd_irange(1, 133); return -1; }
    size_t k = nd_u64();
#ifdef VP_CBMC
    ASSUME(k <= n && k <= MAXRW);
#else
    k = k % 3 == 0 ? 0 : k % (n + 1);
#endif
    if (KB >= g_done && KB < g_done + k) { g_kv = nd_u8(); B[KB] = g_kv; }
    g_done += k;
    if (k == 0 && g_eof) g_ended = true;
    g_eof = k == 0;
    return (ssize_t)k;
}
static off_t store_lseek(int fd, off_t off, int whence);
static off_t vp_lseek(int fd, off_t off, int whence) {
    if (g_store) return store_lseek(fd, off, whence);
    CHECK(fd == FD && off == 0 && whence == SEEK_SET, "read: restarts from the beginning of the file");
    CHECK(g_eof, "read: restarts only at end of data");
    g_seeked = true; g_seek_at = g_done;
    return 0;
}
static int sr_seen;
static void vp_sr_loop(unsigned char **buf, size_t *len, size_t *lol) {
#ifdef VP_CBMC
    if (!sr_seen) {
        sr_seen = 1;
        CHECK(*buf == B && *len == N && g_done == 0 && *lol == 0, "read loop: starts with the whole buffer");
        g_done = nd_u64(); g_seek_at = nd_u64(); g_seeked = nd_bool(); g_eof = nd_bool();
        ASSUME(g_done <= N && (!g_seeked || g_seek_at <= g_done) && (!g_seeked || g_seek_at < N));
        ASSUME(!g_eof || (g_seeked && g_seek_at == g_done));
        ASSUME(!(g_seeked && g_seek_at == g_done) || g_eof);
        *buf = B + g_done; *len = N - g_done; *lol = g_seeked ? N - g_seek_at : 0;
    } else {
        CHECK(*buf == B + g_done && *len == N - g_done && g_done <= N, "read loop: the rest is what was not read");
        CHECK(!g_err && !g_ended, "read loop: continues only without failure");
        CHECK(*lol == (g_seeked ? N - g_seek_at : 0), "read loop: the last restart is remembered");
        CHECK((!g_seeked || (g_seek_at <= g_done && g_seek_at < N)) && (!g_eof || (g_seeked && g_seek_at == g_done)), "read loop: restarted at end of data");
        CHECK(!(g_seeked && g_seek_at == g_done) || g_eof, "read loop: restart state");
        STOP();
    }
#endif
}
void h_safe_read(void) {
    any_transfer();
    int r = safe_read(FD, B, N);
    CHECK(r == 0 || r == -1, "read: success or failure");
    if (r == 0) CHECK((g_done == N || g_ended) && !g_err, "read: gives up only when a restart yielded nothing");
    else CHECK(g_err, "read: failure only if a read failed");
    CHECK(B[KB] == g_kv, "read: every byte stored once, nothing else altered");
    if (r == 0 && g_done == N && g_seeked) REACH("read with restart");
    if (r == 0 && g_ended) REACH("read gave up");
    if (r < 0) REACH("read failed");
}

/* ---------------------------------------------------------------- compute */
static struct timespec c_beg, c_now; static int c_reads; static bool c_due;
static unsigned long c_us, c_s, c_r;   /* the request; its seconds and the microseconds beyond */
static bool passed(void) {
    long ds = c_now.tv_sec - c_beg.tv_sec, dn = c_now.tv_nsec - c_beg.tv_nsec;
    if (dn < 0) { ds--; dn += 1000000000L; }
    return ds > (long)c_s || (ds == (long)c_s && dn >= (long)c_r * 1000);
}
static void any_time(struct timespec *t) {
#ifdef VP_CBMC
    t->tv_sec = (long)nd_u64(); t->tv_nsec = (long)nd_u64();
    ASSUME(t->tv_sec >= 0 && t->tv_sec < (1L << 31) && t->tv_nsec >= 0 && t->tv_nsec < 1000000000L);
#else
    t->tv_sec = c_reads ? c_now.tv_sec + nd_below(2) : 5; t->tv_nsec = nd_below(1000000000);
    if (c_reads > 20) t->tv_sec += 5000;
    if (c_reads && (t->tv_sec < c_now.tv_sec || (t->tv_sec == c_now.tv_sec && t->tv_nsec < c_now.tv_nsec))) *t = c_now;
#endif
}
static int vp_clock_gettime(clockid_t id, struct timespec *ts) {
    CHECK(id == CLOCK_THREAD_CPUTIME_ID, "compute: measured in CPU time of the thread");
    CHECK(!c_due, "compute: returns at the first reading that shows the time has passed");
    struct timespec t;
    any_time(&t);
#ifdef VP_CBMC
    if (c_reads) ASSUME(t.tv_sec > c_now.tv_sec || (t.tv_sec == c_now.tv_sec && t.tv_nsec >= c_now.tv_nsec));
#endif
    c_now = t;
    if (!c_reads++) c_beg = t;
    else c_due = passed();
    *ts = t;
    return 0;
}
static int cf_seen;
static void vp_cf_loop(struct timespec *ts_end) {
#ifdef VP_CBMC
    if (!cf_seen) {
        cf_seen = 1;
        CHECK(c_reads == 1, "compute loop: the start time is taken first");
        any_time(&c_now);             /* the latest reading so far */
        ASSUME(c_now.tv_sec > c_beg.tv_sec || (c_now.tv_sec == c_beg.tv_sec && c_now.tv_nsec >= c_beg.tv_nsec));
        *ts_end = c_now;
    } else {
        CHECK(!c_due, "compute loop: continues only while time is left");
        STOP();
    }
#endif
}
void h_compute(void) {
#ifdef VP_CBMC
    c_s = nd_u32(); c_r = nd_u32();
    ASSUME(c_s <= 4294 && c_r < 1000000 && (c_s < 4294 || c_r <= 967295));
    c_us = c_s * 1000000 + c_r;
#else
    c_us = nd_u32();
    if (c_us & 1) c_us %= 4000000;
    c_s = c_us / 1000000; c_r = c_us % 1000000;
#endif
    compute_for(c_us);
    CHECK(c_reads >= 2 && passed(), "compute: at least the requested CPU time has passed");
    REACH("computed");
}

/* ------------------------------------------------------------ store, load */
static storage_worker_info_t SI;
static off_t f_pos;                    /* the file's position */
static uint64_t t_bytes, t_start;      /* what has to be transferred, from where */
static bool l_over;                    /* the load runs beyond the end of the file */
static bool s_lseek_fail; static int s_fsyncs; static bool s_chunk;
static uint64_t s_moved; static bool s_load;
#ifdef VP_CBMC
static ssize_t store_rw(int fd, unsigned char *buf, size_t n, bool rd) { CHECK(false, "storage: transfers through the exact-length functions"); return -1; }
#else
static uint64_t f_size; static bool f_end;   /* the file's size; a read found its end */
static ssize_t store_rw(int fd, unsigned char *buf, size_t n, bool rd) {
    CHECK(fd == SI.storage_info.storage_fd, "storage: transfers with the storage file");
    CHECK(rd == s_load, "storage: a store writes, a load reads");
    CHECK(buf >= SI.store_buf && buf + n <= SI.store_buf + BUF_SIZE, "storage: within the storage buffer");
    CHECK(n <= t_bytes - s_moved, "storage: no more bytes than requested");
    if (!s_chunk) CHECK((uint64_t)f_pos == t_start, "storage: starts at the right place");
    s_chunk = true;
    size_t k = nd_below(4) == 0 ? 1 + nd_u64() % n : n;
    if (rd) {
        if ((uint64_t)f_pos >= f_size) k = 0;
        else if (k > f_size - f_pos) k = f_size - f_pos;
        f_end = k == 0;
    }
    f_pos += k; s_moved += k;
    return (ssize_t)k;
}
#endif
static off_t store_lseek(int fd, off_t off, int whence) {
#ifdef VP_NATIVE
    if (s_load && f_end && off == 0 && whence == SEEK_SET) { f_pos = 0; f_end = false; return 0; }
#endif
    CHECK(fd == SI.storage_info.storage_fd, "storage: seeks in the storage file");
    CHECK(!s_chunk || (s_moved == t_bytes && off == 0 && whence == SEEK_CUR), "storage: no seek during a transfer");
    if (whence == SEEK_CUR) { CHECK(off == 0, "storage: only asks for the position"); return f_pos; }
    CHECK(whence == SEEK_SET, "storage: absolute seeks");
    if (off < 0) { s_lseek_fail = true; vp_errno = EINVAL; return -1; }
    f_pos = off;
    return off;
}
static int vp_fsync(int fd) {
    CHECK(fd == SI.storage_info.storage_fd, "sync: of the storage file");
    CHECK(s_moved == t_bytes, "sync: after all the data was written");
    s_fsyncs++;
    return 0;
}
static void chunk(int fd, unsigned char *buf, size_t len) {
    CHECK(fd == SI.storage_info.storage_fd, "storage: transfers with the storage file");
    CHECK(buf == SI.store_buf && len <= BUF_SIZE, "storage: within the storage buffer");
    CHECK(len <= t_bytes - s_moved, "storage: no more bytes than requested");
    if (!s_chunk) CHECK((uint64_t)f_pos == t_start, "storage: starts at the right place");
    s_chunk = true;
    s_moved += len;
}
/* contracts of safe_write and safe_read */
int safe_write_contract(int fd, unsigned char *buf, size_t len) {
    CHECK(!s_load, "storage: a load does not write");
    chunk(fd, buf, len);
    if (nd_below(8) == 0) { vp_exit_allowed = 1; return -1; }
    f_pos += len;
    return 0;
}
int safe_read_contract(int fd, unsigned char *buf, size_t len) {
    CHECK(s_load, "storage: a store does not read");
    chunk(fd, buf, len);
    if (nd_below(8) == 0) { vp_exit_allowed = 1; return -1; }
    if (l_over) { f_pos = nd_u32(); }  /* continued from the start of the file */
    else f_pos += len;
    return 0;
}
static int st_seen;
static void vp_st_loop(size_t *bytes, size_t *done) {
#ifdef VP_CBMC
    if (!st_seen) {
        st_seen = 1;
        CHECK(*done == 0 && !s_chunk, "storage loop: starts with nothing transferred");
        CHECK(t_bytes == 0 || (uint64_t)f_pos == t_start, "storage loop: starts at the right place");
        s_moved = nd_u64(); *bytes = nd_u64();
        ASSUME(s_moved <= t_bytes);
        if (s_moved > 0) { s_chunk = true; f_pos = s_load && l_over ? (off_t)nd_u32() : (off_t)(t_start + s_moved); }
        *done = s_moved;
    } else {
        CHECK(*done == s_moved && s_moved <= t_bytes, "storage loop: counts the bytes transferred");
        CHECK((s_load && l_over) || (uint64_t)f_pos == t_start + s_moved, "storage loop: back to back");
        CHECK(s_chunk, "storage loop: transfers something");
        STOP();
    }
#endif
}
#ifndef BLK
#define BLK 4096UL
#endif
#ifdef VP_CBMC
#define BIG (1UL << 62)
static uint64_t any_big(void) { uint64_t v = nd_u64(); ASSUME(v <= BIG); return v; }
#else
static uint64_t any_big(void) { uint64_t v = nd_u64(); return v % (nd_bool() ? 1UL << 33 : 3000); }
#endif
static uint64_t round_up(uint64_t v) { return (v + (BLK - 1)) & ~(BLK - 1); }
static storage_info_t o_info;
static void any_storage(void) {
    g_store = 1;
    SI.storage_info.storage_fd = nd_irange(0, 0x7fffffff);
    SI.storage_info.use_odirect = nd_bool();
    SI.storage_info.max_storage_size = any_big();
    SI.storage_info.storage_eof = any_big();
    SI.storage_info.storage_offset = any_big();
#ifdef VP_CBMC
    ASSUME(SI.storage_info.storage_eof <= SI.storage_info.max_storage_size);
    uint32_t n = nd_u32(); ASSUME(n == BUF_SIZE);
    SI.store_buf = malloc(n);
#else
    if (SI.storage_info.storage_eof > SI.storage_info.max_storage_size) SI.storage_info.storage_eof = SI.storage_info.max_storage_size;
    SI.store_buf = malloc(BUF_SIZE);
#endif
    SI.periodic_sync_msec = nd_irange(-1, 1000);
    blk_size = BLK;
    f_pos = SI.storage_info.storage_offset;      /* where the last operation ended */
    o_info = SI.storage_info;
}
static void storage_post(void) {
    CHECK(s_moved == t_bytes, "storage: exactly the requested number of bytes");
    CHECK(SI.storage_info.storage_fd == o_info.storage_fd && SI.storage_info.use_odirect == o_info.use_odirect &&
          SI.storage_info.max_storage_size == o_info.max_storage_size, "storage: configuration unchanged");
    CHECK(SI.storage_info.storage_offset == (uint64_t)f_pos, "storage: where the operation ended is recorded");
    CHECK(SI.storage_info.storage_eof <= SI.storage_info.max_storage_size, "storage: recorded end of data within the maximum size");
}
void h_store(void) {
    any_storage();
    store_opts_t o = {0};
    o.store_nbytes = any_big();
    bool given = nd_bool();
    o.offset = given ? nd_u64() : (uint64_t)-1;
#ifdef VP_CBMC
    if (given) ASSUME(o.offset != (uint64_t)-1 && (o.offset <= BIG || (o.offset >= 1UL << 63 && o.offset < (uint64_t)-1 - BLK)));
#else
    if (given) o.offset %= nd_bool() ? 1UL << 62 : 20000;
#endif
    o.wait_sync = nd_u8();
    bool od = SI.storage_info.use_odirect;
    t_bytes = od ? round_up(o.store_nbytes) : o.store_nbytes;
    uint64_t at = od ? round_up(o.offset) : o.offset;
    t_start = given ? at : o_info.storage_offset + t_bytes > o_info.max_storage_size ? 0 : o_info.storage_offset;
    store(&SI, SI.store_buf, &o);
    if (s_lseek_fail) { CHECK(!s_chunk && SI.storage_info.storage_offset == o_info.storage_offset, "store: nothing is written at an impossible offset"); return; }
    storage_post();
    CHECK(SI.storage_info.storage_offset == t_start + t_bytes, "store: written from the right place on");
    uint64_t end = t_start + t_bytes, eof = end > o_info.storage_eof ? end : o_info.storage_eof;
    CHECK(SI.storage_info.storage_eof == (eof > o_info.max_storage_size ? o_info.max_storage_size : eof), "store: end of data recorded");
    if (o.wait_sync && SI.periodic_sync_msec <= 0) CHECK(s_fsyncs > 0, "store: synchronised when asked for");
    if (given && t_bytes > 0) REACH("store at");
    if (!given && t_start == 0 && t_bytes > 0 && o_info.storage_offset > 0) REACH("store wrapped");
    if (od) REACH("store direct");
}
void h_load(void) {
    s_load = true;
    any_storage();
    load_opts_t o = {0};
    o.load_nbytes = any_big();
    bool given = nd_bool();
    o.offset = given ? nd_u64() : (uint64_t)-1;
#ifdef VP_CBMC
    if (given) ASSUME(o.offset != (uint64_t)-1 && (o.offset <= BIG || o.offset >= 1UL << 63));
#else
    if (given) o.offset %= nd_bool() ? 1UL << 62 : 20000;
#endif
    l_over = nd_bool();
#ifdef VP_NATIVE
    /* a small file only with small loads, so that going round it ends soon */
    if (o.load_nbytes > 1UL << 20) o.load_nbytes %= 1UL << 20;
    f_size = 1000 + (nd_bool() ? nd_below(1 << 20) : (1UL << 62));
#endif
    t_bytes = o.load_nbytes;
    t_start = given ? o.offset : o_info.storage_offset + t_bytes > o_info.storage_eof ? 0 : o_info.storage_offset;
    load(&SI, SI.store_buf, &o);
    if (s_lseek_fail) { CHECK(!s_chunk && SI.storage_info.storage_offset == o_info.storage_offset, "load: nothing is read at an impossible offset"); return; }
    storage_post();
    CHECK(SI.storage_info.storage_eof == o_info.storage_eof, "load: end of data unchanged");
    CHECK(s_fsyncs == 0, "load: no synchronisation");
    if (given && t_bytes > 0) REACH("load at");
    if (!given && t_start == 0 && t_bytes > 0 && o_info.storage_offset > 0) REACH("load wrapped");
}
#pragma CPROVER check pop
