/* C23: address strings (address_utils.c).  Addresses are shorter than the
 * fixed size of their buffers, so all loops over them are unrolled completely. */
#define _GNU_SOURCE
#include "vp.h"
#include <netinet/in.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <assert.h>
#include <ctype.h>
static struct hostent *vp_resolve(const char *name);
#define gethostbyname vp_resolve
#define exit vp_exit
#ifdef VP_CBMC
/* the C library's string functions, as far as used */
static size_t vp_strlen(const char *s);
static char *vp_strstr(const char *s, const char *p) {
    for (;; s++) {
        int i = 0;
        while (p[i] && s[i] == p[i]) i++;
        if (!p[i]) return (char *)s;
        if (!*s) return NULL;
    }
}
static int vp_strncmp(const char *a, const char *b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
        if (!a[i]) return 0;
    }
    return 0;
}
static char *vp_strcpy(char *d, const char *s) { int i = 0; while ((d[i] = s[i])) i++; return d; }
static char *vp_strchr(const char *s, int c) { while (*s != (char)c) { if (!*s) return NULL; s++; } return (char *)s; }
static bool in(char c, const char *set) { while (*set) { if (*set == c) return true; set++; } return false; }
static char *vp_strtok_r(char *s, const char *d, char **save) {
    if (!s) s = *save;
    while (*s && in(*s, d)) s++;
    if (!*s) { *save = s; return NULL; }
    char *t = s;
    while (*s && !in(*s, d)) s++;
    if (*s) *s++ = 0;
    *save = s;
    return t;
}
static long vp_strtol(const char *s, char **end, int base) {
    const char *s0 = s; uint32_t v = 0; bool neg = false, any = false;
    ASSUME(base == 10);
    while (*s == ' ' || (*s >= '\t' && *s <= '\r')) s++;
    if (*s == '+' || *s == '-') neg = *s++ == '-';
    while (*s >= '0' && *s <= '9') { any = true; if (v < 100000) v = v * 10 + (*s - '0'); s++; }  /* larger values only need to be large */
    *end = (char *)(any ? s : s0);
    return neg ? -(long)v : v;
}
static int vp_atoi(const char *s) { char *e; return (int)vp_strtol(s, &e, 10); }
#define strlen vp_strlen
#define strstr vp_strstr
#define strncmp vp_strncmp
#define strcpy vp_strcpy
#define strchr vp_strchr
#define strtok_r vp_strtok_r
#define strtol vp_strtol
#define atoi vp_atoi
#define fprintf(...) ((void)0)
#endif
#include "address_utils.c"
#undef exit

#define MAXS MAX_HOSTPORT_STRLEN
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
static char *A; static char A0[MAXS + 1]; static unsigned LEN;  /* the string, a copy, its length */
#ifdef VP_CBMC
#undef strlen
static size_t vp_strlen(const char *s) {
    if (s == A && LEN >= MAXS) return LEN;
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
#endif
static unsigned P;                       /* an arbitrary position */
static void a_string(void) {
    static const char *bits[] = { "tcp", "udp", "://", ":", "/", "host", "10.0.0.1", "80", "7891", "a", "t", "tcp:", "udp:" };
#ifdef VP_CBMC
    LEN = nd_u32();
    A = malloc(MAXS + 1);
    for (int i = 0; i < MAXS; i++) { A[i] = nd_u8(); ASSUME(i >= LEN || A[i]); }
    if (LEN < MAXS) A[LEN] = 0;
#else
    A = malloc(4096); A[0] = 0;
    for (int n = nd_below(7); n > 0; n--) strcat(A, bits[nd_below(sizeof bits / sizeof *bits)]);
    if (nd_below(10) == 0) for (int n = nd_below(40); n > 0; n--) strcat(A, "z");
    LEN = strlen(A); A = realloc(A, LEN + 1);
#endif
    for (int i = 0; i < MAXS; i++) A0[i] = i < LEN ? A[i] : 0;
    P = nd_below(MAXS);
}
static bool has(const char *t, int n, int from) {    /* A0 contains t at or after from */
    for (int i = from; i + n <= MAXS; i++) {
        bool eq = true;
        for (int k = 0; k < n; k++) if (A0[i + k] != t[k]) eq = false;
        if (eq) return true;
    }
    return false;
}
static bool starts(const char *t, int n) { for (int k = 0; k < n; k++) if (A0[k] != t[k]) return false; return true; }

void h_proto(void) {
    a_string();
    /* what is written: protocol, then the rest */
    int from = 0; proto_t want, proto0; bool given = false, spec = true;
    proto0 = nd_bool() ? TCP : UDP;
    for (int u = 0; u < 2; u++)
        if (starts(u ? "udp" : "tcp", 3)) {
            if (starts(u ? "udp://" : "tcp://", 6)) given = true, want = u ? UDP : TCP, from = 6;
            else if (A0[3] == ':') given = true, want = u ? UDP : TCP, from = 4;
            else if (A0[3] == 0) given = true, want = u ? UDP : TCP, from = 3;
        }
    if (!given) want = proto0;
    bool slashes = has("/", 1, from), dots = has("::", 2, 0);
    /* anything with more slashes, or with two protocols, is not an address: only the safety of its handling is decided */
    if (slashes) spec = false;
    char *dst = malloc(MAXS); char d0;
#ifdef VP_CBMC
    dst[P] = d0 = nd_u8();
#else
    memset(dst, d0 = nd_u8(), MAXS);
#endif
    proto_t proto = proto0;
    vp_exit_allowed = LEN >= MAXS || dots || !spec;
    addr_proto_parse(A, dst, &proto);
    CHECK(LEN < MAXS, "address: too long ones are refused");
    CHECK(!dots, "address: two colons in a row are refused");
    REACH("address taken");
    if (!spec) return;
    CHECK(proto == want, "address: the protocol named, else the one set before");
    if (from == LEN) CHECK(dst[P] == d0, "address: host and port set before are kept when none is given");
    else if (from + P <= LEN) {
        bool past = false;
        for (int i = 0; i < MAXS; i++) if (i < P && A0[from + i > MAXS ? MAXS : from + i] == 0) past = true;
        if (!past) CHECK(dst[P] == A0[from + P], "address: host and port are what follows the protocol");
    }
    if (given && from < LEN) REACH("protocol and host"); else if (from < LEN) REACH("host only");
}

/* --------------------------------------------------------- host and port */
static int n_resolved; static unsigned H, IP; static bool g_def;
static struct hostent HE; static char *alist[2]; static char ip4[4];
static struct hostent *vp_resolve(const char *name) {
    n_resolved++;
    if (H == 0) CHECK(!strncmp(name, DEFAULT_ADDR, sizeof DEFAULT_ADDR), "host: the default one when none is given");
    else { CHECK(P >= H || name[P] == A0[P], "host: looked up as written"); CHECK(name[H] == 0, "host: ends where the port starts"); }
    if (nd_below(8) == 0) { vp_exit_allowed = true; return NULL; }
    memcpy(ip4, &IP, 4);
    alist[0] = ip4; HE.h_addr_list = alist; HE.h_length = 4;
    return &HE;
}
void h_hostport(void) {
    a_string();
    ASSUME(LEN < MAXS);
    IP = nd_u32();
    uint32_t port = 7891; bool numeric = true;
    for (H = 0; H < LEN && A0[H] != ':'; H++);
    if (H < LEN) {
        port = 0; numeric = H + 1 < LEN;
        for (unsigned i = H + 1; i < LEN; i++) { if (A0[i] < '0' || A0[i] > '9') numeric = false; else if (port < 100000) port = port * 10 + (A0[i] - '0'); }
        vp_exit_allowed = !numeric;
    }
    if (LEN == 0) vp_exit_allowed = true;
    ASSUME(!numeric || port <= 65535);
    ASSUME(!numeric || H == LEN || LEN - H <= 6);        /* no leading zeroes beyond five digits */
    struct sockaddr_in a; 
    memset(&a, nd_u8(), sizeof a);
    addr_parse(A, &a);
    CHECK(LEN > 0, "host and port: nothing at all is refused");
    CHECK(n_resolved == 1, "host: looked up");
    CHECK(a.sin_family == AF_INET && a.sin_addr.s_addr == IP, "host: its address");
    if (numeric) CHECK(ntohs(a.sin_port) == port, "port: the one given, or the default one");
    CHECK(P >= LEN || A[P] == A0[P], "host and port: the text is left as it was");
    if (H < LEN && numeric) REACH("port given"); else REACH("no port given");
}
#pragma CPROVER check pop
