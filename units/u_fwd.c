/* C12: forwarding a request and resuming it. */
#include "vp.h"
#define VP_EPOLL
#define VP_SOCKET
#include "vp_sys.h"
#define VP_NODE_DECL \
    static void vp_group_loop(command_t **c); \
    static void vp_fwd_loop(command_t **cmd);
#include "vp_node.h"

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"

static conn_worker_info_t WI;
static req_info_t REQ; static int EP, FID, active0, conns0; static bool live;
static union { message_t m; unsigned char b[64]; } MSG, DST;
static union { command_t c; unsigned char b[64]; } CMD, NX1, CURC, NX2, RPL, RESUME;
#define OPT ((fwd_opts_t *)CMD.c.opts)
static fwd_opts_t o0;
static conn_info_t *F;                   /* the connection used */
static bool same_target(struct sockaddr_in a) { return a.sin_family == AF_INET && a.sin_port == o0.fwd_port && a.sin_addr.s_addr == o0.fwd_host; }

static int n_find, n_sock, n_alloc, n_conn, n_add, n_compose, n_copy, n_start, n_timeout, n_close, NEWFD, conn_rv;
static bool exists, nonblock, alloc_ok, copy_ok, sent_ok; static uint32_t space; static int ev_ok;
int find_contract(struct sockaddr_in t, proto_t p) {               /* C24 */
    CHECK(same_target(t) && p == o0.proto, "forward: to the target with the configured protocol");
    n_find++;
    if (!exists) return -1;
    return FID;
}
static int vp_socket(int d, int t, int p) {
    CHECK(!exists && d == AF_INET && t == (o0.proto == TCP ? SOCK_STREAM : SOCK_DGRAM), "forward: a new socket of the configured protocol only if there is none");
    n_sock++;
    return NEWFD;
}
static int vp_setsockopt(int fd, int l, int o, const void *v, socklen_t n) {
    CHECK(fd == NEWFD && o0.proto == TCP, "forward: options of the new socket");
    return 0;
}
static int vp_getsockopt(int fd, int l, int o, void *v, socklen_t *n) { CHECK(false, "not asked for"); return 0; }
static int vp_accept(int fd, void *a, socklen_t *n) { CHECK(false, "not asked for"); return 0; }
static int vp_fcntl(int fd, int c, int a) {
    CHECK(fd == NEWFD, "forward: flags of the new socket");
    if (c == F_SETFL) { CHECK(a & O_NONBLOCK, "forward: never blocks"); nonblock = true; return 0; }
    return nd_irange(0, 0x7fff);
}
int alloc_contract(int sock, struct sockaddr_in t, proto_t p) {      /* C05 */
    CHECK(sock == NEWFD && same_target(t) && p == o0.proto && n_sock == 1, "forward: a connection to the target");
    n_alloc++;
    if (!alloc_ok) return -1;
    F->sock = sock; F->proto = p; F->status = p == TCP ? NOT_INIT : READY; F->curr_send_size = 0;
    return FID;
}
static int vp_close(int fd) { CHECK(fd == NEWFD && !alloc_ok && n_sock, "forward: only a socket without connection is closed"); n_close++; return 0; }
static int vp_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    CHECK(ep == EP && fd == F->sock, "watching: the connection's own socket");
    CHECK((uint32_t)ev->data.u64 == (uint32_t)FID, "watching: events name the connection");
    uint32_t ty = (uint32_t)(ev->data.u64 >> 32);
    if (op == EPOLL_CTL_ADD) {
        CHECK(!exists && n_alloc == 1 && n_add == 0, "watching: a new connection is added once");
        if (o0.proto == TCP) CHECK(ty == CONNECT && (ev->events & EPOLLOUT) && (ev->events & EPOLLONESHOT), "watching: a connection in progress for its completion");
        else CHECK(ty == SOCKET && ev->events == EPOLLIN, "watching: a datagram socket for responses");
        n_add++;
        return 0;
    }
    CHECK(op == EPOLL_CTL_MOD && n_start == 1 && ty == SOCKET, "watching: changed only once bytes were handed over");
    CHECK(ev->events == (F->curr_send_size > 0 ? EPOLLIN | EPOLLOUT : EPOLLIN), "watching: for output only while bytes wait");
    return nd_bool() ? 0 : -1;
}
static int vp_epoll_wait(int ep, struct epoll_event *ev, int n, int t) { CHECK(false, "no wait while forwarding"); return 0; }
static int vp_connect(int fd, const void *a, socklen_t l) {
    CHECK(fd == NEWFD && o0.proto == TCP && n_alloc == 1 && n_conn == 0 && nonblock && n_add == 1, "forward: connects without blocking, once");
    CHECK(l == sizeof(struct sockaddr_in) && same_target(*(const struct sockaddr_in *)a), "forward: connects to the target");
    n_conn++;
    conn_rv = nd_bool() ? 0 : -1;
    if (conn_rv) { int e = nd_int(); vp_errno = e; }
    return conn_rv;
}
message_t *compose_contract(conn_info_t *c) {                        /* C06 */
    CHECK(c == F && (exists || alloc_ok), "forward: composed on the connection to the target");
    n_compose++;
    if (space < sizeof(message_t)) return NULL;
    DST.m.req_size = space;
    return &DST.m;
}
static bool in_group;                    /* the forward belongs to a multi-forward */
static command_t *after;                 /* what follows the forward group */
command_t *next_contract(command_t *c) {
    CHECK(c == &CMD.c || c == &CURC.c || c == &NX1.c, "group: walked command by command");
    return c == &CMD.c ? &NX1.c : &NX2.c;
}
static int grp_seen;
static void vp_group_loop(command_t **c) {
#ifdef VP_CBMC
    if (!grp_seen) {
        grp_seen = 1;
        CHECK(*c == &NX1.c, "group: starts behind the forward");
        /* at any command behind it such that all those in between are multi-forwards */
        if (in_group && NX1.c.cmd == MULTI_FORWARD && nd_bool()) *c = &CURC.c;
        after = *c;
    } else {
        CHECK(in_group && after->cmd == MULTI_FORWARD, "group: only the multi-forwards of the group are skipped");
        CHECK(*c == &NX2.c, "group: one by one");
        STOP();
    }
#endif
}
command_t *copy_contract(message_t *m, message_t *d, command_t *c) {  /* C11 */
    CHECK(m == &MSG.m && d == &DST.m && d->req_size == space && n_compose == 1, "forward: copied into the free space");
    CHECK(c == after, "forward: carries the commands behind the forward group");
    CHECK(!in_group || after->cmd != MULTI_FORWARD, "forward: carries the commands behind the whole forward group");
    n_copy++;
    DST.m.req_id = MSG.m.req_id; DST.m.status = MSG.m.status;
    if (!copy_ok) return NULL;
    DST.m.req_size = nd_u32(); ASSUME(DST.m.req_size <= space);
    return &RPL.c;
}
int start_contract(conn_info_t *c, struct sockaddr_in t) {            /* C06 */
    CHECK(c == F && same_target(t) && n_copy == 1 && n_start == 0, "forward: sent once over the connection to the target");
    CHECK(DST.m.req_id == (uint32_t)REQ.req_id, "forward: identified by the node's own request id");
    CHECK(DST.m.req_size == o0.pkt_size, "forward: of the configured size");
    CHECK(DST.m.status == MSG.m.status, "forward: with the request's status");
    if (!exists && o0.proto == TCP) CHECK(F->status == CONNECTING, "forward: not sent before the connection is established");
    n_start++;
    F->curr_send_size = nd_u64(); ASSUME(F->curr_send_size <= BUF_SIZE);
    if (F->status == READY || F->status == SENDING) if (nd_bool()) F->status = CLOSE;
    return sent_ok ? nd_irange(0, BUF_SIZE) : -1;
}
void timeout_contract(conn_worker_info_t *i, int id, int ep, int us) {  /* C13 */
    CHECK(i == &WI && id == REQ.req_id && ep == EP, "timeout: of this request");
    CHECK(o0.timeout != 0 && us == (int)o0.timeout, "timeout: only if configured, as configured");
    CHECK(n_start == 1, "timeout: armed once the message is on its way");
    n_timeout++;
}
static void setup(void) {
    HAVOC_OBJ(&MSG); HAVOC_OBJ(&CMD); HAVOC_OBJ(&NX1); HAVOC_OBJ(&CURC); HAVOC_OBJ(&NX2); HAVOC_OBJ(&RPL);
    EP = nd_int(); FID = nd_irange(0, MAX_CONNS - 1); F = &conns[FID];
    WI.epollfd = EP; active0 = nd_irange(0, 1 << 20); WI.active_reqs = active0; conns0 = nd_irange(0, 1 << 20); WI.active_conns = conns0;
    REQ.req_id = nd_irange(0, 0x7fffffff); REQ.conn_id = nd_irange(0, MAX_CONNS - 1); REQ.message_ptr = MSG.b; REQ.curr_cmd = &CMD.c;
    REQ.fwd_replies_left = nd_irange(-1, 255);
    OPT->proto = nd_bool() ? TCP : UDP;
    o0 = *OPT;
    exists = nd_bool(); alloc_ok = nd_bool(); copy_ok = nd_bool(); sent_ok = nd_bool();
    NEWFD = nd_irange(3, 1 << 20);
    F->sock = exists ? nd_irange(3, 1 << 20) : -1; F->proto = o0.proto; F->status = (conn_status_t)nd_irange(READY, CLOSE); F->curr_send_size = nd_u64();
    ASSUME(F->status != CONNECTING || o0.proto == TCP);
    space = nd_u32(); ASSUME(space <= BUF_SIZE);
}
void h_forward(void) {
    setup();
    CMD.c.cmd = (in_group = nd_bool()) ? MULTI_FORWARD : FORWARD;
    ASSUME((uint32_t)NX1.c.cmd <= EOM && (uint32_t)CURC.c.cmd <= EOM);
    int left0 = REQ.fwd_replies_left, rid = REQ.req_id;
    uint8_t nack = ((reply_opts_t *)RPL.c.opts)->n_ack;
    int r = single_start_forward(&REQ, &MSG.m, &CMD.c, EP, &WI);
    CHECK(n_find == 1 && n_sock == (exists ? 0 : 1) && n_alloc == n_sock, "forward: reuses an existing connection, else opens one");
    CHECK(WI.active_reqs == active0 && WI.active_conns == conns0 && REQ.req_id == rid && REQ.curr_cmd == &CMD.c, "forward: the request stays where it is");
    CHECK(OPT->retries == o0.retries && OPT->timeout == o0.timeout && OPT->pkt_size == o0.pkt_size && OPT->on_fail_skip == o0.on_fail_skip, "forward: the command is unchanged");
    CHECK(n_close == (!exists && !alloc_ok ? 1 : 0), "forward: no socket is leaked");
    if (!exists && alloc_ok && o0.proto == UDP) CHECK(n_add == 1, "watching: a datagram socket for responses");
    if (r) {
        CHECK(r == 1 && n_start == 1 && sent_ok && copy_ok && (exists || alloc_ok), "forward: sent exactly one message");
        CHECK(n_timeout == (o0.timeout ? 1 : 0), "timeout: armed only if configured");
        CHECK(REQ.fwd_replies_left == (left0 == -1 ? nack : left0), "acknowledgements: as many as the reply requires, counted once per forward group");
        if (!exists && o0.proto == TCP) CHECK(n_conn == 1 && n_add == 1 && F->status == CONNECTING, "forward: the new connection is being established");
        if (F->status == READY) CHECK(F->curr_send_size == 0, "forward: waiting bytes are watched for output");
        if (exists) REACH("over an existing connection"); else if (o0.proto == TCP) REACH("over a new connection"); else REACH("over a new datagram socket");
    } else {
        CHECK(n_timeout == 0 && REQ.fwd_replies_left == left0, "failure: nothing to wait for");
        bool refused = !exists && o0.proto == TCP && alloc_ok && conn_rv == -1;
        CHECK((!exists && !alloc_ok) || refused || space < o0.pkt_size || space < sizeof(message_t) || !copy_ok || !sent_ok, "failure: only without connection, space or a working socket");
        REACH("failure");
    }
}
/* ------------------------------------------------------------ whole groups */
static int n_single, single_rv;
int single_contract(req_info_t *r, message_t *m, command_t *c, int ep, conn_worker_info_t *i) {
    CHECK(r == &REQ && m == &MSG.m && ep == EP && i == &WI, "group: of this request");
    CHECK(c == (in_group ? (grp_seen ? &CURC.c : &CMD.c) : &CMD.c) && n_single == 0, "group: each forward of the group once");
    n_single++;
    return single_rv = nd_bool();
}
command_t *next2_contract(command_t *c) {
    CHECK(c == &CURC.c, "group: walked command by command");
    return &NX2.c;
}
static void vp_fwd_loop(command_t **cmd) {
#ifdef VP_CBMC
    if (!grp_seen) {
        grp_seen = 1;
        CHECK(*cmd == &CMD.c && n_single == 0 && CMD.c.cmd == MULTI_FORWARD, "group: starts with its first forward");
        CURC.c.cmd = MULTI_FORWARD;      /* any forward of the group, those before it sent */
        *cmd = &CURC.c;
    } else {
        CHECK(n_single == 1 && single_rv == 1, "group: each forward is sent before the next");
        CHECK(*cmd == &NX2.c && NX2.c.cmd == MULTI_FORWARD, "group: goes on with the next forward of the group");
        REACH("next of the group");
        STOP();
    }
#endif
}
void h_group(void) {
    setup();
    CMD.c.cmd = (in_group = nd_bool()) ? MULTI_FORWARD : FORWARD;
    int r = start_forward(&REQ, &MSG.m, &CMD.c, EP, &WI);
    CHECK(n_single == 1 && r == single_rv, "group: fails as soon as one forward fails");
    if (in_group && r) CHECK(NX2.c.cmd != MULTI_FORWARD, "group: ends behind its last forward");
    if (in_group) { if (r) REACH("group sent"); } else REACH("single sent");
}
/* ---------------------------------------------------------------- resuming */
static int n_skip, n_cancel, n_process, process_rv, left0; static bool waiting;
req_info_t *get_contract(int id) { return live && id == REQ.req_id ? &REQ : NULL; }   /* C04 */
command_t *skip_contract(message_t *m, command_t *c, int n) {                           /* C10 */
    CHECK(m == &MSG.m && c == &CMD.c && n == 1, "resume: after the forward group's matching reply");
    n_skip++;
    return &RESUME.c;
}
int cancel_contract(conn_worker_info_t *i, int id, int ep) {                             /* C13 */
    CHECK(i == &WI && id == REQ.req_id, "resume: the request's timeout is cancelled");
    CHECK(n_process == 0, "resume: cancelled before it goes on");
    n_cancel++;
    return nd_int();
}
int process_contract(req_info_t *r, int ep, conn_worker_info_t *i) {                     /* C15 */
    CHECK(r == &REQ && ep == EP && i == &WI && n_process == 0, "resume: the request goes on, once");
    CHECK(REQ.curr_cmd == &RESUME.c && n_skip == 1 && n_cancel == 1, "resume: right after the forward group's matching reply");
    CHECK(REQ.fwd_replies_left == -1, "resume: the next forward counts its own acknowledgements");
    n_process++;
    HAVOC_OBJ(&REQ);
    return process_rv = nd_irange(-1, 1);
}
void h_response(void) {
    setup();
    live = nd_bool(); left0 = REQ.fwd_replies_left;
    req_info_t r0 = REQ; int8_t st = MSG.m.status;
    int id = nd_bool() ? REQ.req_id : nd_int();
    bool match = live && id == REQ.req_id && left0 >= 0;
    int r = handle_forward_reply(id, EP, &WI);
    CHECK(WI.active_reqs == active0 && WI.active_conns == conns0 && MSG.m.status == st, "response: nothing else changes");
    if (!match) {
        CHECK(r == 1 && n_process == 0 && n_skip == 0 && n_cancel == 0 && REQ.fwd_replies_left == left0 && REQ.curr_cmd == r0.curr_cmd && REQ.req_id == r0.req_id, "response: dropped without effect if no request waits for it");
        REACH("dropped");
    } else if (left0 <= 1) {
        CHECK(n_process == 1, "response: the last one required resumes the request");
        CHECK((r != 0) == (process_rv >= 0), "response: handled unless the request failed");
        REACH("resumed");
    } else {
        CHECK(r == 1 && n_process == 0 && n_skip == 0 && n_cancel == 0 && REQ.fwd_replies_left == left0 - 1 && REQ.curr_cmd == r0.curr_cmd, "response: counted, waits for the others");
        REACH("counted");
    }
}
#pragma CPROVER check pop
