/* C15: executing the commands of a request and answering it. */
#include "vp.h"
#define VP_RW
#define VP_EPOLL
#include "vp_sys.h"
#define VP_NODE_DECL \
    static void vp_cmd_loop(command_t **cmd); \
    static void vp_msg_loop(message_t **m);
#include "vp_node.h"

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"

static conn_worker_info_t WI;
static req_info_t REQ;
static int CID, EP, active0, conns0;
static union { message_t m; unsigned char b[64]; } MSG, DST;
static union { command_t c; unsigned char b[64]; } FIRST, CUR, NEXT;

/* ------------------------------------------------------------------ reply */
static conn_info_t *C;                   /* the connection the request came from */
static uint32_t id0; static int8_t status0; static uint32_t size0, space; static struct sockaddr_in target0;
static int composed, retired, started, send_rv; static bool retire_first;
static bool same_addr(struct sockaddr_in a, struct sockaddr_in b) { return a.sin_family == b.sin_family && a.sin_port == b.sin_port && a.sin_addr.s_addr == b.sin_addr.s_addr; }
message_t *compose_contract(conn_info_t *c) {             /* C06 */
    CHECK(c == C && !started, "reply: composed on the connection the request came from");
    composed++;
    if (space < sizeof(message_t)) return NULL;
    DST.m.req_size = space;
    return &DST.m;
}
req_info_t *retire_contract(conn_info_t *c, req_info_t *r) {  /* C08: the request and its message are gone */
    CHECK(c == C && r == &REQ && !retired, "reply: the request is retired from its connection, once");
    retired++;
    HAVOC_OBJ(&REQ); HAVOC_OBJ(&MSG); HAVOC_OBJ(&CUR);
    REQ.req_id = -1; REQ.message_ptr = NULL;
    return NULL;
}
int send_contract(conn_info_t *c, struct sockaddr_in t) {     /* C06 */
    CHECK(c == C && composed == 1 && !started, "reply: sent once on the connection the request came from");
    CHECK(same_addr(t, target0), "reply: to the address the request came from");
    CHECK(DST.m.req_id == id0, "reply: carries the request id the sender used");
    CHECK(DST.m.req_size == size0, "reply: of the size asked for");
    CHECK(DST.m.status == status0, "reply: carries the request's status");
    CHECK(DST.m.cmds[0].cmd == EOM, "reply: carries no commands");
    started++;
    send_rv = nd_int(); ASSUME(send_rv >= -1);
    c->curr_send_size = nd_u64(); ASSUME(c->curr_send_size <= BUF_SIZE);
    if (nd_bool()) c->status = CLOSE;
    return send_rv;
}
static int n_mod; static uint32_t watch; static bool watched;
static int vp_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    CHECK(ep == EP && op == EPOLL_CTL_MOD && fd == C->sock, "watching: the connection's own socket");
    CHECK(ev->data.u64 == ((uint64_t)SOCKET << 32 | (uint32_t)CID), "watching: events keep naming the connection");
    watch = ev->events; n_mod++;
    return nd_bool() ? 0 : -1;
}
static int vp_epoll_wait(int ep, struct epoll_event *ev, int n, int t) { CHECK(false, "no wait while executing"); return 0; }
static int vp_close(int fd) { CHECK(false, "nothing is closed"); return 0; }
static ssize_t vp_read(int fd, void *b, size_t n) { CHECK(false, "nothing is read"); return -1; }
static int n_write, write_fd; static bool write_ok, write_match;
static command_type_t type0; static size_t len0; static unsigned char cmd0[64];
static ssize_t vp_write(int fd, const void *b, size_t n) {
    n_write++; write_fd = fd;
    const storage_req_t *w = b;
    unsigned k = nd_below(64);
    CHECK(n == sizeof *w, "storage: handed over whole");
    CHECK(w->worker_id == WI.worker_id && w->req_id == REQ.req_id, "storage: names the worker and the request");
    ASSUME(k < len0);
    CHECK(((const unsigned char *)b)[k] == CUR.b[k], "storage: carries the command");
    write_ok = nd_bool();
    return write_ok ? (ssize_t)n : -1;
}
static void setup(void) {
    HAVOC_OBJ(&MSG); HAVOC_OBJ(&CUR); HAVOC_OBJ(&FIRST); HAVOC_OBJ(&NEXT);
    CID = nd_irange(0, MAX_CONNS - 1); C = &conns[CID]; EP = nd_int();
    WI.epollfd = EP; WI.worker_id = nd_irange(0, MAX_THREADS - 1); WI.storefd = nd_int();
    active0 = nd_irange(0, 1 << 20); WI.active_reqs = active0; conns0 = nd_int(); WI.active_conns = conns0;
    REQ.req_id = nd_irange(0, 0x7fffffff); REQ.conn_id = CID; REQ.message_ptr = MSG.b; REQ.curr_cmd = &FIRST.c;
    REQ.fwd_replies_left = nd_irange(-1, 255); REQ.target.sin_addr.s_addr = nd_u32(); REQ.target.sin_port = nd_u16(); REQ.target.sin_family = nd_u16();
    C->status = (conn_status_t)nd_irange(READY, CLOSE); C->sock = nd_irange(0, 1 << 20); C->curr_send_size = nd_u64();
    C->proto = nd_bool() ? TCP : UDP; C->serialize_request = nd_bool();
    C->req_list = nd_bool() ? &REQ : NULL;
    id0 = MSG.m.req_id; status0 = MSG.m.status; target0 = REQ.target;
}
void h_reply(void) {
    setup();
    CUR.c.cmd = REPLY;
    size0 = ((reply_opts_t *)CUR.c.opts)->resp_size;
    space = nd_u32(); ASSUME(space <= BUF_SIZE);
    int sock = C->sock;
    int r = reply(&REQ, &MSG.m, &CUR.c, &WI);
    if (space < size0 || space < sizeof(message_t)) {
        CHECK(!r && !started && !retired && WI.active_reqs == active0 && REQ.message_ptr == MSG.b, "reply: without space for it, nothing is sent and the request stays");
        REACH("no space");
        return;
    }
    CHECK(started == 1 && retired == 1, "reply: sent once and the request retired");
    CHECK(WI.active_reqs == active0 - 1, "reply: the active-request count drops by one");
    CHECK(WI.active_conns == conns0 && C->sock == sock, "reply: nothing else changes");
    CHECK((r != 0) == (send_rv >= 0), "reply: success even if the bytes cannot be sent at once");
    if (r && C->status != CLOSE) {
        if (C->curr_send_size > 0 && n_mod) CHECK(watch == (EPOLLIN | EPOLLOUT) && C->status == SENDING, "reply: waiting bytes are watched for output");
        CHECK(!(C->curr_send_size > 0 && C->status == READY), "reply: waiting bytes are watched for output");
        CHECK(!(C->curr_send_size == 0 && C->status == SENDING), "reply: without waiting bytes only input is watched");
    }
    if (r && send_rv == 0) REACH("nothing sent yet");
    if (!r) REACH("failed");
}
/* -------------------------------------------------------- command sequence */
static int n_compute, n_fwd, n_reply; static uint64_t us0; static int fwd_rv, reply_rv; static bool was_closed;
void compute_contract(unsigned long us) {                  /* C19 */
    CHECK(us == us0 && type0 == COMPUTE, "compute: for the time asked for");
    n_compute++;
}
int forward_contract(req_info_t *r, message_t *m, command_t *c, int ep, conn_worker_info_t *i) {   /* C12 */
    CHECK(r == &REQ && m == &MSG.m && c == &CUR.c && ep == EP && i == &WI, "forward: of this request at this command");
    CHECK(type0 == FORWARD || type0 == MULTI_FORWARD, "forward: only forwards are forwarded");
    n_fwd++;
    return fwd_rv = nd_bool();
}
int reply_contract(req_info_t *r, message_t *m, command_t *c, conn_worker_info_t *i) {
    CHECK(r == &REQ && m == &MSG.m && c == &CUR.c && i == &WI && type0 == REPLY, "reply: to this request with this command's options");
    n_reply++;
    HAVOC_OBJ(&REQ); HAVOC_OBJ(&MSG); HAVOC_OBJ(&CUR);
    REQ.req_id = -1; REQ.message_ptr = NULL;
    WI.active_reqs--;
    return reply_rv = nd_bool();
}
command_t *next_contract(command_t *c) {                   /* C10/C11 */
    CHECK(c == &CUR.c, "order: the next command after the current one");
    return &NEXT.c;
}
static int seen;
static void vp_cmd_loop(command_t **cmd) {
#ifdef VP_CBMC
    if (!seen) {
        seen = 1;
        CHECK(*cmd == &FIRST.c, "order: starts with the request's current command");
        CHECK(!n_compute && !n_fwd && !n_reply && !n_write, "order: nothing executed before");
        *cmd = &CUR.c;
        type0 = CUR.c.cmd; ASSUME((uint32_t)type0 <= EOM);
        us0 = ((comp_opts_t *)CUR.c.opts)->comp_time_us;
        len0 = type0 == STORE ? sizeof(command_t) + sizeof(store_opts_t) : sizeof(command_t) + sizeof(load_opts_t);
    } else {
        CHECK(*cmd == &NEXT.c, "order: goes on with the next command");
        CHECK(type0 == COMPUTE && n_compute == 1, "order: goes on only after a computation, done once");
        CHECK(!n_fwd && !n_reply && !n_write, "order: everything else suspends or ends the execution");
        CHECK(REQ.req_id != -1 && WI.active_reqs == active0, "order: the request is still live");
        REACH("next command");
        STOP();
    }
#endif
}
void h_commands(void) {
    setup();
    was_closed = C->status == CLOSE;
    int acks0 = REQ.fwd_replies_left;
    int r = process_single_message(&REQ, EP, &WI);
    CHECK(n_compute == 0, "ends only at the end, a forward, a reply or a storage command");
    CHECK(WI.active_conns == conns0, "the worker is otherwise unchanged");
    if (n_reply == 0) CHECK(WI.active_reqs == active0 && MSG.m.status == status0 && MSG.m.req_id == id0, "the request is otherwise unchanged");
    switch (type0) {
    case EOM:
        CHECK(r == 1 && !n_fwd && !n_reply && !n_write, "end: nothing left to do"); REACH("end"); break;
    case FORWARD: case MULTI_FORWARD:
        CHECK(n_fwd == 1 && !n_reply && !n_write, "forward: executed once");
        CHECK(r == (fwd_rv ? 0 : -1), "forward: suspended, or failed");
        if (r == 0) CHECK(REQ.curr_cmd == &CUR.c, "forward: suspended at the forward");
        REACH("forward"); break;
    case REPLY:
        CHECK(!n_fwd && !n_write && n_reply == (was_closed ? 0 : 1), "reply: sent once");
        CHECK(r == (was_closed || reply_rv ? 1 : -1), "reply: ends the execution");
        REACH("reply"); break;
    case STORE: case LOAD:
        CHECK(n_write == 1 && write_fd == WI.storefd && !n_fwd && !n_reply, "storage: handed to the storage worker once");
        CHECK(r == (write_ok ? 0 : -1), "storage: suspended until acknowledged");
        if (r == 0) CHECK(REQ.curr_cmd == &NEXT.c, "storage: resumes with the next command");
        CHECK(REQ.fwd_replies_left == acks0, "storage: not waiting for a forward");
        REACH("storage"); break;
    default:
        CHECK(!n_fwd && !n_reply && !n_write, "unknown commands do nothing"); break;
    }
}
/* ---------------------------------------------------------- going on later */
static int n_single, single_rv, n_obtain, obtain_rv; static req_info_t *single_req;
int single_contract(req_info_t *r, int ep, conn_worker_info_t *i) {
    CHECK(r == &REQ && ep == EP && i == &WI && !n_single, "the request is executed once");
    n_single++;
    HAVOC_OBJ(&REQ);                     /* may be retired */
    return single_rv = nd_irange(-1, 1);
}
int obtain_contract(int id, int ep, conn_worker_info_t *i) {
    CHECK(id == CID && ep == EP && i == &WI && !n_obtain && n_single, "then the connection's next request");
    n_obtain++;
    return obtain_rv = nd_bool();
}
void h_process(void) {
    setup();
    bool ser = C->serialize_request;
    int r = process_messages(&REQ, EP, &WI);
    CHECK(n_single == 1, "the request is executed once");
    CHECK(n_obtain == (single_rv != 0 && ser ? 1 : 0), "the connection's next request only if they are serialised");
    CHECK(r == (n_obtain ? obtain_rv : single_rv), "reports how the execution ended");
    REACH("processed");
}
/* --------------------------------------------------------- new messages */
/* the message being handled is any of those delivered; contract of delivery: C07 */
static bool have, have_next, is_resp, add_ok; static int n_next, n_add, n_resp, n_drop; static uint32_t msize;
static int resp_rv; static bool first_next;
message_t *next_msg_contract(conn_info_t *c) {
    CHECK(c == C, "messages of the connection");
    n_next++;
    return nd_bool() ? (seen ? &DST.m : &MSG.m) : NULL;
}
int resp_contract(int id, int ep, conn_worker_info_t *i) {     /* C12 */
    CHECK(id == (int)id0 && ep == EP && i == &WI && is_resp, "response: taken for the request id it carries");
    CHECK(C->proto != TCP || C->status == CLOSE, "response: a connection about to be closed is not used for what follows");
    n_resp++;
    if (nd_bool()) HAVOC_OBJ(&MSG);      /* bytes received may move when a request is retired */
    return resp_rv = nd_bool();
}
req_info_t *add_contract(conn_info_t *c) {                     /* C08 */
    CHECK(c == C && !is_resp, "request: becomes a pending request of the connection");
    n_add++;
    if (!(add_ok = nd_bool())) return NULL;
    REQ.message_ptr = NULL; REQ.curr_cmd = NULL;
    return &REQ;
}
int single2_contract(req_info_t *r, int ep, conn_worker_info_t *i) {
    CHECK(r == &REQ && ep == EP && i == &WI && n_add == 1 && !n_single, "request: executed once");
    CHECK(REQ.message_ptr == MSG.b && REQ.curr_cmd == &MSG.m.cmds[0], "request: executed from its first command");
    CHECK(WI.active_reqs == active0 + 1, "request: counted as active");
    n_single++;
    HAVOC_OBJ(&REQ); HAVOC_OBJ(&MSG);
    return single_rv = nd_irange(-1, 1);
}
void drop_contract(conn_info_t *c, unsigned long size) {
    CHECK(c == C && n_resp == 1 && size == msize && !n_drop, "response: its bytes are reclaimed, once");
    n_drop++;
}
static void vp_msg_loop(message_t **m) {
#ifdef VP_CBMC
    if (!seen) {
        seen = 1;
        CHECK(n_next == 1, "messages: taken one at a time");
        CHECK(*m == &MSG.m || *m == NULL, "messages: the one just delivered");
        if (*m == NULL) REACH("no message");
        n_next = 0;
    } else {
        CHECK(n_next == 1 && (*m == &DST.m || *m == NULL), "messages: goes on with the next one delivered");
        CHECK(is_resp ? n_resp == 1 && n_drop == 1 && n_add == 0 && n_single == 0 : n_single == 1 && n_add == 1 && n_resp == 0, "messages: each is handled once before the next");
        if (is_resp) REACH("response, next"); else REACH("request, next");
        STOP();
    }
#endif
}
void h_obtain(void) {
    setup();
    bool ser = C->serialize_request, pend = C->req_list != NULL; proto_t pr = C->proto;
    is_resp = MSG.m.cmds[0].cmd == EOM; msize = MSG.m.req_size;
    int r = obtain_messages(CID, EP, &WI);
    if (ser && pend) { CHECK(r == 1 && n_next == 0 && !n_add && !n_resp, "serialised requests wait for the previous one"); return; }
    CHECK(n_next == 0 && WI.active_conns == conns0, "returns after the message handled last");
    if (!n_resp && !n_add) { CHECK(r == 1 && WI.active_reqs == active0, "no message left"); REACH("none left"); return; }
    if (n_resp) {
        CHECK(n_resp == 1 && !n_add && WI.active_reqs == active0, "response: handled once");
        CHECK(r == 0 && !n_drop && (!resp_rv || pr == TCP), "response: the connection is closed after a response over TCP or a failure");
    } else if (!add_ok) CHECK(r == 0 && !n_single && WI.active_reqs == active0, "request: refused without a free slot");
    else {
        CHECK(n_single == 1 && WI.active_reqs == active0 + 1, "request: executed once");
        CHECK(single_rv < 0 ? r == 0 : r == 1 && single_rv == 0 && ser, "request: fails if its execution fails");
    }
}
#pragma CPROVER check pop
