/* C04: contracts of the request table (src/request.c, request.h).
 *
 * Representation invariant, for every slot i:
 *   reqs[i].req_id == -1, or 0 <= reqs[i].req_id < last_reqs and
 *   reqs[i].req_id % MAX_REQS == i
 * (hence two live requests never have the same id).  Proved for an arbitrary
 * slot W, assumed at the slots looked at. */
#include "vp.h"
#include <string.h>
static void vp_init_loop(int *i);
#include "request.c"

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
static uint32_t W;
static req_info_t w_old;
static bool slot_ok(uint32_t i) {
    int id = reqs[i].req_id;
    return id == -1 || (id >= 0 && id < last_reqs && (uint32_t)id % MAX_REQS == i);
}
static bool same(req_info_t *a, req_info_t *b) {
    return a->req_id == b->req_id && a->conn_id == b->conn_id && a->fwd_replies_left == b->fwd_replies_left &&
           a->message_ptr == b->message_ptr && a->curr_cmd == b->curr_cmd && a->timeout_node == b->timeout_node &&
           a->prev == b->prev && a->next == b->next && a->target.sin_port == b->target.sin_port &&
           a->target.sin_addr.s_addr == b->target.sin_addr.s_addr;
}
static void any_slot(uint32_t i) {
    reqs[i].req_id = nd_bool() ? -1 : (int)(i + nd_below(32768) * MAX_REQS); reqs[i].conn_id = nd_int(); reqs[i].fwd_replies_left = nd_int();
    reqs[i].message_ptr = (unsigned char *)nd_u64(); reqs[i].curr_cmd = (command_t *)nd_u64();
    reqs[i].timeout_node = (node_t *)nd_u64(); reqs[i].prev = (req_info_t *)nd_u64(); reqs[i].next = (req_info_t *)nd_u64();
    reqs[i].target.sin_port = nd_u16(); reqs[i].target.sin_addr.s_addr = nd_u32();
    ASSUME(slot_ok(i));
}
static void any_table(void) {
    W = nd_below(MAX_REQS);
    last_reqs = nd_irange(0, 0x7ffffffe);
}

void h_alloc(void) {
    any_table();
    int id = last_reqs;
    uint32_t s = (uint32_t)id % MAX_REQS;
    any_slot(s);
    if (W != s) any_slot(W);
    w_old = reqs[W];
    bool busy = reqs[s].req_id != -1;
    req_info_t *r = req_alloc();
    CHECK(last_reqs == id + 1, "alloc: the identifier is not handed out again");
    if (r == NULL) {
        CHECK(busy, "alloc: fails only when the slot is occupied");
        CHECK(same(&reqs[W], &w_old), "alloc: failure changes no request");
        REACH("alloc full");
    } else {
        CHECK(!busy, "alloc: an occupied slot is not handed out");
        CHECK(r == &reqs[s] && r->req_id == id, "alloc: the request carries the new identifier");
        CHECK(r->curr_cmd == NULL && r->fwd_replies_left == -1 && r->next == NULL && r->prev == NULL && r->timeout_node == NULL,
              "alloc: no leftover state");
        CHECK(W == s || same(&reqs[W], &w_old), "alloc: other requests untouched");
        CHECK(W == s || reqs[W].req_id != id, "alloc: no other live request has the identifier");
        CHECK(req_get_by_id(id) == r, "alloc: the identifier looks up the request");
        REACH("alloc ok");
    }
    CHECK(slot_ok(W), "alloc: table invariant kept");
}

void h_lookup(void) {
    any_table();
    int id = nd_int();
    uint32_t s = (uint32_t)id % MAX_REQS;
    any_slot(s);
    if (W != s) any_slot(W);
    w_old = reqs[W];
    req_info_t *r = req_get_by_id(id);
    if (r != NULL) {
        CHECK(id >= 0 && r->req_id == id, "lookup: returns the live request with the identifier");
        CHECK(r >= reqs && r < reqs + MAX_REQS, "lookup: returns a table entry");
        REACH("lookup hit");
    } else {
        CHECK(id < 0 || reqs[W].req_id != id, "lookup: finds a live request");
        REACH("lookup miss");
    }
    CHECK(same(&reqs[W], &w_old), "lookup: changes nothing");
}

/* neighbours in the list, when present: requests somewhere else in memory */
static req_info_t NX, PV;
void h_free(void) {
    any_table();
    uint32_t s = nd_below(MAX_REQS);
    bool has_n = nd_bool(), has_p = nd_bool();
    any_slot(s);
    if (W != s) any_slot(W);
    req_info_t *r = &reqs[s];
    int id = r->req_id;
    ASSUME(id != -1);
    any_slot(s == 0 ? 1 : 0); NX = PV = reqs[s == 0 ? 1 : 0];
    r->next = has_n ? &NX : NULL;
    r->prev = has_p ? &PV : NULL;
    if (has_n) NX.prev = r;
    if (has_p) PV.next = r;
    req_info_t n_old = NX, p_old = PV, *nx = r->next;
    w_old = reqs[W];
    req_info_t *q = req_free(r);
    CHECK(q == nx, "free: returns the successor");
    CHECK(r->req_id == -1, "free: the slot is released");
    CHECK(req_get_by_id(id) == NULL, "free: the identifier becomes unknown");
    CHECK(r->next == NULL && r->prev == NULL, "free: detached");
    if (has_n) {
        CHECK(NX.prev == (has_p ? &PV : NULL), "free: successor linked to predecessor");
        n_old.prev = NX.prev;
    }
    if (has_p) {
        CHECK(PV.next == (has_n ? &NX : NULL), "free: predecessor linked to successor");
        p_old.next = PV.next;
    }
    CHECK(same(&NX, &n_old) && same(&PV, &p_old), "free: neighbours otherwise untouched");
    CHECK(W == s || same(&reqs[W], &w_old), "free: other requests untouched");
    CHECK(slot_ok(W), "free: table invariant kept");
    REACH("free");
}

static int il_seen, il_i;
static void vp_init_loop(int *i) {
#ifdef VP_CBMC
    if (!il_seen) {
        CHECK(*i == 0, "init loop: starts at 0");
        il_seen = 1;
        *i = nd_irange(0, MAX_REQS);
        any_slot(W);
        if (W < (uint32_t)*i) ASSUME(reqs[W].req_id == -1);
        il_i = *i;
    } else {
        CHECK(*i == il_i + 1, "init loop: advances");
        CHECK(!(W < (uint32_t)*i) || reqs[W].req_id == -1, "init loop: slots handled so far are free");
        STOP();
    }
#endif
}
void h_init(void) {
    any_table();
    any_slot(W);
    req_init();
    CHECK(reqs[W].req_id == -1, "init: every slot is free");
    CHECK(slot_ok(W), "init: establishes the table invariant");
    REACH("init");
}
#pragma CPROVER check pop
