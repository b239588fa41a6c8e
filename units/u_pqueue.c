/* C02: contracts of the priority queue (src/priority_queue.c, priority_queue.h).
 *
 * Abstract value: the set of live handles n with their key and data, where
 *   live(n)  :=  nodes[n].heap_id < size  and  heap[nodes[n].heap_id] == n.
 * Representation invariant:
 *   okat(i)  for i < size: heap[i] is a handle and its back pointer is i
 *   hp(i)    for 0 < i < size: key(heap[parent i]) <= key(heap[i])
 *   fre(j)   for j < capacity-size: stack[j] is a handle that is not live
 *   dis(j,l) stack entries below capacity-size are pairwise distinct
 * All of them are quantified over their index; they are proved for arbitrary
 * indices (K heap position, J/L stack positions) and assumed at finitely many.
 * Arbitrary handles: SN (live before), XN (any). */
#include "vp.h"
struct pqueue_t; struct node_t;
static void vp_up(struct pqueue_t *q, struct node_t *curr, struct node_t **parent);
static void vp_down(struct pqueue_t *q, struct node_t *curr, struct node_t **child);
#define exit vp_exit
#include "priority_queue.c"
#undef exit

#ifndef STRICT
#define STRICT nd_bool()
#endif
#if defined(LAST) && LAST == 1
#define ONLY_BEHIND 1                 /* prove the second case of the requirement */
#else
#define ONLY_BEHIND 0
#endif
#ifndef CAPMAX
#define CAPMAX (1u << 28)
#endif

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"

static pqueue_t pq;
#define N (pq.nodes)
#define H (pq.heap)
#define S (pq.stack)
#define SZ ((uint32_t)pq.size)
#define CAP ((uint32_t)pq.capacity)
#define PAR(i) (((i) - 1) / 2)

static uint32_t K, J, L, SN, XN;      /* arbitrary witnesses */
static node_t sn_old; static bool xn_live; static uint32_t sj_old, sl_old;
static pqueue_t pq_old;
static bool strict;                   /* sifting up from a leaf: subtree already in order */

static bool live(uint32_t n) { return n < CAP && N[n].heap_id < SZ && H[N[n].heap_id] == n; }
static bool okat(uint32_t i) { return i >= SZ || (H[i] < CAP && N[H[i]].heap_id == i); }
static int key(uint32_t i) { return N[H[i]].key; }
static bool hp(uint32_t i) { return i == 0 || i >= SZ || key(PAR(i)) <= key(i); }
static bool fre(uint32_t j) { return j >= CAP - SZ || (S[j] < CAP && !live(S[j])); }
static bool dis(uint32_t j, uint32_t l) { return j == l || j >= CAP - SZ || l >= CAP - SZ || S[j] != S[l]; }
static bool ri(uint32_t i) { return okat(i) && (i == 0 || okat(PAR(i))) && hp(i); }

/* invariant of sifting up with the element at position c out of place */
static bool up_inv(uint32_t i, uint32_t c) {
    if (!okat(i) || (i > 0 && !okat(PAR(i)))) return false;
    if (i == 0 || i >= SZ) return true;
    if (i == c) return true;
    if (PAR(i) == c) {
        if (c > 0 && (!okat(PAR(c)) || !(key(PAR(c)) <= key(i)))) return false;
        return !strict || key(c) <= key(i);
    }
    return hp(i);
}
/* invariant of sifting down from position c */
static bool down_inv(uint32_t i, uint32_t c) {
    if (!okat(i) || (i > 0 && !okat(PAR(i)))) return false;
    if (i == 0 || i >= SZ) return true;
    if (PAR(i) == c)
        return c == 0 || (okat(PAR(c)) && key(PAR(c)) <= key(i));
    return hp(i);
}
static bool frame_ok(void) {
    return pq.nodes == pq_old.nodes && pq.heap == pq_old.heap && pq.stack == pq_old.stack && pq.capacity == pq_old.capacity;
}
static bool sn_ok(void) { return live(SN) && N[SN].key == sn_old.key && N[SN].data.value == sn_old.data.value; }

static bool is_min_child(uint32_t c, node_t *ch) {
    uint32_t a = 2 * c + 1, b = 2 * c + 2;
    if (a >= SZ) return ch == NULL;
    if (b >= SZ) return ch == &N[H[a]];
    return (ch == &N[H[a]] && key(a) <= key(b)) || (ch == &N[H[b]] && key(b) <= key(a));
}
static bool same_node(node_t *a, node_t *b) { return a->heap_id == b->heap_id && a->key == b->key && a->data.value == b->data.value; }

/* ---- contracts of the two repair steps, used by their callers ------------
 * requires: the node is in the heap at c and up_inv/down_inv(i, c) for every i,
 *           or it sits just behind the heap's end and is not smaller than its
 *           parent position's element (then nothing happens);
 * ensures:  same set of elements with the same keys, data and free handles;
 *           up (strict): ri(i) for every i
 *           up (weak):   down_inv(i, c') for every i, c' the node's new position
 *           down:        ri(i) for every i */
#ifdef VP_CBMC
static bool sn_tracked; static uint32_t RN;
static void shuffled(node_t *node, uint32_t ci) {
    uint32_t t[4] = { S[J], S[L], RN, XN };
    bool v[4] = { live(t[0]), live(t[1]), live(t[2]), live(t[3]) };
    int nkey = node->key; uint64_t ndata = node->data.value;
    CHECK(!sn_tracked || sn_ok(), "repair: other elements still in place");
    HAVOC_OBJ(pq.nodes);
    HAVOC_OBJ(pq.heap);
    ASSUME(live(t[0]) == v[0] && live(t[1]) == v[1] && live(t[2]) == v[2] && live(t[3]) == v[3]);
    ASSUME(!sn_tracked || sn_ok());
    ASSUME(live(ci) && node->key == nkey && node->data.value == ndata);
}
static bool behind_end(node_t *node) {
    return node->heap_id == SZ && (SZ == 0 || (okat(PAR(SZ)) && key(PAR(SZ)) <= node->key));
}
static void need_behind_end(node_t *node) {
    LEMMA(node->heap_id == SZ, "repair: requires the node in the heap or just behind its end");
    if (SZ > 0) {
        LEMMA(okat(PAR(SZ)), "repair: requires a parent position in the heap");
        CHECK(key(PAR(SZ)) <= node->key, "repair: requires a removed last element not smaller than its parent");
    }
}
void up_contract(pqueue_t *q, node_t *node) {
    CHECK(q == &pq && node >= N && node < N + CAP, "repair up: called on the queue's node");
    uint32_t ci = node - N, c = node->heap_id;
    if (c >= SZ || ONLY_BEHIND) { need_behind_end(node); return; }
    CHECK(live(ci), "repair up: requires a live node");
    CHECK(up_inv(K, c), "repair up: requires order everywhere but at the node");
    shuffled(node, ci);
    c = node->heap_id;
    #define I(i) ASSUME(strict ? ri(i) : down_inv((i), c))
    I(K); I(c); if (K > 0) I(PAR(K));
    #undef I
}
void down_contract(pqueue_t *q, node_t *node) {
    CHECK(q == &pq && node >= N && node < N + CAP, "repair down: called on the queue's node");
    uint32_t ci = node - N, c = node->heap_id;
    if (c >= SZ || ONLY_BEHIND) { need_behind_end(node); return; }
    CHECK(live(ci), "repair down: requires a live node");
    CHECK(down_inv(K, c), "repair down: requires order everywhere but below the node");
    shuffled(node, ci);
    ASSUME(ri(K));
}

/* ---- loop invariants of up() and down(): one iteration from an arbitrary
 * state satisfying the invariant ------------------------------------------- */
static uint32_t loop_c, loop_ch; static int loop_seen; static node_t kn_old, cn_old; static uint32_t hk_old;
static void loop_unchanged(node_t *curr) {
    CHECK(same_node(&N[XN], &kn_old) && H[K] == hk_old && S[J] == sj_old && frame_ok() && pq.size == pq_old.size, "loop head: nothing changed before the loop");
}
static void loop_step(node_t *curr) {
    uint32_t ci = curr - N;
    CHECK(frame_ok() && pq.size == pq_old.size, "loop: size, capacity and storage unchanged");
    CHECK(S[J] == sj_old, "loop: free handles unchanged");
    CHECK(live(ci), "loop: moving element is in the heap");
    CHECK(curr->key == cn_old.key && curr->data.value == cn_old.data.value, "loop: moving element keeps key and data");
    CHECK(!xn_live || (live(XN) && N[XN].key == kn_old.key && N[XN].data.value == kn_old.data.value), "loop: every element stays with key and data");
    CHECK(live(XN) == xn_live, "loop: no element appears or disappears");
}
static void vp_up(pqueue_t *q, node_t *curr, node_t **parent) {
    uint32_t c = curr->heap_id;
    node_t *want = c == 0 ? NULL : &N[H[PAR(c)]];
    if (!loop_seen) {
        loop_seen = 1;
        loop_unchanged(curr);
        CHECK(c == loop_c, "sift up: starts at the node");
        CHECK(*parent == want, "sift up: looks at the parent");
    } else {
        CHECK(c < loop_c, "sift up: terminates");
        loop_step(curr);
        CHECK(*parent == want, "sift up: looks at the new parent");
        CHECK(up_inv(K, c), "sift up: invariant kept");
        STOP();
    }
}
static void vp_down(pqueue_t *q, node_t *curr, node_t **child) {
    uint32_t c = curr->heap_id;
    if (!loop_seen) {
        loop_seen = 1;
        loop_unchanged(curr);
        CHECK(c == loop_c, "sift down: starts at the node");
        LEMMA(is_min_child(c, *child), "sift down: looks at the smaller child");
        if (*child) {
            loop_ch = (*child)->heap_id;
            LEMMA((loop_ch == 2 * c + 1 || loop_ch == 2 * c + 2) && loop_ch > c && loop_ch < SZ, "sift down: smaller child is below");
        }
    } else {
        LEMMA(c == loop_ch, "sift down: moves to the child's position");
        CHECK(c > loop_c, "sift down: terminates");
        loop_step(curr);
        CHECK(is_min_child(c, *child), "sift down: looks at the smaller of the new children");
        CHECK(K != c || down_inv(K, c), "sift down: invariant kept at the new position");
        CHECK(K == 0 || PAR(K) != c || down_inv(K, c), "sift down: invariant kept below the new position");
        CHECK(K == c || K == 0 || PAR(K) != loop_c || down_inv(K, c), "sift down: invariant kept at the sibling");
        CHECK(K != loop_c || down_inv(K, c), "sift down: invariant kept at the old position");
        CHECK(K == loop_c || (K > 0 && (PAR(K) == loop_c || PAR(K) == c)) || down_inv(K, c), "sift down: invariant kept elsewhere");
        STOP();
    }
}
#else
static void vp_up(pqueue_t *q, node_t *curr, node_t **parent) {}
static void vp_down(pqueue_t *q, node_t *curr, node_t **child) {}
#endif

static void any_storage(void) {
    pq.capacity = nd_irange(1, CAPMAX);
    pq.size = nd_irange(0, pq.capacity);
    pq.nodes = malloc(pq.capacity * sizeof(node_t));
    pq.heap = malloc(pq.capacity * sizeof(uint32_t));
    pq.stack = malloc(pq.capacity * sizeof(uint32_t));
    K = nd_below(CAP); J = nd_below(CAP); L = nd_below(CAP); SN = nd_below(CAP); XN = nd_below(CAP);
}
#ifdef VP_CBMC
static uint32_t repair_state(void) {
    any_storage();
    uint32_t ci = nd_below(CAP);
    kn_old = N[XN]; hk_old = H[K]; sj_old = S[J]; pq_old = pq; xn_live = live(XN);
    cn_old = N[ci]; loop_c = N[ci].heap_id;
    return ci;
}
void h_up(void) {
    uint32_t ci = repair_state();
    ASSUME(live(ci));
    strict = STRICT;
    uint32_t c = loop_c, p = PAR(c);
    #define I(i) ASSUME(up_inv((i), c))
    I(K); I(c); I(2 * c + 1); I(2 * c + 2);
    if (K > 0) I(PAR(K));
    if (c > 0) { I(p); I(2 * p + 1); I(2 * p + 2); }
    if (xn_live) I(N[XN].heap_id);
    #undef I
    up(&pq, &N[ci]);
    loop_step(&N[ci]);
    CHECK(strict ? ri(K) : down_inv(K, N[ci].heap_id), "sift up: order restored");
    REACH("up");
}
void h_down(void) {
    uint32_t ci = repair_state();
    ASSUME(live(ci));
    uint32_t c = loop_c, a = 2 * c + 1, b = 2 * c + 2;
    #define I(i) ASSUME(down_inv((i), c))
    I(K); I(c); I(a); I(b); I(2 * a + 1); I(2 * a + 2); I(2 * b + 1); I(2 * b + 2);
    if (K > 0) I(PAR(K));
    if (c > 0) I(PAR(c));
    if (xn_live) I(N[XN].heap_id);
    #undef I
    down(&pq, &N[ci]);
    loop_step(&N[ci]);
    CHECK(ri(K), "sift down: order restored");
    REACH("down");
}
void h_behind(void) {
    uint32_t ci = repair_state();
    ASSUME(behind_end(&N[ci]));
    if (nd_bool()) up(&pq, &N[ci]); else down(&pq, &N[ci]);
    CHECK(same_node(&N[XN], &kn_old) && H[K] == hk_old && S[J] == sj_old && frame_ok() && pq.size == pq_old.size, "repair of a removed last element: no effect");
    REACH("behind");
}
#endif

/* arbitrary queue satisfying the representation invariant */
static void any_pqueue(bool nonfull, bool nonempty) {
    any_storage();
    ASSUME(pq.size >= nonempty && pq.size <= pq.capacity - nonfull);
    /* instances of the invariant */
    uint32_t last = SZ - 1;
    ASSUME(ri(K)); ASSUME(ri(0)); ASSUME(ri(2 * K + 1)); ASSUME(ri(2 * K + 2));
    if (SZ > 0) ASSUME(ri(last));
    if (SZ > 1) ASSUME(ri(PAR(SZ)));
    ASSUME(fre(J) && fre(L) && dis(J, L));
    if (SZ < CAP) { uint32_t t = CAP - SZ - 1; ASSUME(fre(t) && dis(t, J) && dis(t, L)); }
    xn_live = live(XN);
    if (xn_live) ASSUME(ri(N[XN].heap_id));
    if (live(SN)) ASSUME(ri(N[SN].heap_id));
    sn_old = N[SN];
    pq_old = pq;
    sj_old = S[J]; sl_old = S[L];
}

void h_insert(void) {
    any_pqueue(true, false);
#ifdef VP_CBMC
    sn_tracked = live(SN);
#endif
    bool sn_live = live(SN), x_live = live(XN);
    int k = nd_int();
    data_t d = {.value = nd_u64()};
    strict = true;
    node_t *r = pqueue_insert(&pq, k, d);
    CHECK(frame_ok(), "insert: capacity and storage unchanged");
    CHECK(pqueue_size(&pq) == pq_old.size + 1, "insert: size grows by one");
    CHECK(r >= N && r < N + CAP, "insert: returns a handle");
    uint32_t rn = r - N;
    CHECK(pqueue_node_key(r) == k && pqueue_node_data(r).value == d.value, "insert: key and data stored");
    CHECK(live(rn), "insert: the new element is in the queue");
    CHECK(ri(K), "insert: heap order kept at every position");
    CHECK(pqueue_top(&pq) != NULL && pqueue_top(&pq) == &N[H[0]], "insert: top is the first heap position");
    if (sn_live) {
        CHECK(SN != rn, "insert: a live handle is not handed out again");
        CHECK(sn_ok(), "insert: every other element keeps handle, key and data");
    }
    CHECK(live(XN) == (x_live || XN == rn), "insert: exactly one element is added");
    CHECK(fre(J), "insert: remaining free handles stay free");
    CHECK(dis(J, L), "insert: free handles stay distinct");
    REACH("insert");
}

static void removal(bool pop) {
    any_pqueue(false, true);
    uint32_t n = nd_below(CAP);
#if defined(LAST) && LAST == 1
    if (pop) ASSUME(SZ == 1);         /* the top is the last position */
    n = H[SZ - 1];
#elif defined(LAST)
    if (pop) ASSUME(SZ > 1);
#endif
    if (pop) n = H[0];
    ASSUME(live(n));
    uint32_t p = N[n].heap_id;
#ifdef LAST
    ASSUME((p == SZ - 1) == LAST);
#endif
    ASSUME(ri(p)); ASSUME(ri(2 * p + 1)); ASSUME(ri(2 * p + 2));
    if (p > 0) ASSUME(ri(PAR(p)));
    bool sn_live = live(SN) && SN != n, x_live = live(XN) && XN != n;
#ifdef VP_CBMC
    sn_tracked = sn_live; RN = n;
#endif
    strict = false;
    uint32_t t = CAP - SZ;            /* where the handle goes */
    LEMMA(J >= t || sj_old != n, "remove: the handle was not free");
    LEMMA(L >= t || sl_old != n, "remove: the handle was not free");
    uint32_t PK = K > 0 ? PAR(K) : 0, hk = H[K], hpk = H[PK];
    if (ONLY_BEHIND) ASSUME(K < SZ);  /* positions behind the end: nothing to show */
    node_t nk = {0}, npk = {0};
    if (ONLY_BEHIND) { nk = N[hk]; npk = N[hpk]; }
    if (pop) pqueue_pop(&pq); else pqueue_remove(&pq, &N[n]);
    CHECK(frame_ok(), "remove: capacity and storage unchanged");
    CHECK(pqueue_size(&pq) == pq_old.size - 1, "remove: size drops by one");
    CHECK(!live(n), "remove: the element is gone");
    if (ONLY_BEHIND && K < SZ) {
        LEMMA(H[K] == hk && H[PK] == hpk, "remove: positions of the others unchanged");
        LEMMA(same_node(&N[hk], &nk), "remove: other elements unchanged");
        LEMMA(same_node(&N[hpk], &npk), "remove: other elements unchanged");
    }
    CHECK(ri(K), "remove: heap order kept at every position");
    if (sn_live)
        CHECK(sn_ok(), "remove: every other element keeps handle, key and data");
    CHECK(live(XN) == x_live, "remove: no other element is added or removed");
    CHECK(S[CAP - SZ - 1] == n, "remove: the handle becomes reusable");
    LEMMA(S[J] == (J == t ? n : sj_old) && S[L] == (L == t ? n : sl_old), "remove: only the free place is written");
    CHECK(fre(J), "remove: free handles are free");
    CHECK(dis(J, L), "remove: free handles are distinct");
    if (pq.size == 0)
        CHECK(pqueue_top(&pq) == NULL, "remove: no top in an empty queue");
    REACH("remove");
}
void h_remove(void) { removal(false); }
void h_pop(void) { removal(true); }

/* lemma: heap order at every position makes the top a minimum (induction on
 * the position: the step from a position to its parent) */
void h_top(void) {
    any_pqueue(false, false);
    node_t *t = pqueue_top(&pq);
    CHECK((t == NULL) == (pq.size == 0), "top: exists exactly when not empty");
    CHECK(pqueue_size(&pq) == pq_old.size && pqueue_capacity(&pq) == pq_old.capacity, "top: size and capacity reported");
    if (t) {
        CHECK(t == &N[H[0]] && live(t - N), "top: an element of the queue");
        /* induction: if top <= key(parent) then top <= key(position) */
        if (K > 0 && K < SZ) {
            CHECK(PAR(K) < K, "top: induction is well founded");
            if (t->key <= key(PAR(K)))
                CHECK(t->key <= key(K), "top: not greater than any element");
        }
        if (xn_live) CHECK(N[XN].heap_id < SZ && H[N[XN].heap_id] == XN, "top: every element has a heap position");
        REACH("top");
    }
}

/* loop of pqueue_alloc: stack[j] == j for all handled j */
static int alloc_seen, alloc_i;
static void vp_alloc(pqueue_t *res, int *i) {
#ifdef VP_CBMC
    if (!alloc_seen) {
        CHECK(*i == 0, "alloc loop: starts at 0");
        alloc_seen = 1;
        pq_old = *res;
        *i = nd_irange(0, res->capacity);
        HAVOC_OBJ(res->stack);
        if (J < (uint32_t)*i) ASSUME(res->stack[J] == J);
        if (L < (uint32_t)*i) ASSUME(res->stack[L] == L);
        alloc_i = *i;
    } else {
        CHECK(*i == alloc_i + 1, "alloc loop: advances");
        CHECK(res->nodes == pq_old.nodes && res->heap == pq_old.heap && res->stack == pq_old.stack && res->size == pq_old.size && res->capacity == pq_old.capacity, "alloc loop: nothing else changes");
        CHECK(!(J < (uint32_t)*i) || res->stack[J] == J, "alloc loop: handles stored");
        CHECK(!(L < (uint32_t)*i) || res->stack[L] == L, "alloc loop: handles stored");
        STOP();
    }
#endif
}
void h_alloc(void) {
    uint32_t cap = nd_u32();
    ASSUME(cap >= 1 && cap <= CAPMAX);
    J = nd_below(cap); L = nd_below(cap); XN = nd_below(cap);
    pqueue_t *q = pqueue_alloc(cap);
    pq = *q;
    CHECK(pqueue_size(q) == 0 && pqueue_capacity(q) == (int)cap && pqueue_top(q) == NULL, "alloc: empty, with the capacity asked for");
    CHECK(fre(J) && dis(J, L), "alloc: all handles free and distinct");
    CHECK(!live(XN), "alloc: no element");
#ifdef VP_CBMC
    CHECK(__CPROVER_OBJECT_SIZE(q->nodes) >= cap * sizeof(node_t) && __CPROVER_OBJECT_SIZE(q->heap) >= cap * sizeof(uint32_t) &&
          __CPROVER_OBJECT_SIZE(q->stack) >= cap * sizeof(uint32_t), "alloc: room for capacity elements");
#endif
    REACH("alloc");
}
#pragma CPROVER check pop

/* bounded search through the API only */
#ifndef OPS
#define OPS 6
#endif
void h_history(void) {
    const int cap = CAPMAX;
    pqueue_t *q = pqueue_alloc(cap);
    node_t *h[OPS]; int keys[OPS]; bool in[OPS] = {0}; int n = 0, cnt = 0;
    for (int s = 0; s < OPS; s++) {
        int op = nd_irange(0, 5), k = nd_irange(-8, 24);
        if (op <= 2 && cnt < cap) {
            data_t d = {.value = (uint64_t)(n + 100)};
            h[n] = pqueue_insert(q, k, d); keys[n] = k; in[n] = true;
            for (int i = 0; i < n; i++)
                CHECK(!in[i] || h[i] != h[n], "history: live handle not reused");
            n++; cnt++;
        } else if (op == 3 && cnt > 0) {
            node_t *t = pqueue_top(q);
            for (int i = 0; i < n; i++) if (in[i] && h[i] == t) in[i] = false;
            pqueue_pop(q); cnt--;
        } else if (cnt > 0) {
            int v = 0, left = nd_irange(0, cnt - 1);
            while (!in[v] || left-- > 0) v++;
            pqueue_remove(q, h[v]); in[v] = false; cnt--;
        }
        CHECK(pqueue_size(q) == cnt, "history: size");
        node_t *t = pqueue_top(q);
        CHECK((t == NULL) == (cnt == 0), "history: top exists exactly when not empty");
        bool found = false;
        for (int i = 0; i < n; i++) if (in[i]) {
            CHECK(pqueue_node_key(h[i]) == keys[i] && pqueue_node_data(h[i]).value == (uint64_t)(i + 100), "history: elements keep key and data");
            CHECK(pqueue_node_key(t) <= keys[i], "history: top is a minimum");
            found = found || h[i] == t;
        }
        CHECK(cnt == 0 || found, "history: top is a live element");
    }
    REACH("history");
}
