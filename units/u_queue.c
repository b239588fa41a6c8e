/* C01: contracts of the bounded double-ended queue (src/queue.c, queue.h).
 *
 * Abstract value: the sequence  e(0) .. e(size-1),  e(i) = nodes[(head+i) mod capacity].
 * Representation invariant Q(q): 1 <= capacity, 0 <= size <= capacity, head and
 * tail in range, tail is the position of the last element (for an empty queue:
 * the position in front of head, where -1 also stands for capacity-1).
 * "Every element" is one arbitrary element w chosen before the call. */
#include "vp.h"
#define exit vp_exit
#include "queue.c"
#undef exit

#ifndef CAPMAX
#define CAPMAX (1 << 30)
#endif

static int wrap(int i, int cap) { return i >= cap ? i - cap : i; }

static bool Q(queue_t *q) {
    if (!(q->capacity >= 1 && q->capacity <= CAPMAX)) return false;
    if (!(q->size >= 0 && q->size <= q->capacity)) return false;
    if (!(q->head >= 0 && q->head < q->capacity)) return false;
    if (!(q->tail >= -1 && q->tail < q->capacity)) return false;
    if (q->size > 0)
        return q->tail == wrap(q->head + (q->size - 1), q->capacity);
    return wrap(q->tail + 1, q->capacity) == q->head;
}
static node_t *elem(queue_t *q, int i) { return &q->nodes[wrap(q->head + i, q->capacity)]; }

/* arbitrary queue satisfying Q, with an arbitrary element w of it */
static queue_t old;
static int w;
static node_t wold;
static queue_t *any_queue(void) {
    queue_t *q = malloc(sizeof(queue_t));
    q->capacity = nd_irange(1, CAPMAX);
    q->size = nd_irange(0, q->capacity);
    q->head = nd_irange(0, q->capacity - 1);
    q->tail = nd_irange(-1, q->capacity - 1);
    q->nodes = malloc((size_t)q->capacity * sizeof(node_t));
    ASSUME(Q(q));
    w = nd_irange(0, q->capacity);
    if (w < q->size) {
        node_t *e = elem(q, w);
        e->key = nd_int();
        e->data.value = nd_u64();
        wold = *e;
    }
    old = *q;
    return q;
}
static bool same_elem(node_t *a, node_t *b) { return a->key == b->key && a->data.value == b->data.value; }
/* element that was at position w is now at position i */
static bool kept(queue_t *q, int i) { return same_elem(elem(q, i), &wold); }
static bool buffer_kept(queue_t *q) { return q->nodes == old.nodes && q->capacity == old.capacity && queue_capacity(q) == old.capacity; }

void h_alloc(void) {
    uint32_t cap = nd_u32();
    ASSUME(cap >= 1 && cap <= CAPMAX);
    queue_t *q = queue_alloc(cap);
    CHECK(Q(q), "alloc: invariant established");
    CHECK(queue_size(q) == 0, "alloc: empty");
    CHECK(queue_capacity(q) == (int)cap, "alloc: has the capacity asked for");
    CHECK(queue_head(q) == NULL && queue_tail(q) == NULL, "alloc: no first nor last element");
    /* storage really holds capacity elements */
    int i = nd_irange(0, (int)cap - 1);
    q->nodes[i].key = 1;
    REACH("alloc");
}

void h_enqueue(void) {
    queue_t *q = any_queue();
    int key = nd_int();
    data_t data = {.value = nd_u64()};
    node_t *r = queue_enqueue(q, key, data);
    CHECK(buffer_kept(q), "enqueue: storage and capacity unchanged");
    CHECK(Q(q), "enqueue: invariant kept");
    if (old.size == old.capacity) {
        CHECK(r == NULL, "enqueue: full queue refuses");
        CHECK(queue_size(q) == old.size, "enqueue: refused insertion keeps the size");
        REACH("full");
    } else {
        CHECK(r != NULL, "enqueue: succeeds when not full");
        CHECK(queue_size(q) == old.size + 1, "enqueue: one element more");
        CHECK(queue_tail(q) == r, "enqueue: new element is last");
        CHECK(queue_node_key(r) == key && queue_node_data(r).value == data.value, "enqueue: key and data stored");
        CHECK(elem(q, q->size - 1) == r, "enqueue: new element at the end of the sequence");
        if (old.size == 0)
            CHECK(queue_head(q) == r, "enqueue: sole element is first");
        REACH("room");
    }
    if (w < old.size) {
        CHECK(kept(q, w), "enqueue: every other element keeps place and contents");
        if (w == 0)
            CHECK(same_elem(queue_head(q), &wold), "enqueue: first element unchanged");
    }
}

void h_dequeue_head(void) {
    queue_t *q = any_queue();
    queue_dequeue_head(q);
    CHECK(buffer_kept(q), "dequeue_head: storage and capacity unchanged");
    CHECK(Q(q), "dequeue_head: invariant kept");
    if (old.size == 0) {
        CHECK(queue_size(q) == 0 && queue_head(q) == NULL && queue_tail(q) == NULL, "dequeue_head: empty stays empty");
        REACH("empty");
    } else {
        CHECK(queue_size(q) == old.size - 1, "dequeue_head: one element less");
        if (w >= 1 && w < old.size) {
            CHECK(kept(q, w - 1), "dequeue_head: the others move up by one");
            if (w == 1)
                CHECK(same_elem(queue_head(q), &wold), "dequeue_head: second element becomes first");
            if (w == old.size - 1)
                CHECK(same_elem(queue_tail(q), &wold), "dequeue_head: last element stays last");
        }
        REACH("nonempty");
    }
}

void h_dequeue_tail(void) {
    queue_t *q = any_queue();
    queue_dequeue_tail(q);
    CHECK(buffer_kept(q), "dequeue_tail: storage and capacity unchanged");
    CHECK(Q(q), "dequeue_tail: invariant kept");
    if (old.size == 0) {
        CHECK(queue_size(q) == 0 && queue_head(q) == NULL && queue_tail(q) == NULL, "dequeue_tail: empty stays empty");
        REACH("empty");
    } else {
        CHECK(queue_size(q) == old.size - 1, "dequeue_tail: one element less");
        if (w < old.size - 1) {
            CHECK(kept(q, w), "dequeue_tail: the others keep their place");
            if (w == 0)
                CHECK(same_elem(queue_head(q), &wold), "dequeue_tail: first element stays first");
            if (w == old.size - 2)
                CHECK(same_elem(queue_tail(q), &wold), "dequeue_tail: last but one becomes last");
        }
        REACH("nonempty");
    }
}

void h_drop(void) {
    queue_t *q = any_queue();
    queue_drop(q);
    CHECK(buffer_kept(q), "drop: storage and capacity unchanged");
    CHECK(Q(q), "drop: invariant kept");
    CHECK(queue_size(q) == 0 && queue_head(q) == NULL && queue_tail(q) == NULL, "drop: empty");
    REACH("drop");
}

void h_look(void) {
    queue_t *q = any_queue();
    node_t *a = queue_head(q), *b = queue_tail(q);
    CHECK(queue_size(q) == old.size, "look: size is the element count");
    if (old.size == 0) {
        CHECK(a == NULL && b == NULL, "look: nothing in an empty queue");
    } else {
        if (w == 0)
            CHECK(same_elem(a, &wold) && queue_node_key(a) == wold.key && queue_node_data(a).value == wold.data.value, "look: first element");
        if (w == old.size - 1)
            CHECK(same_elem(b, &wold) && queue_node_key(b) == wold.key && queue_node_data(b).value == wold.data.value, "look: last element");
        REACH("nonempty");
    }
    CHECK(q->head == old.head && q->tail == old.tail && q->size == old.size && buffer_kept(q), "look: changes nothing");
}

/* bounded search through the API only: histories of OPS operations on a queue
 * of capacity <= CAPMAX compared with a plain array */
#ifndef OPS
#define OPS 7
#endif
void h_history(void) {
    int cap = nd_irange(1, CAPMAX);
    queue_t *q = queue_alloc(cap);
    int keys[OPS + 1], lo = 0, hi = 0;
    for (int s = 0; s < OPS; s++) {
        int op = nd_irange(0, 3), key = nd_int();
        data_t d = {.value = (uint64_t)(uint32_t)key + 7};
        if (op == 0) {
            node_t *r = queue_enqueue(q, key, d);
            CHECK((r == NULL) == (hi - lo == cap), "history: insertion refused exactly when full");
            if (r) { keys[hi++] = key; CHECK(r->key == key && r->data.value == d.value, "history: stored element"); }
        } else if (op == 1) {
            queue_dequeue_head(q);
            if (hi > lo) lo++;
        } else if (op == 2) {
            queue_dequeue_tail(q);
            if (hi > lo) hi--;
        } else {
            queue_drop(q);
            lo = hi = 0;
        }
        CHECK(queue_size(q) == hi - lo, "history: size");
        node_t *a = queue_head(q), *b = queue_tail(q);
        CHECK((a == NULL) == (hi == lo) && (b == NULL) == (hi == lo), "history: first/last exist exactly when not empty");
        if (hi > lo) {
            CHECK(a->key == keys[lo] && a->data.value == (uint64_t)(uint32_t)keys[lo] + 7, "history: first element");
            CHECK(b->key == keys[hi - 1] && b->data.value == (uint64_t)(uint32_t)keys[hi - 1] + 7, "history: last element");
        }
    }
    REACH("history");
}
