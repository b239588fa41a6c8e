struct pqueue_t;
static void vp_alloc(struct pqueue_t *res, int *i);
