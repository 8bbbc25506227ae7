//@unit: queue (optionals/queue.c): ring buffer behaves as a FIFO sequence
//@loop: optionals/queue.c shrinkQueue 0/1
//@ assigns queue->front, queue->count, newQueue->rear, newQueue->count, __CPROVER_object_whole(newQueue->dq)
//@ inv 0 <= queue->count && queue->count <= g_n0 && newQueue->count == g_n0 - queue->count && newQueue->rear == newQueue->count - 1
//@ inv 0 <= queue->front && queue->front < queue->capacity && queue->front == PHYS(g_f0, newQueue->count, queue->capacity)
//@ inv newQueue->count > g_k ==> newQueue->dq[g_k] == g_V
//@ dec queue->count
//@loop: optionals/queue.c grayQueue 0/1
//@ assigns i, index, vp_grayed, gray_n
//@ inv 0 <= i && i <= queue->count && (queue->capacity > 0 ==> 0 <= index && index < queue->capacity && index == PHYS(queue->front, i, queue->capacity))
//@ inv vp_grayed == (i > g_k) && gray_n == i
//@ dec queue->count - i
//@cflags: -DVP_KNOWN=1
//@trust: newAbstract, newModule, defineNative, result constructors: not part of the sequence contract
#define VP_GHOST_COPY 1
#define VP_CELLS 1
#include "vm/vm.h"
#include "stub_mem.h"
static int g_f0, g_n0, g_k;
static Value g_V;
static bool vp_grayed;
static int gray_at = 0, gray_n = 0;
#define PHYS(f, k, c) ((int) ((uint32_t) (f) + (uint32_t) (k) >= (uint32_t) (c) ? (uint32_t) (f) + (uint32_t) (k) - (uint32_t) (c) : (uint32_t) (f) + (uint32_t) (k)))
size_t vp_keep_off;
#define memmove vp_memmove
#include "optionals/queue.c"
#undef memmove
#include "stub_alloc.h"
#include "stub_vm.h"
static Queue *q0;
void grayValue(DictuVM *vm, Value v) {
    (void) vm; (void) v;
#if VP_CONCRETE
    if (gray_at++ == g_k) { VP_ASSERT(v == g_V, "mark: the elements in order"); vp_grayed = true; }
#else
    if (!vp_grayed && v == g_V && nondet_vp_u64()) {}
#endif
}
/* proof version: the k-th call must pass the k-th element */


#if VP_CONCRETE
#define CAPMAX (2 * VP_BOUND)
#else
#define CAPMAX (1 << 20)
#endif
static ObjAbstract absobj;
static Queue *mk_queue(void) {
    Queue *q = malloc(sizeof(Queue));
    VP_ASSUME(q != NULL);
    q->capacity = (int) vp_range(0, CAPMAX);
    q->count = (int) vp_range(0, CAPMAX);
    VP_ASSUME(q->count <= q->capacity);
    q->front = q->capacity ? (int) vp_range(0, q->capacity - 1) : 0;
    int last = q->front + q->count == 0 ? q->capacity - 1 : PHYS(q->front, q->count - 1, q->capacity);
    q->rear = q->capacity ? last : -1;
    if (q->count == 0 && last == q->capacity - 1 && vp_range(0, 1)) q->rear = -1;
    q->dq = vp_cells((size_t) q->capacity);
    return q;
}
static bool INV(Queue *q) {
    if (!(q->count >= 0 && q->count <= q->capacity)) return false;
    if (q->capacity == 0) return q->front == 0 && q->rear == -1;
    if (!(q->front >= 0 && q->front < q->capacity && q->rear >= -1 && q->rear < q->capacity)) return false;
    int last = q->front + q->count == 0 ? q->capacity - 1 : PHYS(q->front, q->count - 1, q->capacity);
    return (q->rear < 0 ? q->capacity - 1 : q->rear) == last && (q->rear >= 0 || q->count == 0);
}
#define VIEW(q, k) ((q)->dq[PHYS((q)->front, k, (q)->capacity)])

static void push_contract(Queue *q) {
    absobj.obj.type = OBJ_ABSTRACT; absobj.data = q; VP_OBJ(0, &absobj);
    Value args[2] = {OBJ_VAL(&absobj), vp_u64()};
    int argc = (int) vp_range(0, 3), n = q->count, c = q->capacity, k = (int) vp_range(0, CAPMAX);
    Value x = 0;
    if (k < n) { x = VIEW(q, k); vp_keep_off = vp_mm_off = (size_t) PHYS(q->front, k, q->capacity) * sizeof(Value); }
    Value r = queuePush(NULL, argc, args);
    if (argc != 1) VP_ASSERT(vp_err == 1 && IS_EMPTY(r) && q->count == n, "push: wrong argument count is an error and changes nothing");
    else {
        VP_ASSERT(vp_err == 0, "push: no error");
        VP_ASSERT(INV(q), "push: queue invariant");
        VP_ASSERT(q->count == n + 1, "push: one more element");
        if (k < n) VP_ASSERT(VIEW(q, k) == x, "push: every queued element keeps its value and position");
        VP_ASSERT(VIEW(q, n) == args[1], "push: the value is the last element");
        VP_ASSERT(vp_balance == ((long long) q->capacity - c) * (long long) sizeof(Value), "push: growth is accounted");
    }
    free(q->dq); free(q);
}

//@entry: q_push
//@ contract=queuePush
//@ what=with room, push appends the value behind every element and keeps all others in order
//@ loops=off; bmc=no; native_bound=8; cost=10
void q_push(void) {
    VP_INIT();
    Queue *q = mk_queue();
    VP_ASSUME(q->count < q->capacity);
    push_contract(q);
    VP_REACH("q_push");
}

//@entry: q_push_grow
//@ contract=queuePush
//@ what=without room the ring grows; push appends the value behind every element and keeps all others in order
//@ loops=off; checks=bounds-check; bmc=no; native_bound=8; cost=60
void q_push_grow(void) {
    VP_INIT();
    Queue *q = mk_queue();
    VP_ASSUME(q->count == q->capacity);
    push_contract(q);
    VP_REACH("q_push_grow");
}

//@entry: q_pop
//@ contract=queuePop shrinkQueue createQueue
//@ what=pop returns the first element and leaves the others in order, also when the ring shrinks; popping an empty queue is an error
//@ loopfuncs=shrinkQueue; bmc=no; native_bound=40; cost=30
void q_pop(void) {
    VP_INIT();
    Queue *q = mk_queue();
    absobj.obj.type = OBJ_ABSTRACT; absobj.data = q; VP_OBJ(0, &absobj);
    Value args[1] = {OBJ_VAL(&absobj)};
    int argc = (int) vp_range(0, 2), n = q->count, c = q->capacity, k = (int) vp_range(0, CAPMAX);
    Value x = 0, h = 0;
    if (k < n) x = VIEW(q, k);
    if (n > 0) h = VIEW(q, 0);
    if (k < n && k == 0) VP_ASSUME(x == h);
    g_f0 = q->front; g_n0 = n; g_k = k; g_V = x;
#if !VP_CONCRETE
    bool first = vp_range(0, 1); /* the loop proof tracks one element: the k-th or the first */
    if (first) { g_k = 0; g_V = h; }
#else
    bool first = true;
#endif
    Value r = queuePop(NULL, argc, args);
    if (argc != 0 || n == 0) VP_ASSERT(vp_err == 1 && IS_EMPTY(r) && q->count == n, "pop: wrong use is an error and changes nothing");
    else {
        VP_ASSERT(vp_err == 0, "pop: no error");
        if (first) VP_ASSERT(r == h, "pop: the first element is returned");
        VP_ASSERT(q->count == n - 1, "pop: one element fewer");
        VP_ASSERT(INV(q), "pop: queue invariant");
        if (k > 0 && k < n && (VP_CONCRETE || !first)) VP_ASSERT(VIEW(q, k - 1) == x, "pop: the other elements move up by one");
        VP_ASSERT(vp_balance == ((long long) q->capacity - c) * (long long) sizeof(Value), "pop: shrinking is accounted");
    }
    free(q->dq); free(q);
    VP_REACH("q_pop");
}

//@entry: q_observe
//@ contract=queueLen queueIsEmpty queueIsFull queueCap queuePeek createQueue freeQueue
//@ what=length, emptiness, fullness and first element report the sequence; a new queue is empty; releasing one returns all its memory
//@ loops=off; bmc=no; native_bound=8
void q_observe(void) {
    VP_INIT();
    Queue *q;
    if (vp_range(0, 1)) {
        int cap = (int) vp_range(1, CAPMAX);
        q = createQueue(NULL, cap);
        VP_ASSERT(INV(q) && q->count == 0 && q->capacity == cap, "new queue: empty");
        VP_ASSERT(vp_balance == (long long) (sizeof(Queue) + cap * sizeof(Value)), "new queue: accounted");
    } else { q = mk_queue(); vp_balance = (long long) (sizeof(Queue) + q->capacity * sizeof(Value)); }
    absobj.obj.type = OBJ_ABSTRACT; absobj.data = q; VP_OBJ(0, &absobj);
    Value args[1] = {OBJ_VAL(&absobj)};
    int n = q->count, argc = (int) vp_range(0, 1);
    Value a = queueLen(NULL, argc, args), b = queueIsEmpty(NULL, argc, args), c = queueIsFull(NULL, argc, args), d = queueCap(NULL, argc, args);
    if (argc) VP_ASSERT(vp_err == 4 && IS_EMPTY(a) && IS_EMPTY(b) && IS_EMPTY(c) && IS_EMPTY(d), "observers: wrong argument count is an error");
    else VP_ASSERT(vp_err == 0 && a == numToValue((double) n) && b == BOOL_VAL(n == 0) && c == BOOL_VAL(n == q->capacity) && d == numToValue((double) q->capacity), "observers: length, emptiness, fullness, capacity");
    vp_err = 0;
    Value h = n > 0 ? VIEW(q, 0) : 0;
    Value p = queuePeek(NULL, argc, args);
    if (argc || n == 0) VP_ASSERT(vp_err == 1 && IS_EMPTY(p), "peek: wrong use is an error");
    else VP_ASSERT(vp_err == 0 && p == h, "peek: the first element");
    VP_ASSERT(q->count == n, "observers: nothing changes");
    vp_err = 0;
    freeQueue(NULL, &absobj);
    VP_ASSERT(vp_balance == 0, "release: all accounted memory is returned");
    VP_REACH("q_observe");
}

//@entry: q_gray
//@ contract=grayQueue
//@ what=a collection marks every element that is still queued
//@ loopfuncs=grayQueue; replace=grayValue:gray_c; bmc=no; native_bound=8
#ifdef VP_CBMC
/* the tracked element is the k-th queued one: calls are made with its slot content when reached */
void gray_c(DictuVM *vm, Value v) { (void) vm; if (gray_n++ == g_k) { VP_ASSERT(v == g_V, "mark: the elements in order"); vp_grayed = true; } }
#endif
void q_gray(void) {
    VP_INIT();
    Queue *q = mk_queue();
    absobj.obj.type = OBJ_ABSTRACT; absobj.data = q; VP_OBJ(0, &absobj);
    g_k = (int) vp_range(0, CAPMAX); vp_grayed = false; gray_at = 0; gray_n = 0;
    if (g_k < q->count) g_V = VIEW(q, g_k);
    grayQueue(NULL, &absobj);
    VP_ASSERT(vp_grayed == (g_k < q->count), "mark: every queued element is marked");
    free(q->dq); free(q);
    VP_REACH("q_gray");
}
