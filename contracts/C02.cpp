// C02: Deque is a double-ended sequence and Stack a LIFO sequence; both own their memory and their elements exactly once
//! assume: element counts are below 2^40 (address-space limit); an element passed to an add/push operation does not live inside the container's own buffer
#include "containers.h"
typedef Deque<Item> Dq;
typedef Stack<Item> St;
static TypedAllocator<Item> gAlloc;
static uint64_t gF0, gF1, gN;
static Dq *gA, *gB; static St *gS; static Item* gOld;

// an arbitrary well formed deque
template <class T, class R> inline void anyDequeOf(VcRaw<Deque<T>>& raw, const char* n, MemoryAllocator& al) {
    Deque<T>* a = new (raw.bytes) Deque<T>(al);
    uint64_t cap = vc_any_u64("capacity"), size = vc_any_u64("size"), first = vc_any_u64("first");
    if (vc_native()) { cap = (cap % 4) * 16; first = cap ? first % (cap + 1) : 0; if (vc_any_bool("front")) first = 0; size = size % (cap - first + 1); if (vc_any_bool("full")) size = cap - first; }
    vc_assume(cap <= MAXN);
    vc_assume(first <= cap);
    vc_assume(size <= cap - first);
    vc_assume(cap % 16 == 0);
    a->mBuffer = (T*)anyBlock<R>(cap, n);
    a->mCapacity = cap;
    a->mSize = size;
    a->mFirstItemIndex = first;
}
inline void anyDeque(VcRaw<Dq>& raw, const char* n) { anyDequeOf<Item, Item>(raw, n, gAlloc); }
SPEC bool wf(const Dq* a) { return a->mFirstItemIndex <= a->mCapacity && a->mSize <= a->mCapacity - a->mFirstItemIndex && a->mCapacity % 16 == 0 && (a->mCapacity == 0) == (a->mBuffer == nullptr); }
static Item* snapd(Dq& a) { return a.mCapacity ? vc_snapshot(a.mBuffer) : anyBlock<Item>(1, "none"); }

HARNESS(deque_add, "") {
    VcRaw<Dq> raw; anyDeque(raw, "buf"); Dq& a = raw.r();
    uint64_t n = a.size(), f = a.mFirstItemIndex;
    Item* old = snapd(a); Item* oldBuf = a.mBuffer;
    Item e; e.v = vc_any_u64("e");
    bool front = vc_any_bool("addFront");
    if (front) a.addFront(e); else a.addBack(e);
    vc_assert(wf(&a), "deque stays well formed");
    vc_assert(a.size() == n + 1, "one element is added");
    if (front) {
        vc_assert(a.getFront().v == e.v && a[0].v == e.v, "addFront puts the element first");
        ENSURE("addFront keeps the other elements in order", vc_forall(0, n, [&](uint64_t i) { return a.mBuffer[a.mFirstItemIndex + 1 + i].v == old[f + i].v; }));
    }
    else {
        vc_assert(a.getBack().v == e.v && a[n].v == e.v, "addBack puts the element last");
        ENSURE("addBack keeps the other elements in order", vc_forall(0, n, [&](uint64_t i) { return a.mBuffer[a.mFirstItemIndex + i].v == old[f + i].v; }));
    }
    vc_assert(oldBuf == a.mBuffer || oldBuf == nullptr || vc_is_released(oldBuf), "a replaced buffer is released");
    vc_assert(!vc_is_released(a.mBuffer), "the buffer in use is not released");
}
HARNESS(deque_pop, "") {
    VcRaw<Dq> raw; anyDeque(raw, "buf"); Dq& a = raw.r();
    uint64_t n = a.size(), f = a.mFirstItemIndex, c = a.mCapacity;
    Item* old = snapd(a);
    bool front = vc_any_bool("popFront");
    if (front) a.popFront(); else a.popBack();
    vc_assert(wf(&a) && a.mCapacity == c, "deque stays well formed");
    vc_assert(a.size() == (n ? n - 1 : 0), "pop removes one element if there is one");
    if (n > 1) {
        ENSURE("pop keeps the other elements in order", vc_forall(0, n - 1, [&](uint64_t i) { return a.mBuffer[a.mFirstItemIndex + i].v == old[f + i + (front ? 1 : 0)].v; }));
        vc_assert(a.getFront().v == old[f + (front ? 1 : 0)].v, "the front is the first remaining element");
        vc_assert(a.getBack().v == old[f + n - (front ? 1 : 2)].v, "the back is the last remaining element");
    }
}
HARNESS(deque_access, "") {
    VcRaw<Dq> raw; anyDeque(raw, "buf"); Dq& a = raw.r();
    uint64_t k = vc_any_u64("k");
    if (vc_native() && a.size()) k %= a.size();
    vc_assume(k < a.size());
    const Dq& ca = a;
    vc_assert(&a[k] == a.mBuffer + a.mFirstItemIndex + k && &ca[k] == &a[k], "indexing counts from the front");
    Dq::Iterator b = a.begin(), e = a.end();
    vc_assert(uint64_t(e - b) == a.size(), "begin and end delimit the deque");
    Dq::Iterator p = b + (std::ptrdiff_t)k;
    vc_assert(&*p == &a[k], "an iterator advances by its offset");
    vc_assert(p != e, "an element is not the end");
    Dq::Iterator q = p++;
    vc_assert(&*q == &a[k] && uint64_t(p - b) == k + 1, "post increment");
    Dq::Iterator r = --p;
    vc_assert(r == q && &*r == &a[k], "pre decrement undoes increment");
}
INV bool dcopy_inv(uint64_t i) {
    return i <= gB->mSize && gA->mCapacity >= gB->mCapacity && gA->mFirstItemIndex + gB->mSize <= gA->mCapacity && vc_forall(0, i, [&](uint64_t j) { return gA->mBuffer[gA->mFirstItemIndex + j].v == gB->mBuffer[gB->mFirstItemIndex + j].v; });
}
static void same(Dq& a, Dq& b, Item* ob) {
    vc_assert(wf(&a), "deque stays well formed");
    vc_assert(a.size() == b.size(), "a copy has the same size");
    vc_assert(a.mBuffer == nullptr || a.mBuffer != b.mBuffer, "a copy does not share memory");
    ENSURE("a copy has the same elements in the same order", vc_forall(0, b.size(), [&](uint64_t i) { return a.mBuffer[a.mFirstItemIndex + i].v == ob[b.mFirstItemIndex + i].v && b.mBuffer[b.mFirstItemIndex + i].v == ob[b.mFirstItemIndex + i].v; }));
}
HARNESS(deque_copy, "invs=dcopy_inv") {
    VcRaw<Dq> rb; anyDeque(rb, "bufb"); Dq& b = rb.r();
    VcRaw<Dq> ra; Dq& a = ra.r();
    gA = &a; gB = &b;
    Item* ob = snapd(b);
    new (ra.bytes) Dq(b);
    same(a, b, ob);
}
HARNESS(deque_assign, "invs=auto,dcopy_inv") {
    VcRaw<Dq> rb; anyDeque(rb, "bufb"); Dq& b = rb.r();
    VcRaw<Dq> ra; anyDeque(ra, "bufa"); Dq& a = ra.r();
    gA = &a; gB = &b;
    Item* ob = snapd(b);
    a = b;
    same(a, b, ob);
}
INV bool deq_inv(uint64_t i) { return vc_forall(0, i, [&](uint64_t j) { return gA->mBuffer[gA->mFirstItemIndex + j].v == gB->mBuffer[gB->mFirstItemIndex + j].v; }); }
HARNESS(deque_equal, "invs=deq_inv") {
    VcRaw<Dq> ra; anyDeque(ra, "bufa"); Dq& a = ra.r();
    VcRaw<Dq> rb; anyDeque(rb, "bufb"); Dq& b = rb.r();
    if (vc_native() && vc_any_bool("same")) { b.~Dq(); new (rb.bytes) Dq(a); }
    gA = &a; gB = &b;
    bool r = a == b;
    vc_assert(r == !(a != b), "!= is the negation of ==");
    if (r) ENSURE("equal deques have equal elements", a.size() == b.size() && vc_forall(0, a.size(), [&](uint64_t j) { return a.mBuffer[a.mFirstItemIndex + j].v == b.mBuffer[b.mFirstItemIndex + j].v; }));
    else ENSURE("different deques differ somewhere", a.size() != b.size() || vc_exists(0, a.size(), [&](uint64_t j) { return a.mBuffer[a.mFirstItemIndex + j].v != b.mBuffer[b.mFirstItemIndex + j].v; }));
}
HARNESS(deque_clear, "") {
    VcRaw<Dq> ra; anyDeque(ra, "bufa"); Dq& a = ra.r();
    Item* buf = a.mBuffer; uint64_t c = a.mCapacity;
    a.clear();
    vc_assert(wf(&a), "deque stays well formed");
    vc_assert(a.size() == 0 && a.mCapacity == c && a.mBuffer == buf, "clear empties the deque");
    a.~Dq();
    if (buf) vc_assert(vc_is_released(buf), "destruction gives the memory back");
}
// ------------------------------------------------------------------ Stack
template <class T, class R> inline void anyStackOf(VcRaw<Stack<T>>& raw, const char* n, MemoryAllocator& al) {
    Stack<T>* a = new (raw.bytes) Stack<T>(al);
    uint64_t cap = vc_any_u64("capacity"), size = vc_any_u64("size");
    if (vc_native()) { cap = (cap % 4) * 16; size = cap ? size % (cap + 1) : 0; if (vc_any_bool("full")) size = cap; }
    vc_assume(cap <= MAXN);
    vc_assume(size <= cap);
    a->mArray = (T*)anyBlock<R>(cap, n);
    a->mCapacity = cap;
    a->mNbElements = size;
}
inline void anyStack(VcRaw<St>& raw, const char* n) { anyStackOf<Item, Item>(raw, n, gAlloc); }
SPEC bool wfs(const St* a) { return a->mNbElements <= a->mCapacity && (a->mCapacity == 0) == (a->mArray == nullptr); }
HARNESS(stack_push, "") {
    VcRaw<St> raw; anyStack(raw, "buf"); St& a = raw.r();
    uint64_t n = a.size();
    Item* old = n ? vc_snapshot(a.mArray) : anyBlock<Item>(1, "none"); Item* oldBuf = a.mArray;
    Item e; e.v = vc_any_u64("e");
    a.push(e);
    vc_assert(wfs(&a), "stack stays well formed");
    vc_assert(a.size() == n + 1 && a.top().v == e.v, "push puts the element on top");
    ENSURE("push keeps the elements below", vc_forall(0, n, [&](uint64_t i) { return a.mArray[i].v == old[i].v; }));
    vc_assert(oldBuf == a.mArray || oldBuf == nullptr || vc_is_released(oldBuf), "a replaced buffer is released");
    Item p = a.pop();
    vc_assert(p.v == e.v && a.size() == n && wfs(&a), "pop returns the element pushed last");
    ENSURE("pop keeps the elements below", vc_forall(0, n, [&](uint64_t i) { return a.mArray[i].v == old[i].v; }));
}
HARNESS(stack_pop, "") {
    VcRaw<St> raw; anyStack(raw, "buf"); St& a = raw.r();
    uint64_t n = a.size();
    vc_assume(n > 0);
    Item* old = vc_snapshot(a.mArray);
    vc_assert(a.top().v == old[n - 1].v, "top is the last element");
    Item p = a.pop();
    vc_assert(p.v == old[n - 1].v && a.size() == n - 1 && wfs(&a), "pop returns and removes the last element");
    ENSURE("pop keeps the elements below", vc_forall(0, n - 1, [&](uint64_t i) { return a.mArray[i].v == old[i].v; }));
}
HARNESS(stack_copy, "") {
    VcRaw<St> raw; anyStack(raw, "buf"); St& b = raw.r();
    Item* old = b.mCapacity ? vc_snapshot(b.mArray) : anyBlock<Item>(1, "none");
    VcRaw<St> ra; St& a = ra.r();
    new (ra.bytes) St(b);
    vc_assert(wfs(&a) && a.size() == b.size(), "a copy has the same size");
    vc_assert(a.mArray == nullptr || a.mArray != b.mArray, "a copy does not share memory");
    ENSURE("a copy has the same elements", vc_forall(0, b.size(), [&](uint64_t i) { return a.mArray[i].v == old[i].v && b.mArray[i].v == old[i].v; }));
    Item* buf = a.mArray;
    a.~St();
    if (buf) vc_assert(vc_is_released(buf), "destruction gives the memory back");
}
HARNESS(stack_capacity, "") {
    VcRaw<St> raw; anyStack(raw, "buf"); St& b = raw.r();
    uint64_t c = vc_any_u64("c");
    if (vc_native()) c %= 50;
    vc_assume(c <= MAXN);
    Stack<Item> s(gAlloc, c);
    vc_assert(wfs(&s) && s.size() == 0 && s.capacity() >= c, "a stack starts empty with the requested capacity");
    b.clear();
    vc_assert(wfs(&b) && b.size() == 0, "clear empties the stack");
}
// ------------------------------------------------------------------ element lifetimes
#include "tracked.h"
typedef Deque<Tracked> TDq;
typedef Stack<Tracked> TSt;
inline void anyTrackedDeque(VcRaw<TDq>& raw) {
    anyDequeOf<Tracked, RawTracked>(raw, "buf", tAlloc);
    TDq& a = raw.r();
    RawTracked* b = (RawTracked*)a.mBuffer;
    vc_assume(a.mCapacity > 0);
    gCur = b; gTF = a.mFirstItemIndex; gTN = a.mSize;
    if (vc_native()) for (uint64_t i = 0; i < gTN; i++) b[gTF + i].live = LIVE;
    ASSUME(vc_forall(gTF, gTF + gTN, [&](uint64_t i) { return b[i].live == LIVE; }));
    gVals = vc_snapshot(b);
}
INV bool tcopy_inv(RawTracked* src) {
    uint64_t k = (src - gCur) - gTF;
    uint64_t s = gNewFirst == ~0ull ? gNewBytes / sizeof(RawTracked) / 2 - 1 : gNewFirst;
    return src >= gCur + gTF && k <= gTN && vc_forall(0, k, [&](uint64_t j) { return gNew[s + j].live == LIVE && gNew[s + j].v == gVals[gTF + j].v; });
}
INV bool tdestroy_inv(uint64_t i) {
    return i <= gTN && vc_forall(gTF, gTF + i, [&](uint64_t j) { return gCur[j].live == DEAD; }) && vc_forall(gTF + i, gTF + gTN, [&](uint64_t j) { return gCur[j].live == LIVE; });
}
HARNESS(deque_tracked_add, "invs=tcopy_inv,tdestroy_inv") {
    VcRaw<TDq> raw; anyTrackedDeque(raw); TDq& a = raw.r();
    Tracked e; e.v = vc_any_u64("e");
    gNewFirst = ~0ull; gLive0 = gTF; gLive1 = gTF + gTN;
    bool front = vc_any_bool("addFront");
    if (front) a.addFront(e); else a.addBack(e);
    RawTracked* b = (RawTracked*)a.mBuffer; uint64_t f = a.mFirstItemIndex;
    ENSURE("all elements live", vc_forall(f, f + gTN + 1, [&](uint64_t j) { return b[j].live == LIVE; }));
    ENSURE("elements kept", vc_forall(0, gTN, [&](uint64_t j) { return b[f + j + (front ? 1 : 0)].v == gVals[gTF + j].v; }) && b[front ? f : f + gTN].v == e.v);
}
HARNESS(deque_tracked_pop, "") {
    VcRaw<TDq> raw; anyTrackedDeque(raw); TDq& a = raw.r();
    vc_assume(gTN > 0);
    bool front = vc_any_bool("popFront");
    if (front) a.popFront(); else a.popBack();
    ENSURE("remaining elements live", vc_forall(gTF + (front ? 1 : 0), gTF + gTN - (front ? 0 : 1), [&](uint64_t j) { return gCur[j].live == LIVE && gCur[j].v == gVals[j].v; }));
    vc_assert(gCur[front ? gTF : gTF + gTN - 1].live == DEAD, "the removed element is destroyed");
}
HARNESS(deque_tracked_clear, "invs=tdestroy_inv") {
    VcRaw<TDq> raw; anyTrackedDeque(raw); TDq& a = raw.r();
    gLive0 = gTF; gLive1 = gTF + gTN;
    if (vc_any_bool("dtor")) { a.~TDq(); vc_assert(vc_is_released(gCur), "memory is given back"); }
    else { a.clear(); ENSURE("all elements are destroyed", vc_forall(gTF, gTF + gTN, [&](uint64_t j) { return gCur[j].live == DEAD; })); }
}
inline void anyTrackedStack(VcRaw<TSt>& raw) {
    anyStackOf<Tracked, RawTracked>(raw, "buf", tAlloc);
    TSt& a = raw.r();
    RawTracked* b = (RawTracked*)a.mArray;
    vc_assume(a.mCapacity > 0);
    gCur = b; gTF = 0; gTN = a.mNbElements;
    if (vc_native()) for (uint64_t i = 0; i < gTN; i++) b[i].live = LIVE;
    ASSUME(vc_forall(0, gTN, [&](uint64_t i) { return b[i].live == LIVE; }));
    gVals = vc_snapshot(b);
}
HARNESS(stack_tracked_push, "invs=tcopy_inv,tdestroy_inv") {
    VcRaw<TSt> raw; anyTrackedStack(raw); TSt& a = raw.r();
    Tracked e; e.v = vc_any_u64("e");
    gNewFirst = 0; gLive0 = 0; gLive1 = gTN;
    a.push(e);
    RawTracked* b = (RawTracked*)a.mArray;
    ENSURE("all elements live", vc_forall(0, gTN + 1, [&](uint64_t j) { return b[j].live == LIVE; }));
    ENSURE("elements kept", vc_forall(0, gTN, [&](uint64_t j) { return b[j].v == gVals[j].v; }) && b[gTN].v == e.v);
}
HARNESS(stack_tracked_pop, "invs=tdestroy_inv") {
    VcRaw<TSt> raw; anyTrackedStack(raw); TSt& a = raw.r();
    gLive0 = 0; gLive1 = gTN;
    if (vc_any_bool("dtor")) { a.~TSt(); vc_assert(vc_is_released(gCur), "memory is given back"); return; }
    vc_assume(gTN > 0);
    { Tracked t = a.pop(); vc_assert(t.v == gVals[gTN - 1].v, "pop returns the last element"); }
    ENSURE("remaining elements live", vc_forall(0, gTN - 1, [&](uint64_t j) { return gCur[j].live == LIVE && gCur[j].v == gVals[j].v; }));
    vc_assert(gCur[gTN - 1].live == DEAD, "the removed element is destroyed");
}
