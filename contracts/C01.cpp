// C01: Array behaves as a finite sequence and owns its memory and its elements exactly once
//! assume: element counts are below 2^40 (address-space limit); an element passed to add() does not live inside the array's own buffer
#include "containers.h"
typedef Array<Item> Arr;
static GhostAllocator gAlloc;

template <class T> inline void anyArrayOf(VcRaw<Array<T>>& raw, const char* n, MemoryAllocator& al) {
    Array<T>* a = new (raw.bytes) Array<T>(al);
    uint64_t cap = vc_any_u64("capacity"), size = vc_any_u64("size");
    if (vc_native()) { cap %= 70; size = cap ? size % (cap + 1) : 0; if (vc_any_bool("full")) size = cap; }
    vc_assume(cap <= MAXN);
    vc_assume(size <= cap);
    a->mBuffer = anyBlock<T>(cap, n);
    a->mCapacity = cap;
    a->mSize = size;
}
inline void anyArray(VcRaw<Arr>& raw, const char* n) { anyArrayOf<Item>(raw, n, gAlloc); }
SPEC bool wf(const Arr* a) { return a->mSize <= a->mCapacity && (a->mCapacity == 0) == (a->mBuffer == nullptr); }
static Item* snap(Arr& a) { return a.mCapacity ? vc_snapshot(a.mBuffer) : nullptr; }

HARNESS(array_add, "") {
    VcRaw<Arr> raw; anyArray(raw, "buf"); Arr& a = raw.r();
    uint64_t n = a.size();
    Item* old = snap(a);
    Item* oldBuf = a.mBuffer;
    Item e; e.v = vc_any_u64("e");
    if (vc_any_bool("emplace")) a.emplace(e); else a.add(e);
    vc_assert(wf(&a), "array stays well formed");
    vc_assert(a.size() == n + 1, "add appends one element");
    vc_assert(a[n].v == e.v, "the added element is the last one");
    if (n) ENSURE("add keeps the other elements", vc_forall(0, n, [&](uint64_t i) { return a.mBuffer[i].v == old[i].v; }));
    vc_assert(oldBuf == a.mBuffer || oldBuf == nullptr || vc_is_released(oldBuf), "a replaced buffer is released");
    vc_assert(!vc_is_released(a.mBuffer), "the buffer in use is not released");
}
HARNESS(array_reserve, "") {
    VcRaw<Arr> raw; anyArray(raw, "buf"); Arr& a = raw.r();
    uint64_t n = a.size(), c = a.capacity(), want = vc_any_u64("want");
    vc_assume(want <= MAXN);
    Item* old = snap(a);
    Item* oldBuf = a.mBuffer;
    a.reserve(want);
    vc_assert(wf(&a), "array stays well formed");
    vc_assert(a.size() == n, "reserve keeps the size");
    vc_assert(a.capacity() >= want && a.capacity() >= c, "reserve provides the requested capacity");
    if (n) ENSURE("reserve keeps the elements", vc_forall(0, n, [&](uint64_t i) { return a.mBuffer[i].v == old[i].v; }));
    vc_assert(oldBuf == a.mBuffer || oldBuf == nullptr || vc_is_released(oldBuf), "a replaced buffer is released");
}
HARNESS(array_remove_at, "") {
    VcRaw<Arr> raw; anyArray(raw, "buf"); Arr& a = raw.r();
    uint64_t n = a.size(), k = vc_any_u64("k"), c = a.capacity();
    vc_assume(k < n);
    Item* old = snap(a);
    Arr::Iterator it = a.removeAt(k);
    vc_assert(wf(&a) && a.capacity() == c, "array stays well formed");
    vc_assert(a.size() == n - 1, "removeAt removes one element");
    ENSURE("elements before the removed one stay", vc_forall(0, k, [&](uint64_t i) { return a.mBuffer[i].v == old[i].v; }));
    ENSURE("elements after the removed one move down by one", vc_forall(k, n - 1, [&](uint64_t i) { return a.mBuffer[i].v == old[i + 1].v; }));
    vc_assert(it.mCurrentIndex == k && it.mSize == n - 1 && it.mBuffer == a.mBuffer, "the iterator denotes the element after the removed one");
}
HARNESS(array_remove_last, "") {
    VcRaw<Arr> raw; anyArray(raw, "buf"); Arr& a = raw.r();
    uint64_t n = a.size(), k = vc_any_u64("k");
    vc_assume(k < n);
    Item* old = snap(a);
    a.removeAtAndReplaceByLast(k);
    vc_assert(wf(&a), "array stays well formed");
    vc_assert(a.size() == n - 1, "one element is removed");
    ENSURE("other elements stay and the last one takes the place", vc_forall(0, n - 1, [&](uint64_t i) { return a.mBuffer[i].v == (i == k ? old[n - 1].v : old[i].v); }));
}
static Arr* gA; static Item* gX;
INV bool find_inv(uint64_t i) { return vc_forall(0, i, [&](uint64_t j) { return gA->mBuffer[j].v != gX->v; }); }
HARNESS(array_find, "invs=find_inv") {
    VcRaw<Arr> raw; anyArray(raw, "buf"); Arr& a = raw.r();
    Item e; e.v = vc_any_u64("e");
    gA = &a; gX = &e;
    Arr::Iterator it = a.find(e);
    uint64_t k = it.mCurrentIndex;
    vc_assert(k <= a.size(), "find returns a position or the end");
    ENSURE("find returns the first match", vc_forall(0, k, [&](uint64_t j) { return a.mBuffer[j].v != e.v; }));
    if (k < a.size()) { vc_assert(a[k].v == e.v, "the found element matches"); vc_assert((*it).v == e.v, "the iterator gives the element"); vc_assert(it != a.end(), "a found element is not the end"); }
    else vc_assert(it == a.end(), "end iterator when nothing matches");
}
static Arr* gB; static Item* gOld; static uint64_t gN, gS;
// after i steps from start s: elements s..i-1 of the source are appended
INV bool range_inv(uint64_t i) {
    return i >= gS && i <= gB->mSize && gA->mSize == gN + (i - gS) && vc_forall(0, gN, [&](uint64_t j) { return gA->mBuffer[j].v == gOld[j].v; })
        && vc_forall(gN, gN + (i - gS), [&](uint64_t j) { return gA->mBuffer[j].v == gB->mBuffer[j - gN + gS].v; });
}
HARNESS(array_add_range, "invs=range_inv") {
    VcRaw<Arr> ra; anyArray(ra, "bufa"); Arr& a = ra.r();
    VcRaw<Arr> rb; anyArray(rb, "bufb"); Arr& b = rb.r();
    uint64_t n = a.size(), s = vc_any_u64("s");
    vc_assume(s <= b.size());
    gOld = snap(a); gN = n; gS = s; gA = &a; gB = &b;
    if (!gOld) gOld = anyBlock<Item>(1, "none");
    Item* ob = b.size() ? snap(b) : nullptr;
    a.addRange(b, s);
    vc_assert(wf(&a), "array stays well formed");
    uint64_t m = b.size() - s;
    vc_assert(a.size() == n + m, "addRange appends all requested elements");
    ENSURE("addRange keeps the elements", vc_forall(0, n, [&](uint64_t i) { return a.mBuffer[i].v == gOld[i].v; }));
    if (b.size()) {
        ENSURE("addRange appends the elements in order", vc_forall(0, m, [&](uint64_t i) { return a.mBuffer[n + i].v == ob[s + i].v; }));
        ENSURE("the source is unchanged", vc_forall(0, b.size(), [&](uint64_t i) { return b.mBuffer[i].v == ob[i].v; }));
    }
}
HARNESS(array_assign, "invs=range_inv") {
    VcRaw<Arr> ra; anyArray(ra, "bufa"); Arr& a = ra.r();
    VcRaw<Arr> rb; anyArray(rb, "bufb"); Arr& b = rb.r();
    gN = 0; gS = 0; gA = &a; gB = &b; gOld = anyBlock<Item>(1, "none");
    Item* ob = b.size() ? snap(b) : nullptr;
    a = b;
    vc_assert(wf(&a), "array stays well formed");
    vc_assert(a.size() == b.size(), "assignment copies the size");
    vc_assert(a.mBuffer == nullptr || a.mBuffer != b.mBuffer, "assignment does not share memory");
    if (b.size()) ENSURE("assignment copies the elements", vc_forall(0, b.size(), [&](uint64_t i) { return a.mBuffer[i].v == ob[i].v && b.mBuffer[i].v == ob[i].v; }));
}
HARNESS(array_copy, "invs=range_inv") {
    VcRaw<Arr> rb; anyArray(rb, "bufb"); Arr& b = rb.r();
    VcRaw<Arr> ra; Arr& a = ra.r();
    gN = 0; gS = 0; gA = &a; gB = &b; gOld = anyBlock<Item>(1, "none");
    Item* ob = b.size() ? snap(b) : nullptr;
    new (ra.bytes) Arr(b);
    vc_assert(wf(&a), "array stays well formed");
    vc_assert(a.size() == b.size(), "a copy has the same size");
    vc_assert(a.mBuffer == nullptr || a.mBuffer != b.mBuffer, "a copy does not share memory");
    if (b.size()) ENSURE("a copy has the same elements", vc_forall(0, b.size(), [&](uint64_t i) { return a.mBuffer[i].v == ob[i].v && b.mBuffer[i].v == ob[i].v; }));
}
INV bool eq_inv(uint64_t i) { return vc_forall(0, i, [&](uint64_t j) { return gA->mBuffer[j].v == gB->mBuffer[j].v; }); }
HARNESS(array_equal, "invs=eq_inv") {
    VcRaw<Arr> ra; anyArray(ra, "bufa"); Arr& a = ra.r();
    VcRaw<Arr> rb; anyArray(rb, "bufb"); Arr& b = rb.r();
    gA = &a; gB = &b;
    bool r = a == b;
    if (r) ENSURE("equal arrays have equal elements", a.size() == b.size() && vc_forall(0, a.size(), [&](uint64_t j) { return a.mBuffer[j].v == b.mBuffer[j].v; }));
    else ENSURE("different arrays differ somewhere", a.size() != b.size() || vc_exists(0, a.size(), [&](uint64_t j) { return a.mBuffer[j].v != b.mBuffer[j].v; }));
}
HARNESS(array_clear, "") {
    VcRaw<Arr> ra; anyArray(ra, "bufa"); Arr& a = ra.r();
    bool rel = vc_any_bool("release");
    Item* buf = a.mBuffer; uint64_t c = a.capacity();
    a.clear(rel);
    vc_assert(wf(&a), "array stays well formed");
    vc_assert(a.size() == 0, "clear empties the array");
    if (rel) vc_assert(a.capacity() == 0 && (buf == nullptr || vc_is_released(buf)), "clear(true) gives the memory back");
    else vc_assert(a.capacity() == c && a.mBuffer == buf, "clear keeps the memory");
    a.~Arr();
    if (buf) vc_assert(vc_is_released(buf), "destruction gives the memory back");
}
HARNESS(array_add_without_init, "") {
    VcRaw<Arr> raw; anyArray(raw, "buf"); Arr& a = raw.r();
    uint64_t n = a.size(), k = vc_any_u64("k");
    vc_assume(k <= MAXN);
    if (vc_native()) vc_assume(k < 100000);
    Item* old = snap(a);
    a.addWithoutInit(k);
    vc_assert(wf(&a), "array stays well formed");
    vc_assert(a.size() == n + k, "the size grows by the requested number");
    if (n) ENSURE("existing elements stay", vc_forall(0, n, [&](uint64_t i) { return a.mBuffer[i].v == old[i].v; }));
}
HARNESS(array_access, "") {
    VcRaw<Arr> raw; anyArray(raw, "buf"); Arr& a = raw.r();
    uint64_t k = vc_any_u64("k");
    vc_assume(k < a.size());
    const Arr& ca = a;
    vc_assert(&a[k] == a.mBuffer + k && &ca[k] == a.mBuffer + k, "indexing gives the element at that position");
    Arr::Iterator b = a.begin(), e = a.end();
    vc_assert(uint64_t(e - b) == a.size(), "begin and end delimit the array");
    Arr::Iterator p = b + (std::ptrdiff_t)k;
    vc_assert(&*p == a.mBuffer + k, "an iterator advances by its offset");
    vc_assert(p != e, "an element is not the end");
    Arr::Iterator q = p++;
    vc_assert(&*q == a.mBuffer + k && uint64_t(p - b) == k + 1, "post increment");
    Arr::Iterator r = --p;
    vc_assert(r == q && &*r == a.mBuffer + k, "pre decrement undoes increment");
}
// ---- element lifetimes: every constructed element is destroyed exactly once, nothing dead is read
static const uint64_t LIVE = 0x11, DEAD = 0x22;
struct Tracked {
    uint64_t v, live;
    Tracked() : v(0), live(LIVE) {}
    Tracked(const Tracked& o) { vc_assert(o.live == LIVE, "only living elements are copied"); v = o.v; live = LIVE; }
    ~Tracked() { vc_assert(live == LIVE, "only living elements are destroyed"); live = DEAD; }
    Tracked& operator=(const Tracked& o) { vc_assert(live == LIVE && o.live == LIVE, "assignment is between living elements"); v = o.v; return *this; }
    bool operator==(const Tracked& o) const { vc_assert(live == LIVE && o.live == LIVE, "comparison is between living elements"); return v == o.v; }
};
struct RawTracked { uint64_t v, live; };
typedef Array<Tracked> TArr;
static RawTracked *gNew, *gCur, *gVals; static uint64_t gLive;
struct TrackAllocator : public MemoryAllocator {
    void* allocate(size_t size) override { void* p = vc_alloc(size, "block"); vc_elems(p, sizeof(RawTracked)); RawTracked t; vc_layout_like(p, &t); gNew = (RawTracked*)p; return p; }
    void release(void* p, size_t size) override {
        RawTracked* t = (RawTracked*)p;
        ENSURE("no living element in released memory", vc_forall(0, gLive, [&](uint64_t i) { return t[i].live == DEAD; }));
        vc_release(p, size);
    }
};
static TrackAllocator tAlloc;
inline void anyTracked(VcRaw<TArr>& raw) {
    TArr* a = new (raw.bytes) TArr(tAlloc);
    uint64_t cap = vc_any_u64("capacity"), size = vc_any_u64("size");
    if (vc_native()) { cap %= 40; size = cap ? size % (cap + 1) : 0; if (vc_any_bool("full")) size = cap; }
    vc_assume(cap <= MAXN); vc_assume(size <= cap); vc_assume(cap > 0);
    RawTracked* b = anyBlock<RawTracked>(cap, "buf");
    if (vc_native()) for (uint64_t i = 0; i < size; i++) b[i].live = LIVE;
    ASSUME(vc_forall(0, size, [&](uint64_t i) { return b[i].live == LIVE; }));
    a->mBuffer = (Tracked*)b; a->mCapacity = cap; a->mSize = size;
    gCur = b; gVals = vc_snapshot(b); gN = size; gLive = size;
}
INV bool ucopy_inv(RawTracked* b) {
    uint64_t k = b - gCur;
    return k <= gN && vc_forall(0, k, [&](uint64_t j) { return gNew[j].live == LIVE && gNew[j].v == gVals[j].v; });
}
INV bool destroy_inv(uint64_t i) {
    return i <= gN && vc_forall(0, i, [&](uint64_t j) { return gCur[j].live == DEAD; }) && vc_forall(i, gN, [&](uint64_t j) { return gCur[j].live == LIVE; });
}
HARNESS(tracked_add, "invs=ucopy_inv,destroy_inv") {
    VcRaw<TArr> raw; anyTracked(raw); TArr& a = raw.r();
    Tracked e; e.v = vc_any_u64("e");
    a.add(e);
    RawTracked* b = (RawTracked*)a.mBuffer;
    ENSURE("all elements live", vc_forall(0, gN + 1, [&](uint64_t j) { return b[j].live == LIVE; }));
    ENSURE("elements kept", vc_forall(0, gN, [&](uint64_t j) { return b[j].v == gVals[j].v; }) && b[gN].v == e.v);
}
HARNESS(tracked_clear, "invs=destroy_inv") {
    VcRaw<TArr> raw; anyTracked(raw); TArr& a = raw.r();
    if (vc_any_bool("dtor")) { a.~TArr(); vc_assert(vc_is_released(gCur), "memory is given back"); }
    else { a.clear(); ENSURE("all elements are destroyed", vc_forall(0, gN, [&](uint64_t j) { return gCur[j].live == DEAD; })); }
}
HARNESS(tracked_remove, "") {
    VcRaw<TArr> raw; anyTracked(raw); TArr& a = raw.r();
    uint64_t k = vc_any_u64("k"); vc_assume(k < gN);
    a.removeAt(k);
    ENSURE("remaining elements live", vc_forall(0, gN - 1, [&](uint64_t j) { return gCur[j].live == LIVE && gCur[j].v == (j < k ? gVals[j].v : gVals[j + 1].v); }));
}
HARNESS(tracked_remove_last, "") {
    VcRaw<TArr> raw; anyTracked(raw); TArr& a = raw.r();
    uint64_t k = vc_any_u64("k"); vc_assume(k < gN);
    a.removeAtAndReplaceByLast(k);
    ENSURE("remaining elements live", vc_forall(0, gN - 1, [&](uint64_t j) { return gCur[j].live == LIVE; }));
    vc_assert(gCur[gN - 1].live == DEAD, "the vacated element is destroyed");
}
