// C03: Map and Set are finite maps / sets: lookup, insertion, removal, iteration, copy, growth and clearing
//! assume: fewer than 2^40 allocated entries; the ghost enumeration of a finite hash table's entries exists (definition of the ghost state)
//! assume: isPowerOfTwo / nextPowerOfTwo64Bits are replaced by their contract (proved for all inputs in M02)
#include "containers.h"
#include "tables.h"

static uint64_t gI0, gB0;
// ------------------------------------------------------------------ lookup
// the chain walk of a lookup: nothing before entry i in the bucket has the key
template <class T> inline bool findInv(T* m, uint64_t i) {
    uint64_t b = gKey.bucketIn(m->mHashSize);
    if (i != NONE) { if (!(i < m->mNbAllocatedEntries)) return false; if (!(gU[i] != 0 && B(m, i) == b)) return false; }
    return vc_forall(0, m->mNbAllocatedEntries, [&](uint64_t j) { return !(gU[j] != 0 && B(m, j) == b && (i == NONE || gIdx[j] < gIdx[i])) || K(m, j) != gKey.v; });
}
INV bool find_map(uint64_t i) { return findInv(gM, i); }
INV bool find_set(uint64_t i) { return findInv(gS, i); }
template <class T> inline void lookup(T& m, bool has, typename T::Iterator it) {
    uint64_t H = m.mHashSize, A = m.mNbAllocatedEntries;
    if (has) ENSURE("a key that is found is present", vc_exists(0, A, [&](uint64_t j) { return gU[j] != 0 && K(&m, j) == gKey.v; }));
    else ENSURE("a key that is not found is absent", vc_forall(0, A, [&](uint64_t j) { return !(gU[j] != 0) || K(&m, j) != gKey.v; }));
    vc_assert((it == m.end()) == !has, "find returns the end exactly when the key is absent");
    if (has) {
        vc_assert(it.mCurrentEntryIndex < A && gU[it.mCurrentEntryIndex] != 0, "the found entry is in use");
        vc_assert(K(&m, it.mCurrentEntryIndex) == gKey.v, "the found entry has the key");
        vc_assert(it.mCurrentBucketIndex == B(&m, it.mCurrentEntryIndex), "the iterator knows the bucket of its entry");
    }
}
HARNESS(map_find, "stubs=stub_ispow2,stub_nextpow2;invs=find_map,find_map") {
    VcRaw<MapT> raw; anyTable<MapT>(raw, mapInsert); MapT& m = raw.r(); gM = &m;
    gKey = anyKey("key");
    bool has = m.containsKey(gKey);
    lookup(m, has, m.find(gKey));
}
HARNESS(map_index, "stubs=stub_ispow2,stub_nextpow2;invs=find_map,find_map") {
    VcRaw<MapT> raw; anyTable<MapT>(raw, mapInsert); MapT& m = raw.r(); gM = &m;
    uint64_t k = vc_any_u64("k");
    if (vc_native() && m.mNbAllocatedEntries) k %= m.mNbAllocatedEntries;
    vc_assume(k < m.mNbAllocatedEntries); vc_assume(gU[k] != 0);
    gKey.v = K(&m, k);
    const MapT& cm = m;
    vc_assert(&m[gKey] == &m.mEntries[k].second && &cm[gKey] == &m.mEntries[k].second, "indexing gives the value stored for the key");
}
HARNESS(set_find, "stubs=stub_ispow2,stub_nextpow2;invs=find_set,find_set") {
    VcRaw<SetT> raw; anyTable<SetT>(raw, setInsert); SetT& m = raw.r(); gS = &m;
    gKey = anyKey("key");
    bool has = m.contains(gKey);
    lookup(m, has, m.find(gKey));
}
// ------------------------------------------------------------------ insertion without growth, replacement
template <class T> inline void checkSame(T& m, uint64_t A0, uint64_t except) {
    if (A0) ENSURE("the other elements are unchanged", vc_forall(0, A0, [&](uint64_t i) { return !(gU[i] != 0) || i == except || sameEntry(&m, i, gEnt, i); }));
}
template <class T> inline void checkAdded(T& m, uint64_t e, uint64_t A0) {
    vc_assert(m.mHashSize > 0 && e < m.mNbAllocatedEntries, "the new element has an entry");
    uint64_t b = gKey.bucketIn(m.mHashSize);
    checkWf(m, [&](uint64_t i) { return i == e || (i < A0 && gU[i] != 0); },
       [&](uint64_t i, uint64_t j) { return i != e && (j == e || gIdx[i] > gIdx[j]); },
       [&](uint64_t i) { return gF[i]; });
    vc_assert(K(&m, e) == gKey.v, "the new key is present");
    checkSame(m, A0, e);
}
HARNESS(map_add, "stubs=stub_ispow2,stub_nextpow2;invs=find_map") {
    VcRaw<MapT> raw; anyTable<MapT>(raw, mapInsert); MapT& m = raw.r(); gM = &m;
    gKey = anyKey("key"); Item v; v.v = vc_any_u64("value");
    uint64_t n = m.size(), A0 = m.mNbAllocatedEntries, free0 = m.mFreeIndex;
    vc_assume(free0 != NONE);
    bool repl = vc_any_bool("insertIfAlreadyPresent");
    bool present = vc_exists(0, A0, [&](uint64_t j) { return gU[j] != 0 && K(&m, j) == gKey.v; });
    vc_assume(repl || !present);
    bool r = m.add(PairT(gKey, v), repl);
    vc_assert(r, "add reports the insertion");
    if (m.mNbEntries == n) {
        vc_assert(present, "nothing is added only if the key was present");
        ENSURE("the key now has the new value", vc_exists(0, A0, [&](uint64_t j) { return gU[j] != 0 && m.mEntries[j].first.v == gKey.v && m.mEntries[j].second.v == v.v; }));
        ENSURE("the other elements are unchanged", vc_forall(0, A0, [&](uint64_t i) { return !(gU[i] != 0) || (K(&m, i) == ((PairT*)gEnt)[i].first.v && (K(&m, i) == gKey.v || m.mEntries[i].second.v == ((PairT*)gEnt)[i].second.v)); }));
    }
    else {
        vc_assert(m.size() == n + 1 && !present, "one element is added if the key was absent");
        checkAdded(m, free0, A0);
        vc_assert(m.mEntries[free0].second.v == v.v, "the new key has its value");
    }
}
HARNESS(set_add, "stubs=stub_ispow2,stub_nextpow2;invs=find_set") {
    VcRaw<SetT> raw; anyTable<SetT>(raw, setInsert); SetT& m = raw.r(); gS = &m;
    gKey = anyKey("key");
    uint64_t n = m.size(), A0 = m.mNbAllocatedEntries, free0 = m.mFreeIndex;
    vc_assume(free0 != NONE);
    bool present = vc_exists(0, A0, [&](uint64_t j) { return gU[j] != 0 && K(&m, j) == gKey.v; });
    bool r = m.add(gKey);
    vc_assert(r == !present, "add reports whether the value was absent");
    vc_assert(m.size() == n + (present ? 0 : 1), "one element is added if the value was absent");
    if (!present) checkAdded(m, free0, A0);
    else { vc_assert(m.mFreeIndex == free0, "nothing changes if the value was present"); checkSame(m, A0, NONE); }
}
// ------------------------------------------------------------------ growth
static uint64_t gH0, gA0, gN0, gFree0, gCap;
template <class T, class D> inline bool rehashed(D done) {
    uint64_t* nb = gNewB; uint64_t* nn = gNewN; typename TT<T>::E* ne = (typename TT<T>::E*)gNewE;
    auto lt = [&](uint64_t i, uint64_t j) { uint64_t bi = bkt(KS<T>(i), gH0), bj = bkt(KS<T>(j), gH0); return bi < bj || (bi == bj && gIdx[i] < gIdx[j]); };
    uint64_t C = gCap;
    bool r = vc_forall(0, C, [&](uint64_t b) { return nb[b] == NONE || (nb[b] < gA0 && done(nb[b]) && bkt(KS<T>(nb[b]), C) == b); });
    r = r && vc_forall(0, gA0, [&](uint64_t i) { return !done(i) || (nb[bkt(KS<T>(i), C)] != NONE && !lt(nb[bkt(KS<T>(i), C)], i)); });
    r = r && vc_forall(0, gA0, [&](uint64_t i) { return !done(i) || nn[i] == NONE || (nn[i] < gA0 && done(nn[i]) && bkt(KS<T>(nn[i]), C) == bkt(KS<T>(i), C) && lt(nn[i], i)); });
    r = r && vc_forall(0, gA0, [&](uint64_t i) { return vc_forall(0, gA0, [&](uint64_t j) { return !(done(i) && done(j) && bkt(KS<T>(i), C) == bkt(KS<T>(j), C) && lt(j, i)) || (nn[i] != NONE && !lt(nn[i], j)); }); });
    r = r && vc_forall(0, gA0, [&](uint64_t i) { return !done(i) || sameE(ne, i, gEnt, i); });
    r = r && vc_forall(0, gA0, [&](uint64_t i) { return gU[i] != 0 || nn[i] == gNxt[i]; });
    return r;
}
template <class T> inline bool outerInv(uint64_t I) {
    return rehashed<T>([&](uint64_t j) { return gU[j] != 0 && bkt(KS<T>(j), gH0) < I; });
}
template <class T> inline bool innerInv(uint64_t c, uint64_t I) {
    if (!(I < gH0)) return false;
    if (c != NONE) { if (!(c < gA0)) return false; if (!(gU[c] != 0 && bkt(KS<T>(c), gH0) == I)) return false; }
    return rehashed<T>([&](uint64_t j) { return gU[j] != 0 && (bkt(KS<T>(j), gH0) < I || (bkt(KS<T>(j), gH0) == I && (c == NONE || gIdx[j] < gIdx[c]))); });
}
template <class T> inline bool freeInv(uint64_t i) {
    return rehashed<T>([&](uint64_t j) { return gU[j] != 0; }) && vc_forall(gA0, i, [&](uint64_t j) { return gNewN[j] == j + 1; });
}
INV bool init_inv(uint64_t i) { return vc_forall(0, i, [&](uint64_t b) { return gNewB[b] == NONE; }); }
INV bool outer_map(uint64_t I) { return outerInv<MapT>(I); }
INV bool outer_set(uint64_t I) { return outerInv<SetT>(I); }
INV bool inner_map(uint64_t c, uint64_t I) { return innerInv<MapT>(c, I); }
INV bool inner_set(uint64_t c, uint64_t I) { return innerInv<SetT>(c, I); }
INV bool free_map(uint64_t i) { return freeInv<MapT>(i); }
INV bool free_set(uint64_t i) { return freeInv<SetT>(i); }
template <class T> inline void reserveContract(T& m) {
    gH0 = m.mHashSize; gA0 = m.mNbAllocatedEntries; gN0 = m.mNbEntries; gFree0 = m.mFreeIndex;
    uint64_t want = vc_any_u64("want");
    if (vc_native()) want %= 200;
    vc_assume(want <= MAXN);
    uint64_t* b0 = m.mBuckets; uint64_t* n0 = m.mNextEntries; void* e0 = m.mEntries;
    gAllocs = 0;
    // the capacity reserve() settles on: the next power of two, at least 16
    gCap = want < 16 ? 16 : want; if (!pow2(gCap)) gCap = nextpow2(gCap);
    m.reserve(want);
    vc_assert(m.mHashSize >= want && m.mHashSize >= gH0, "reserve provides the requested capacity");
    vc_assert(m.size() == gN0, "reserve keeps the size");
    uint64_t A1 = m.mNbAllocatedEntries, n = gN0, A0 = gA0;
    if (m.mHashSize != gH0) {
        checkWf(m, [&](uint64_t i) { return i < A0 && gU[i] != 0; },
           [&](uint64_t i, uint64_t j) { uint64_t bi = bkt(KS<T>(i), gH0), bj = bkt(KS<T>(j), gH0); return bi < bj || (bi == bj && gIdx[i] < gIdx[j]); },
           [&](uint64_t i) { return i < A0 ? gF[i] : A1 - 1 - i + (A0 - n); });
        if (b0) vc_assert(vc_is_released(b0) && vc_is_released(n0) && vc_is_released(e0), "the previous memory is given back");
        vc_assert(m.mFreeIndex != NONE, "there is room after growing");
    }
    else vc_assert(m.mBuckets == b0 && m.mNextEntries == n0 && (void*)m.mEntries == e0 && m.mFreeIndex == gFree0, "nothing changes when the capacity suffices");
    checkSame(m, A0, NONE);
}
HARNESS(map_reserve, "stubs=stub_ispow2,stub_nextpow2;invs=init_inv,outer_map,inner_map,free_map;cost=9") {
    VcRaw<MapT> raw; anyTable<MapT>(raw, mapInsert); gM = &raw.r(); reserveContract(raw.r());
}
HARNESS(set_reserve, "stubs=stub_ispow2,stub_nextpow2;invs=init_inv,outer_set,inner_set,free_set;cost=9") {
    VcRaw<SetT> raw; anyTable<SetT>(raw, setInsert); gS = &raw.r(); reserveContract(raw.r());
}
// ------------------------------------------------------------------ removal
template <class T> inline bool removeInv(T* m, uint64_t last, uint64_t i) {
    uint64_t b = gKey.bucketIn(m->mHashSize);
    if (!findInv(m, i)) return false;
    if (last == NONE) return i == m->mBuckets[b];
    if (!(last < m->mNbAllocatedEntries)) return false;
    return gU[last] != 0 && B(m, last) == b && m->mNextEntries[last] == i;
}
INV bool remove_map(uint64_t last, uint64_t i) { return removeInv(gM, last, i); }
INV bool remove_set(uint64_t last, uint64_t i) { return removeInv(gS, last, i); }
// scanning for the next non-empty bucket
template <class T> inline bool scanInv(T* m, uint64_t b) { return vc_forall(gB0 + 1, b, [&](uint64_t x) { return m->mBuckets[x] == NONE; }); }
INV bool scan_map(uint64_t b) { return scanInv(gM, b); }
INV bool scan_set(uint64_t b) { return scanInv(gS, b); }
// the iterator denotes the first element in (bucket, chain) order after position (b, idx), or the end
template <class T> inline void checkNext(T& m, typename T::Iterator it, uint64_t b, uint64_t idx, uint64_t skip) {
    uint64_t A = m.mNbAllocatedEntries, c = it.mCurrentEntryIndex;
    if (it == m.end()) ENSURE("the end is reached only after the last element", vc_forall(0, A, [&](uint64_t j) { return !(gU[j] != 0) || j == skip || BS<T>(j) < b || (BS<T>(j) == b && gIdx[j] <= idx); }));
    else {
        vc_assert(c < A && gU[c] != 0 && c != skip, "the iterator denotes an element");
        uint64_t cb = BS<T>(c);
        vc_assert(it.mCurrentBucketIndex == cb, "the iterator knows the bucket of its entry");
        vc_assert(cb > b || (cb == b && gIdx[c] > idx), "the iterator moves forward");
        ENSURE("the iterator skips no element", vc_forall(0, A, [&](uint64_t j) { return !(gU[j] != 0) || j == skip || BS<T>(j) < b || (BS<T>(j) == b && gIdx[j] <= idx) || cb < BS<T>(j) || (cb == BS<T>(j) && gIdx[c] <= gIdx[j]); }));
    }
}
template <class T> inline void removeContract(T& m, bool byIterator) {
    uint64_t n = m.size(), A = m.mNbAllocatedEntries, H = m.mHashSize;
    uint64_t k = vc_any_u64("k");
    if (vc_native() && A) k %= A;
    bool present = vc_any_bool("present");
    if (present) { vc_assume(k < A); vc_assume(gU[k] != 0); gKey.v = K(&m, k); }
    else { vc_assume(!byIterator); ASSUME(vc_forall(0, A, [&](uint64_t j) { return !(gU[j] != 0) || K(&m, j) != gKey.v; })); }
    gB0 = H ? gKey.bucketIn(H) : 0;
    uint64_t F0 = A - n;
    typename T::Iterator it = byIterator ? m.remove(typename T::Iterator(&m, gB0, k)) : m.remove(gKey);
    vc_assert(m.mHashSize == H && m.mNbAllocatedEntries == A, "the capacity is unchanged");
    if (present) {
        vc_assert(m.size() == n - 1, "removal removes one element");
        checkWf(m, [&](uint64_t i) { return i != k && gU[i] != 0; }, [&](uint64_t i, uint64_t j) { return gIdx[i] > gIdx[j]; }, [&](uint64_t i) { return i == k ? F0 : gF[i]; });
        checkNext(m, it, gB0, gIdx[k], k);
    }
    else {
        vc_assert(m.size() == n && it == m.end(), "removing an absent key changes nothing");
        checkWf(m, [&](uint64_t i) { return gU[i] != 0; }, [&](uint64_t i, uint64_t j) { return gIdx[i] > gIdx[j]; }, [&](uint64_t i) { return gF[i]; });
    }
    checkSame(m, A, present ? k : NONE);
}
HARNESS(map_remove, "stubs=stub_ispow2,stub_nextpow2;invs=remove_map,scan_map;cost=5") {
    VcRaw<MapT> raw; anyTable<MapT>(raw, mapInsert); gM = &raw.r(); gKey = anyKey("key"); removeContract(raw.r(), false);
}
HARNESS(set_remove, "stubs=stub_ispow2,stub_nextpow2;invs=remove_set,scan_set;cost=5") {
    VcRaw<SetT> raw; anyTable<SetT>(raw, setInsert); gS = &raw.r(); gKey = anyKey("key"); removeContract(raw.r(), false);
}
// ------------------------------------------------------------------ iteration
template <class T> inline bool beginInv(T* m, uint64_t b) { return vc_forall(0, b, [&](uint64_t x) { return m->mBuckets[x] == NONE; }); }
INV bool begin_map(uint64_t b) { return beginInv(gM, b); }
INV bool begin_set(uint64_t b) { return beginInv(gS, b); }
static MapT::Iterator* gItM; static SetT::Iterator* gItS;
INV bool adv_map() { return gItM->mCurrentEntryIndex == 0 && gItM->mCurrentBucketIndex > gB0 && gItM->mCurrentBucketIndex <= gM->mHashSize && gItM->mMap == gM && scanInv(gM, gItM->mCurrentBucketIndex); }
INV bool adv_set() { return gItS->mCurrentEntryIndex == 0 && gItS->mCurrentBucketIndex > gB0 && gItS->mCurrentBucketIndex <= gS->mHashSize && gItS->mSet == gS && scanInv(gS, gItS->mCurrentBucketIndex); }
template <class T> inline void beginContract(T& m) {
    uint64_t A = m.mNbAllocatedEntries;
    if (m.size() > 0) ASSUME(vc_exists(0, A, [&](uint64_t j) { return gU[j] != 0; }));
    else ASSUME(vc_forall(0, A, [&](uint64_t j) { return gU[j] == 0; }));
    typename T::Iterator it = m.begin();
    uint64_t c = it.mCurrentEntryIndex;
    if (it == m.end()) vc_assert(m.size() == 0, "begin is the end only for an empty table");
    else {
        vc_assert(c < A && gU[c] != 0, "begin denotes an element");
        uint64_t cb = BS<T>(c);
        vc_assert(it.mCurrentBucketIndex == cb, "begin knows the bucket of its entry");
        ENSURE("begin skips no element", vc_forall(0, A, [&](uint64_t j) { return !(gU[j] != 0) || cb < BS<T>(j) || (cb == BS<T>(j) && gIdx[c] <= gIdx[j]); }));
    }
}
HARNESS(map_begin, "stubs=stub_ispow2,stub_nextpow2;invs=begin_map") { VcRaw<MapT> raw; anyTable<MapT>(raw, mapInsert); gM = &raw.r(); beginContract(raw.r()); }
HARNESS(set_begin, "stubs=stub_ispow2,stub_nextpow2;invs=begin_set") { VcRaw<SetT> raw; anyTable<SetT>(raw, setInsert); gS = &raw.r(); beginContract(raw.r()); }
template <class T> inline void advanceContract(T& m, typename T::Iterator*& g) {
    uint64_t A = m.mNbAllocatedEntries, k = vc_any_u64("k");
    if (vc_native() && A) k %= A;
    vc_assume(k < A); vc_assume(gU[k] != 0);
    gB0 = BS<T>(k);
    typename T::Iterator it(&m, gB0, k);
    g = &it;
    ++it;
    checkNext(m, it, gB0, gIdx[k], NONE);
}
HARNESS(map_advance, "stubs=stub_ispow2,stub_nextpow2;invs=adv_map") { VcRaw<MapT> raw; anyTable<MapT>(raw, mapInsert); gM = &raw.r(); advanceContract(raw.r(), gItM); }
HARNESS(set_advance, "stubs=stub_ispow2,stub_nextpow2;invs=adv_set") { VcRaw<SetT> raw; anyTable<SetT>(raw, setInsert); gS = &raw.r(); advanceContract(raw.r(), gItS); }
// ------------------------------------------------------------------ copies
template <class T> inline bool copyInv(uint64_t I, uint64_t c, bool inner) {
    typename TT<T>::E* ne = (typename TT<T>::E*)gNewE;
    if (inner) { if (!(I < gH0)) return false; if (c != NONE) { if (!(c < gA0)) return false; if (!(gU[c] != 0 && BS<T>(c) == I)) return false; } }
    return vc_forall(0, gA0, [&](uint64_t j) { return !(gU[j] != 0 && (BS<T>(j) < I || (inner && BS<T>(j) == I && (c == NONE || gIdx[j] < gIdx[c])))) || sameE(ne, j, gEnt, j); });
}
INV bool couter_map(uint64_t I) { return copyInv<MapT>(I, 0, false); }
INV bool couter_set(uint64_t I) { return copyInv<SetT>(I, 0, false); }
INV bool cinner_map(uint64_t c, uint64_t I) { return copyInv<MapT>(I, c, true); }
INV bool cinner_set(uint64_t c, uint64_t I) { return copyInv<SetT>(I, c, true); }
template <class T> inline void checkCopy(T& a, T& m) {
    uint64_t A = m.mNbAllocatedEntries;
    vc_assert(a.size() == m.size() && a.mHashSize == m.mHashSize && a.mNbAllocatedEntries == A, "a copy has the same size");
    checkWf(a, [&](uint64_t i) { return gU[i] != 0; }, [&](uint64_t i, uint64_t j) { return gIdx[i] > gIdx[j]; }, [&](uint64_t i) { return gF[i]; });
    checkSame(a, A, NONE);
    checkSame(m, A, NONE);
    vc_assert(a.mEntries == nullptr || (a.mEntries != m.mEntries && a.mBuckets != m.mBuckets && a.mNextEntries != m.mNextEntries), "a copy does not share memory");
}
template <class T> inline void copyContract(T& m) {
    gH0 = m.mHashSize; gA0 = m.mNbAllocatedEntries;
    gAllocs = 0;
    VcRaw<T> ra; T& a = ra.r();
    new (ra.bytes) T(m);
    checkCopy(a, m);
}
HARNESS(map_copy, "stubs=stub_ispow2,stub_nextpow2;invs=couter_map,cinner_map") { VcRaw<MapT> raw; anyTable<MapT>(raw, mapInsert); gM = &raw.r(); copyContract(raw.r()); }
HARNESS(set_copy, "stubs=stub_ispow2,stub_nextpow2;invs=couter_set,cinner_set") { VcRaw<SetT> raw; anyTable<SetT>(raw, setInsert); gS = &raw.r(); copyContract(raw.r()); }
template <class T> inline void assignContract(T& m) {
    gH0 = m.mHashSize; gA0 = m.mNbAllocatedEntries;
    VcRaw<T> ra; T& a = ra.r();
    new (ra.bytes) T(gAlloc);
    gAllocs = 0;
    a = m;
    checkCopy(a, m);
}
HARNESS(map_assign, "stubs=stub_ispow2,stub_nextpow2;invs=couter_map,cinner_map") { VcRaw<MapT> raw; anyTable<MapT>(raw, mapInsert); gM = &raw.r(); assignContract(raw.r()); }
HARNESS(set_assign, "stubs=stub_ispow2,stub_nextpow2;invs=couter_set,cinner_set") { VcRaw<SetT> raw; anyTable<SetT>(raw, setInsert); gS = &raw.r(); assignContract(raw.r()); }
// ------------------------------------------------------------------ clear
template <class T> inline bool clearInv(T* m, uint64_t I, uint64_t c, bool inner) {
    if (inner) { if (!(I < gH0)) return false; if (c != NONE) { if (!(c < gA0)) return false; if (!(gU[c] != 0 && BS<T>(c) == I)) return false; } }
    uint64_t cnt = !inner ? gCum[I] : (c == NONE ? gCum[I + 1] : gIdx[c]);
    uint64_t base = gA0 - gN0;
    auto gone = [&](uint64_t j) { return gU[j] != 0 && (BS<T>(j) < I || (inner && BS<T>(j) == I && (c == NONE || gIdx[j] < gIdx[c]))); };
    auto fr = [&](uint64_t j) { return gU[j] == 0 || gone(j); };
    auto F = [&](uint64_t j) { return gU[j] == 0 ? gF[j] : base + gIdx[j]; };
    bool r = m->mFreeIndex == NONE ? base + cnt == 0 : (m->mFreeIndex < gA0 && fr(m->mFreeIndex) && F(m->mFreeIndex) + 1 == base + cnt);
    r = r && vc_forall(0, I, [&](uint64_t b) { return m->mBuckets[b] == NONE; });
    r = r && vc_forall(I, gH0, [&](uint64_t b) { return m->mBuckets[b] == gBk[b]; });
    r = r && vc_forall(0, gA0, [&](uint64_t i) { return fr(i) ? (m->mNextEntries[i] == NONE ? F(i) == 0 : (m->mNextEntries[i] < gA0 && fr(m->mNextEntries[i]) && F(m->mNextEntries[i]) + 1 == F(i))) : m->mNextEntries[i] == gNxt[i]; });
    return r;
}
INV bool clouter_map(uint64_t I) { return clearInv(gM, I, 0, false); }
INV bool clouter_set(uint64_t I) { return clearInv(gS, I, 0, false); }
INV bool clinner_map(uint64_t c, uint64_t I) { return clearInv(gM, I, c, true); }
INV bool clinner_set(uint64_t c, uint64_t I) { return clearInv(gS, I, c, true); }
template <class T> inline void clearContract(T& m) {
    gH0 = m.mHashSize; gA0 = m.mNbAllocatedEntries; gN0 = m.mNbEntries;
    uint64_t* b0 = m.mBuckets; uint64_t* n0 = m.mNextEntries; void* e0 = m.mEntries; uint64_t H = gH0, A = gA0, n = gN0;
    bool rel = vc_any_bool("releaseMemory");
    m.clear(rel);
    vc_assert(m.size() == 0, "clear empties the table");
    checkWf(m, [&](uint64_t i) { return false; }, [&](uint64_t i, uint64_t j) { return false; }, [&](uint64_t i) { return gU[i] == 0 ? gF[i] : A - n + gIdx[i]; });
    if (rel) {
        vc_assert(m.mHashSize == 0 && m.mNbAllocatedEntries == 0, "clear(true) leaves no memory");
        if (b0) vc_assert(vc_is_released(b0) && vc_is_released(n0) && vc_is_released(e0), "clear(true) gives the memory back");
    }
    else vc_assert(m.mHashSize == H && m.mNbAllocatedEntries == A && m.mBuckets == b0, "clear keeps the memory");
}
HARNESS(map_clear, "stubs=stub_ispow2,stub_nextpow2;invs=clouter_map,clinner_map;cost=5") { VcRaw<MapT> raw; anyTable<MapT>(raw, mapInsert); gM = &raw.r(); clearContract(raw.r()); }
HARNESS(set_clear, "stubs=stub_ispow2,stub_nextpow2;invs=clouter_set,clinner_set;cost=5") { VcRaw<SetT> raw; anyTable<SetT>(raw, setInsert); gS = &raw.r(); clearContract(raw.r()); }
