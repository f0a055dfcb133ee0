// Ghost state and representation invariant of the hash tables
#ifndef TABLES_CONTRACT_H
#define TABLES_CONTRACT_H
#include "containers.h"
static const uint64_t NONE = ~0ull;
struct Key {
    uint64_t v;
    bool operator==(const Key& o) const { return v == o.v; }
    bool operator!=(const Key& o) const { return v != o.v; }
    uint64_t bucketIn(uint64_t H) const;
};
// an arbitrary hash function (natively: one with many collisions)
inline uint64_t hashOf(uint64_t v) { return vc_native() ? (v % 7) * 3 + (v % 2 ? 1ull << 20 : 0) : vc_uf("hash", v, 0); }
namespace std { template <> struct hash<Key> { size_t operator()(const Key& k) const { return hashOf(k.v); } }; }
inline uint64_t bkt(uint64_t v, uint64_t H) { return hashOf(v) & (H - 1); }
inline uint64_t Key::bucketIn(uint64_t H) const { return bkt(v, H); }
struct SKey : public Key { };
typedef Map<Key, Item> MapT;
typedef Set<Key> SetT;
typedef Pair<Key, Item> PairT;
template <class T> struct TT;
struct RawPair { uint64_t k, v; };
template <> struct TT<MapT> { typedef PairT E; typedef RawPair R; };
template <> struct TT<SetT> { typedef Key E; typedef uint64_t R; };
static uint64_t *gU, *gIdx, *gF, *gCum, *gNxt, *gBk; static void* gEnt;
static MapT* gM; static SetT* gS; static Key gKey;
static uint64_t *gNewB, *gNewN; static void* gNewE; static uint64_t gAllocs;
inline uint64_t EK(const PairT& e) { return e.first.v; }
inline uint64_t EK(const Key& e) { return e.v; }
template <class T> inline uint64_t K(const T* m, uint64_t i) { return EK(m->mEntries[i]); }
template <class T> inline uint64_t KS(uint64_t i) { return EK(((typename TT<T>::E*)gEnt)[i]); }
template <class T> inline uint64_t B(const T* m, uint64_t i) { return bkt(K(m, i), m->mHashSize); }
static uint64_t gHS;
template <class T> inline uint64_t BS(uint64_t i) { return bkt(KS<T>(i), gHS); }
inline bool sameE(const PairT* a, uint64_t i, void* b, uint64_t j) { const PairT* o = (const PairT*)b; return a[i].first.v == o[j].first.v && a[i].second.v == o[j].second.v; }
inline bool sameE(const Key* a, uint64_t i, void* b, uint64_t j) { return a[i].v == ((const Key*)b)[j].v; }
template <class T> inline bool sameEntry(const T* m, uint64_t i, void* b, uint64_t j) { return sameE(m->mEntries, i, b, j); }
// powers of two: contract of the helpers
inline bool pow2(uint64_t n) { return vc_native() ? n != 0 && (n & (n - 1)) == 0 : vc_ufb("pow2", n, 0); }
inline uint64_t nextpow2(uint64_t n) { if (vc_native()) { uint64_t p = 1; while (p < n) p *= 2; return p; } return vc_uf("nextpow2", n, 0); }
STUB("^reactphysics3d::isPowerOfTwo") bool stub_ispow2(uint64 n) { return pow2(n); }
STUB("^reactphysics3d::nextPowerOfTwo64Bits") uint64 stub_nextpow2(uint64 n) { uint64_t r = nextpow2(n); vc_assume(r >= n && r < 2 * n && pow2(r)); return r; }
inline Key anyKey(const char* n) { Key k; k.v = vc_any_u64(n); if (vc_native()) k.v %= 40; return k; }
static bool gPairs;
struct TableAllocator : public MemoryAllocator {
    void* allocate(size_t size) override {
        void* p = vc_alloc(size, "block");
        if (gPairs && gAllocs == 1) { RawPair t; vc_elems(p, sizeof t); vc_layout_like(p, &t); }
        else { uint64_t t; vc_elems(p, 8); vc_layout_like(p, &t); }
        uint64_t n = gAllocs++;
        if (n == 0) gNewB = (uint64_t*)p; else if (n == 1) gNewE = p; else gNewN = (uint64_t*)p;
        return p;
    }
    void release(void* p, size_t size) override { vc_release(p, size); }
};
static TableAllocator gAlloc;
static void mapInsert(MapT& m, Key k, bool rem) { if (rem) m.remove(k); else m.add(PairT(k, Item{k.v * 3 + 1}), true); }
static void setInsert(SetT& m, Key k, bool rem) { if (rem) m.remove(k); else m.add(k); }

template <class T, class U_, class L, class F_> inline bool wfTable(const T* m, U_ U, L lt, F_ F) {
    uint64_t H = m->mHashSize, A = m->mNbAllocatedEntries, n = m->mNbEntries, fr = m->mFreeIndex;
    const uint64_t *bk = m->mBuckets, *nx = m->mNextEntries;
    bool r = (H == 0) == (A == 0) && n <= A;
    r = r && (fr == NONE ? n == A : (fr < A && !U(fr) && F(fr) + 1 == A - n));
    if (H == 0) return r;
    r = r && pow2(H) && H >= 16;
    r = r && vc_forall(0, H, [&](uint64_t b) { return bk[b] == NONE || (bk[b] < A && U(bk[b]) && B(m, bk[b]) == b); });
    r = r && vc_forall(0, A, [&](uint64_t i) { return !U(i) || (bk[B(m, i)] != NONE && !lt(bk[B(m, i)], i)); });
    r = r && vc_forall(0, A, [&](uint64_t i) { return !U(i) || nx[i] == NONE || (nx[i] < A && U(nx[i]) && B(m, nx[i]) == B(m, i) && lt(nx[i], i)); });
    r = r && vc_forall(0, A, [&](uint64_t i) { return vc_forall(0, A, [&](uint64_t j) { return !(U(i) && U(j) && B(m, i) == B(m, j) && lt(j, i)) || (nx[i] != NONE && !lt(nx[i], j)); }); });
    r = r && vc_forall(0, A, [&](uint64_t i) { return U(i) || (nx[i] == NONE ? F(i) == 0 : (nx[i] < A && !U(nx[i]) && F(nx[i]) + 1 == F(i))); });
    return r;
}
template <class T, class U_> inline bool keysDiffer(const T* m, U_ U) {
    uint64_t A = m->mNbAllocatedEntries;
    return vc_forall(0, A, [&](uint64_t i) { return vc_forall(0, A, [&](uint64_t j) { return i == j || !(U(i) && U(j)) || K(m, i) != K(m, j); }); });
}
template <class T, class U_, class L, class F_> inline void checkWf(T& m, U_ U, L lt, F_ F) {
    ENSURE("the table is well formed", wfTable(&m, U, lt, F));
    if (m.mHashSize) ENSURE("keys are distinct", keysDiffer(&m, U));
}
// an arbitrary well formed table with its ghost state: in use, position in the enumeration (bucket by bucket, along each chain), position in the free list
template <class T> inline void anyTable(VcRaw<T>& raw, void (*ins)(T&, Key, bool)) {
    typedef typename TT<T>::E E;
    gPairs = sizeof(E) != 8;
    T* m = new (raw.bytes) T(gAlloc);
    if (vc_native()) {
        uint64_t ops = vc_any_u64("ops") % 60;
        if (vc_any_bool("many")) ops *= 4;
        for (uint64_t k = 0; k < ops; k++) { Key key = anyKey("opkey"); ins(*m, key, m->mHashSize > 0 && vc_any_bool("oprem")); }
        uint64_t A = m->mNbAllocatedEntries, H = m->mHashSize;
        gU = vc_array<uint64_t>(A + 1, "U"); gIdx = vc_array<uint64_t>(A + 1, "idx"); gF = vc_array<uint64_t>(A + 1, "F"); gCum = vc_array<uint64_t>(H + 2, "cum");
        for (uint64_t i = 0; i <= A; i++) gU[i] = gIdx[i] = gF[i] = 0;
        uint64_t c = 0;
        for (uint64_t b = 0; b < H; b++) { gCum[b] = c; for (uint64_t i = m->mBuckets[b]; i != NONE && c <= A; i = m->mNextEntries[i]) { gU[i] = 1; gIdx[i] = c++; } }
        gCum[H] = c;
        uint64_t f = A - m->mNbEntries;
        for (uint64_t i = m->mFreeIndex; i != NONE && f > 0; i = m->mNextEntries[i]) gF[i] = --f;
    }
    else {
        uint64_t H = vc_any_u64("hashSize"), A = vc_any_u64("allocated"), n = vc_any_u64("entries"), fr = vc_any_u64("free");
        vc_assume(H <= MAXN); vc_assume(A <= MAXN); vc_assume(n <= A);
        vc_assume((H == 0) == (A == 0));
        if (H > 0) { vc_assume(H >= 16); vc_assume(A >= 16); vc_assume(A <= H); vc_assume(A % 16 == 0); vc_assume(4 * A >= 3 * H); vc_assume(4 * A < 3 * H + 64); }
        gU = vc_array<uint64_t>(A + 1, "U"); gIdx = vc_array<uint64_t>(A + 1, "idx"); gF = vc_array<uint64_t>(A + 1, "F"); gCum = vc_array<uint64_t>(H + 1, "cum");
        if (H > 0) {
            m->mBuckets = anyBlock<uint64_t>(H, "buckets"); m->mNextEntries = anyBlock<uint64_t>(A, "next"); m->mEntries = (E*)anyBlock<typename TT<T>::R>(A, "entries");
        }
        m->mHashSize = H; m->mNbAllocatedEntries = A; m->mNbEntries = n; m->mFreeIndex = fr;
        auto U = [&](uint64_t i) { return gU[i] != 0; };
        ASSUME(wfTable(m, U, [&](uint64_t i, uint64_t j) { return gIdx[i] > gIdx[j]; }, [&](uint64_t i) { return gF[i]; }));
        if (H > 0) {
            ASSUME(keysDiffer(m, U));
            // the enumeration runs through the buckets in order and along each chain
            ASSUME(gCum[0] == 0 && gCum[H] == n);
            ASSUME(vc_forall(0, H, [&](uint64_t b) { return m->mBuckets[b] == NONE ? gCum[b + 1] == gCum[b] : gIdx[m->mBuckets[b]] == gCum[b]; }));
            ASSUME(vc_forall(0, A, [&](uint64_t i) { return !U(i) || (gIdx[i] < n && (m->mNextEntries[i] == NONE ? gCum[B(m, i) + 1] == gIdx[i] + 1 : gIdx[m->mNextEntries[i]] == gIdx[i] + 1)); }));
            ASSUME(vc_forall(0, A, [&](uint64_t i) { return vc_forall(0, A, [&](uint64_t j) { return i == j || !(U(i) && U(j)) || gIdx[i] != gIdx[j]; }); }));
        }
        else vc_assume(fr == NONE);
    }
    gHS = m->mHashSize;
    if (m->mHashSize) { gEnt = vc_snapshot(m->mEntries); gNxt = vc_snapshot(m->mNextEntries); gBk = vc_snapshot(m->mBuckets); }
    else { gEnt = anyBlock<typename TT<T>::R>(1, "none"); gNxt = anyBlock<uint64_t>(1, "none2"); gBk = anyBlock<uint64_t>(1, "none3"); }
}
#endif
