// A02: the single-frame allocator hands out aligned, disjoint pieces of its buffer, and passes everything else to its base
//! assume: requested sizes are positive and, like the buffer, below 2^40 bytes; the base allocator returns 16-byte aligned fresh blocks
#include "common.h"
#include <new>
#include "memory/MemoryAllocator.cpp"
#include "memory/SingleFrameAllocator.cpp"
static const uint64_t LIMIT = 1ull << 40;
struct Base : public MemoryAllocator {
    int nAlloc = 0, nRelease = 0; void* lastAlloc = nullptr; uint64_t lastSize = 0, relSize = 0; void* lastRelease = nullptr; bool record = false;
    void* allocate(size_t size) override { nAlloc++; lastSize = size; lastAlloc = vc_alloc(size, "block"); return lastAlloc; }
    void release(void* p, size_t size) override { nRelease++; lastRelease = p; relSize = size; if (!record) vc_release(p, size); }
};
static Base gBase;
typedef SingleFrameAllocator SFA;
inline uint64_t addr(const void* p) { return reinterpret_cast<uint64_t>(p); }
static void anyState(VcRaw<SFA>& raw) {
    SFA* a = new (raw.bytes) SFA(gBase);
    gBase.record = false;
    gBase.release(a->mMemoryBufferStart, a->mTotalSizeBytes);
    uint64_t total = vc_any_u64("total"), off = vc_any_u64("offset");
    if (vc_native()) { total = total % 2000 + 1; off %= total + 1; }
    vc_assume(total >= 1); vc_assume(total < LIMIT); vc_assume(off <= total);
    a->mTotalSizeBytes = total;
    a->mCurrentOffset = off;
    a->mNeedToAllocatedMore = vc_any_bool("need");
    a->mMemoryBufferStart = static_cast<char*>(gBase.allocate(total));
    gBase.nAlloc = 0; gBase.nRelease = 0;
}
static uint64_t anySize(const char* n) { uint64_t s = vc_any_u64(n); if (vc_native()) s = s % 1500 + 1; vc_assume(s >= 1); vc_assume(s < LIMIT); return s; }

HARNESS(frame_construct, "") {
    gBase.nAlloc = 0; gBase.nRelease = 0;
    {
        SFA a(gBase);
        vc_assert(gBase.nAlloc == 1 && gBase.lastAlloc == a.mMemoryBufferStart && gBase.lastSize == a.mTotalSizeBytes && a.mTotalSizeBytes > 0, "one buffer of the recorded size");
        vc_assert(a.mCurrentOffset == 0, "the buffer is empty at first");
        vc_assert(!a.mNeedToAllocatedMore, "a new allocator does not grow");
    }
    vc_assert(gBase.nRelease == 1 && gBase.lastRelease == gBase.lastAlloc, "the buffer is released by the destructor");
}
// an allocation occupies [offset before, offset after) of the buffer: two of them never overlap
HARNESS(frame_allocate, "") {
    VcRaw<SFA> raw; anyState(raw); SFA& a = raw.r();
    uint64_t off = a.mCurrentOffset, total = a.mTotalSizeBytes, size = anySize("size");
    char* start = a.mMemoryBufferStart; bool need = a.mNeedToAllocatedMore;
    void* p = a.allocate(size);
    vc_assert(addr(p) % 16 == 0, "memory is aligned to 16 bytes");
    vc_assert(a.mMemoryBufferStart == start && a.mTotalSizeBytes == total, "the buffer stays");
    vc_assert(gBase.nRelease == 0, "nothing is released by an allocation");
    if (gBase.nAlloc == 0) {
        vc_assert(addr(p) >= addr(start) + off, "memory in use is not handed out again");
        vc_assert(addr(p) + size <= addr(start) + a.mCurrentOffset, "the piece lies within the newly used part");
        vc_assert(a.mCurrentOffset >= off && a.mCurrentOffset <= total, "the used part grows within the buffer");
    } else {
        vc_assert(gBase.nAlloc == 1 && p == gBase.lastAlloc && gBase.lastSize == size, "a request that does not fit goes to the base allocator with its size");
        vc_assert(a.mCurrentOffset == off, "the buffer is unchanged then");
        vc_assert(a.mNeedToAllocatedMore, "and the buffer grows at the next reset");
    }
    vc_assert(a.mNeedToAllocatedMore || !need, "a needed growth is not forgotten");
    // a request well below the free space is served from the buffer
    vc_assert(gBase.nAlloc == 0 || size + 32 > total - off, "a request that fits is served from the buffer");
}
HARNESS(frame_release_own, "") {
    VcRaw<SFA> raw; anyState(raw); SFA& a = raw.r();
    uint64_t size = anySize("size"), d = vc_any_u64("d");
    if (vc_native()) { if (size > a.mTotalSizeBytes) size = a.mTotalSizeBytes; d %= a.mTotalSizeBytes - size + 1; }
    vc_assume(d < LIMIT); vc_assume(d + size <= a.mTotalSizeBytes);
    uint64_t off = a.mCurrentOffset;
    a.release(a.mMemoryBufferStart + d, size);
    vc_assert(gBase.nRelease == 0, "memory of the buffer is not given to the base allocator");
    vc_assert(a.mCurrentOffset == off, "releasing a piece does not move the used part");
}
// a block of the base allocator, anywhere outside the buffer (it may touch the buffer)
HARNESS(frame_release_other, "") {
    VcRaw<SFA> raw; anyState(raw); SFA& a = raw.r();
    uint64_t size = anySize("size");
    char* p = static_cast<char*>(gBase.allocate(size));
    gBase.nAlloc = 0;
    // the allocator sees only addresses: place its buffer anywhere relative to the block
    uint64_t total = a.mTotalSizeBytes;
    gBase.record = true;
    if (vc_native() && vc_any_bool("touching")) { char* both = static_cast<char*>(malloc(total + size)); a.mMemoryBufferStart = both; p = both + total; }
    vc_assume(addr(p) >= addr(a.mMemoryBufferStart) + total || addr(p) + size <= addr(a.mMemoryBufferStart));
    a.release(p, size);
    vc_assert(gBase.nRelease == 1 && gBase.lastRelease == p && gBase.relSize == size, "memory of the base allocator goes back to it, with its size");
}
HARNESS(frame_reset, "") {
    VcRaw<SFA> raw; anyState(raw); SFA& a = raw.r();
    bool need = a.mNeedToAllocatedMore;
    uint64_t total = a.mTotalSizeBytes;
    char* start = a.mMemoryBufferStart;
    a.reset();
    vc_assert(a.mCurrentOffset == 0, "all pieces are given up by a reset");
    vc_assert(!a.mNeedToAllocatedMore, "growth happens once");
    if (need) {
        vc_assert(gBase.nRelease == 1 && gBase.lastRelease == start && gBase.relSize == total, "the old buffer is released with its size");
        vc_assert(gBase.nAlloc == 1 && gBase.lastAlloc == a.mMemoryBufferStart && gBase.lastSize == a.mTotalSizeBytes, "a new buffer of the recorded size");
        vc_assert(a.mTotalSizeBytes > total, "the new buffer is larger");
    } else {
        vc_assert(gBase.nRelease == 0 && gBase.nAlloc == 0 && a.mMemoryBufferStart == start && a.mTotalSizeBytes == total, "the buffer is kept");
    }
}
HARNESS(frame_destroy, "") {
    VcRaw<SFA> raw; anyState(raw); SFA& a = raw.r();
    uint64_t total = a.mTotalSizeBytes; char* start = a.mMemoryBufferStart;
    a.~SFA();
    vc_assert(gBase.nRelease == 1 && gBase.lastRelease == start && gBase.relSize == total, "the buffer is released with its size");
}
// the address arithmetic itself
HARNESS(align_address, "") {
    uint64_t x = vc_any_u64("address");
    vc_assume(x < (1ull << 62));
    ptrdiff_t d = 0;
    void* p = reinterpret_cast<void*>(x);
    uint64_t r = addr(MemoryAllocator::alignAddress(p, 16, d)), q = addr(MemoryAllocator::alignAddress(p, 16));
    vc_assert(r % 16 == 0, "an aligned address");
    vc_assert(r >= x && r <= x + 16, "not before the given one and at most 16 bytes behind");
    vc_assert(d == (ptrdiff_t)(r - x), "and the distance to it");
    vc_assert(q == r, "both forms agree");
}
