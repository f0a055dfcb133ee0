// A01: the pool allocator hands out disjoint aligned units, at least as large as requested, and recycles them
//! assume: a table of blocks does not have the very size of a block when it grows (4096 entries); the base allocator returns 16-byte aligned fresh blocks; a pointer is released with the size it was requested with
#include "containers.h"
#include <new>
#include "memory/MemoryAllocator.cpp"
#include "memory/PoolAllocator.cpp"
typedef PoolAllocator PA;
typedef PA::MemoryUnit Unit;
typedef PA::MemoryBlock Block;
static const uint64_t UNIT = 16, HEAPS = 128, MAXU = HEAPS * UNIT;
inline uint64_t addr(const void* p) { return reinterpret_cast<uint64_t>(p); }
static uint64_t gU;          // size of the units of the heap under test
struct Base : public MemoryAllocator {
    int nAlloc = 0, nRelease = 0, nBlock = 0; void* lastAlloc = nullptr; uint64_t lastSize = 0, relSize = 0; void* lastRelease = nullptr; char* block = nullptr;
    void clear() { nAlloc = nRelease = nBlock = 0; lastAlloc = lastRelease = nullptr; lastSize = relSize = 0; block = nullptr; }
    void* allocate(size_t size) override {
        nAlloc++; lastSize = size;
        if (gU != 0 && size == PA::BLOCK_SIZE) { nBlock++; lastAlloc = vc_alloc(size, "units"); vc_elems(lastAlloc, gU); block = static_cast<char*>(lastAlloc); }
        else lastAlloc = vc_alloc(size, "table");
        return lastAlloc;
    }
    void release(void* p, size_t size) override { nRelease++; lastRelease = p; relSize = size; vc_release(p, size); }
};
static Base gBase;
// ------------------------------------------------------------------ the table of sizes
SPEC bool unitsOk(uint64_t n) { return vc_forall(0, n, [&](uint64_t i) { return PA::mUnitSizes[i] == (i + 1) * UNIT; }); }
SPEC bool mapOk(uint64_t n) { return vc_forall(1, n, [&](uint64_t i) { return PA::mMapSizeToHeapIndex[i] >= 0 && PA::mMapSizeToHeapIndex[i] < (int)HEAPS && i <= PA::mUnitSizes[PA::mMapSizeToHeapIndex[i]]; }); }
HARNESS(pool_table, "longloops") {
    gU = 0; gBase.clear();
    PA::isMapSizeToHeadIndexInitialized = false;
    PA* a = static_cast<PA*>(vc_alloc(sizeof(PA), "pool"));
    new (a) PA(gBase);
    vc_assert(PA::isMapSizeToHeadIndexInitialized, "the table is filled once");
    vc_assert(PA::MAX_UNIT_SIZE == MAXU && PA::BLOCK_SIZE >= MAXU, "sizes");
    bool ok = true, cover = true;
    for (uint64_t i = 0; i < HEAPS; i++) ok = ok && PA::mUnitSizes[i] % UNIT == 0 && PA::mUnitSizes[i] > 0 && PA::mUnitSizes[i] <= PA::BLOCK_SIZE;
    for (uint64_t i = 1; i <= MAXU; i++) cover = cover && PA::mMapSizeToHeapIndex[i] >= 0 && PA::mMapSizeToHeapIndex[i] < (int)HEAPS && PA::mUnitSizes[PA::mMapSizeToHeapIndex[i]] >= i;
    vc_assert(ok, "every unit size is a multiple of 16 that fits a block");
    vc_assert(cover, "every small size has a heap with units at least that large");
    bool empty = true;
    for (uint64_t i = 0; i < HEAPS; i++) empty = empty && a->mFreeMemoryUnits[i] == nullptr;
    vc_assert(empty && a->mNbCurrentMemoryBlocks == 0, "a new pool has no units");
    vc_assert(gBase.nAlloc == 1 && gBase.lastAlloc == a->mMemoryBlocks && gBase.lastSize == a->mNbAllocatedMemoryBlocks * sizeof(Block), "a new pool owns its block table");
    a->~PA();
    vc_assert(gBase.nRelease == 1, "and gives it back");
    vc_release(a, sizeof(PA));
}
// ------------------------------------------------------------------ an arbitrary pool
static uint64_t gSize; static int gHeap; static uint64_t gNb;
// contents of the pool: any number of blocks, any free lists; heap number gHeap serves the request of gSize bytes
static void anyPool(VcRaw<PA>& raw, int firstHeap = 0, int lastHeap = HEAPS - 1) {
    gU = 0; gBase.clear();
    if (!vc_native()) PA::isMapSizeToHeadIndexInitialized = true;
    PA* a = new (raw.bytes) PA(gBase);
    gBase.release(a->mMemoryBlocks, a->mNbAllocatedMemoryBlocks * sizeof(Block));
    uint32_t cap = vc_any_u32("capacity"), nb = vc_any_u32("blocks");
    if (vc_native()) { cap = cap % 3 * 64 + 64; nb %= cap + 1; if (vc_any_bool("full")) nb = cap; }
    vc_assume(cap >= 1); vc_assume(cap < (1u << 24)); vc_assume(nb <= cap);
    vc_assume((cap + 64) * sizeof(Block) != PA::BLOCK_SIZE);
    a->mNbAllocatedMemoryBlocks = cap;
    a->mNbCurrentMemoryBlocks = nb; gNb = nb;
    a->mMemoryBlocks = static_cast<Block*>(gBase.allocate(cap * sizeof(Block)));
    vc_elems(a->mMemoryBlocks, sizeof(Block));
    vc_field(a->mMemoryBlocks, 0, "ptr");
    if (vc_native()) for (uint32_t i = 0; i < cap; i++) a->mMemoryBlocks[i].memoryUnits = nullptr;
    gSize = vc_any_u64("size");
    if (vc_native()) gSize = gSize % MAXU + 1;
    vc_assume(gSize >= 1);
    if (vc_native()) { gHeap = PA::mMapSizeToHeapIndex[gSize]; gU = PA::mUnitSizes[gHeap]; }
    else {
        uint64_t pick = vc_any_u64("heap");
        vc_assume(pick >= (uint64_t)firstHeap); vc_assume(pick <= (uint64_t)lastHeap);
        for (gHeap = firstHeap; gHeap < lastHeap; gHeap++) if (vc_split(pick == (uint64_t)gHeap)) break;
        gU = (gHeap + 1) * UNIT;
        vc_assume(gSize <= gU);      // what pool_table proves about the tables
        vc_elems(PA::mMapSizeToHeapIndex, sizeof(int));
        PA::mMapSizeToHeapIndex[gSize] = gHeap;
        PA::mUnitSizes[gHeap] = gU;
        for (int i = 0; i < (int)HEAPS; i++) a->mFreeMemoryUnits[i] = i == gHeap ? nullptr : static_cast<Unit*>(vc_heapptr("list"));
    }
    gBase.clear();
}
static bool othersKept(PA& a, Unit** before) { bool ok = true; for (int i = 0; i < (int)HEAPS; i++) ok = vc_and(ok, i == gHeap || a.mFreeMemoryUnits[i] == before[i]); return ok; }
HARNESS(pool_recycle, "unroll=8;max_paths=20000;cost=5") {
    VcRaw<PA> raw; anyPool(raw); PA& a = raw.r();
    Unit* u = static_cast<Unit*>(vc_alloc(gU, "unit"));
    Unit* next = vc_native() ? nullptr : static_cast<Unit*>(vc_heapptr("next"));
    u->nextUnit = next;
    a.mFreeMemoryUnits[gHeap] = u;
    Unit* before[HEAPS];
    for (int i = 0; i < (int)HEAPS; i++) before[i] = a.mFreeMemoryUnits[i];
    Block* table = a.mMemoryBlocks;
    void* p = a.allocate(gSize);
    vc_assert(p == u, "a free unit of the heap is used first");
    vc_assert(a.mFreeMemoryUnits[gHeap] == next, "and is no longer free");
    vc_assert(othersKept(a, before), "the other lists stay");
    vc_assert(gBase.nAlloc == 0 && gBase.nRelease == 0 && a.mMemoryBlocks == table && a.mNbCurrentMemoryBlocks == gNb, "no new memory is requested");
    // and back again
    a.release(p, gSize);
    vc_assert(a.mFreeMemoryUnits[gHeap] == u && u->nextUnit == next, "a released unit is the first free unit of its heap again");
    vc_assert(othersKept(a, before) && gBase.nRelease == 0 && gBase.nAlloc == 0, "nothing else changes");
}
INV bool link_inv(uint64_t i) {
    return i <= PA::BLOCK_SIZE / gU - 1 && vc_forall(0, i, [&](uint64_t j) { return *reinterpret_cast<char**>(gBase.block + gU * j) == gBase.block + gU * (j + 1); });
}
static void refill(int firstHeap, int lastHeap) {
    VcRaw<PA> raw; anyPool(raw, firstHeap, lastHeap); PA& a = raw.r();
    if (vc_native()) a.mFreeMemoryUnits[gHeap] = nullptr;
    Unit* before[HEAPS];
    for (int i = 0; i < (int)HEAPS; i++) before[i] = a.mFreeMemoryUnits[i];
    Block* table = a.mMemoryBlocks; uint64_t cap = a.mNbAllocatedMemoryBlocks;
    Block* old = vc_snapshot(table);
    char* p = static_cast<char*>(a.allocate(gSize));
    vc_assert(gBase.nBlock == 1 && p == gBase.block, "a new block is requested and its first unit is handed out");
    uint64_t n = PA::BLOCK_SIZE / gU;
    vc_assert(reinterpret_cast<char*>(a.mFreeMemoryUnits[gHeap]) == p + gU, "the second unit is the first free one");
    uint64_t j = vc_any_u64("j");
    if (vc_native()) j = j % (n - 2) + 1;
    vc_assume(j >= 1); vc_assume(j < n - 1);
    vc_assert(*reinterpret_cast<char**>(p + gU * j) == p + gU * (j + 1), "the units of the block follow one another");
    vc_assert(*reinterpret_cast<char**>(p + gU * (n - 1)) == nullptr, "the last unit of the block ends the list");
    vc_assert(n * gU <= PA::BLOCK_SIZE && gU % 16 == 0 && gSize <= gU, "units are aligned, large enough and inside the block");
    vc_assert(othersKept(a, before), "the other lists stay");
    vc_assert(a.mNbCurrentMemoryBlocks == gNb + 1 && a.mNbCurrentMemoryBlocks <= a.mNbAllocatedMemoryBlocks, "one more block is recorded");
    vc_assert(reinterpret_cast<char*>(a.mMemoryBlocks[gNb].memoryUnits) == p, "the new block is recorded");
    ENSURE("the other blocks stay recorded", vc_forall(0, gNb, [&](uint64_t i) { return a.mMemoryBlocks[i].memoryUnits == old[i].memoryUnits; }));
    if (gNb < cap) vc_assert(a.mMemoryBlocks == table && gBase.nRelease == 0 && gBase.nAlloc == 1, "the table of blocks is kept");
    else vc_assert(gBase.nRelease == 1 && gBase.lastRelease == table && gBase.relSize == cap * sizeof(Block) && gBase.nAlloc == 2, "a full table of blocks is replaced and released");
}
#define REFILL(n, a, b) HARNESS(n, "invs=link_inv;unroll=8;max_paths=20000;cost=9") { refill(a, b); }
REFILL(pool_refill_0, 0, 15) REFILL(pool_refill_1, 16, 31) REFILL(pool_refill_2, 32, 47) REFILL(pool_refill_3, 48, 63)
REFILL(pool_refill_4, 64, 79) REFILL(pool_refill_5, 80, 95) REFILL(pool_refill_6, 96, 111) REFILL(pool_refill_7, 112, 127)
HARNESS(pool_large, "") {
    VcRaw<PA> raw;
    gU = 0; gBase.clear();
    if (!vc_native()) PA::isMapSizeToHeadIndexInitialized = true;
    new (raw.bytes) PA(gBase); PA& a = raw.r();
    gBase.clear();
    uint64_t size = vc_any_u64("size");
    if (vc_native()) size = size % 100000 + MAXU + 1;
    vc_assume(size > MAXU); vc_assume(size < (1ull << 40));
    void* p = a.allocate(size);
    vc_assert(gBase.nAlloc == 1 && p == gBase.lastAlloc && gBase.lastSize == size, "a large request goes to the base allocator");
    a.release(p, size);
    vc_assert(gBase.nRelease == 1 && gBase.lastRelease == p && gBase.relSize == size, "a large block goes back to the base allocator");
}
// ------------------------------------------------------------------ destruction
struct Counter : public MemoryAllocator {
    int nGhost = 0, nTable = 0; Unit* ghost = nullptr; void* table = nullptr; uint64_t tableSize = 0; bool sizes = true;
    void* allocate(size_t size) override { return vc_alloc(size, "block"); }
    void release(void* p, size_t size) override {
        if (p == table) { nTable++; sizes = sizes && size == tableSize; }
        else { if (p == ghost) nGhost++; sizes = sizes && size == PA::BLOCK_SIZE; }
    }
};
static Counter gCount; static PA* gPool; static uint64_t gGhost;
INV bool destroy_blocks(uint64_t i) { return i <= gPool->mNbCurrentMemoryBlocks && gCount.nGhost == (i > gGhost ? 1 : 0) && gCount.sizes && gCount.nTable == 0; }
HARNESS(pool_destroy, "invs=destroy_blocks") {
    VcRaw<PA> raw;
    gU = 0; gBase.clear();
    if (!vc_native()) PA::isMapSizeToHeadIndexInitialized = true;
    gCount.table = nullptr; gCount.nGhost = gCount.nTable = 0; gCount.sizes = true;
    PA* a = new (raw.bytes) PA(gCount);
    gPool = a;
    uint32_t cap = vc_any_u32("capacity"), nb = vc_any_u32("blocks");
    if (vc_native()) { cap = cap % 130 + 1; nb %= cap + 1; }
    vc_assume(cap >= 1); vc_assume(cap < (1u << 24)); vc_assume(nb <= cap); vc_assume(nb >= 1);
    a->mNbAllocatedMemoryBlocks = cap; a->mNbCurrentMemoryBlocks = nb;
    a->mMemoryBlocks = static_cast<Block*>(vc_alloc(cap * sizeof(Block), "table"));
    vc_elems(a->mMemoryBlocks, sizeof(Block));
    vc_field(a->mMemoryBlocks, 0, "ptr");
    if (vc_native()) for (uint32_t i = 0; i < cap; i++) a->mMemoryBlocks[i].memoryUnits = reinterpret_cast<Unit*>((uint64_t)(i + 1) << 20);
    gGhost = vc_any_u32("ghost");
    if (vc_native()) gGhost %= nb;
    vc_assume(gGhost < nb);
    Block* t = a->mMemoryBlocks;
    gCount.ghost = t[gGhost].memoryUnits;
    gCount.table = t; gCount.tableSize = cap * sizeof(Block);
    // blocks are different live blocks of the base allocator
    if (!vc_native()) { ASSUME(vc_forall(0, nb, [&](uint64_t i) { return (i == gGhost || addr(t[i].memoryUnits) != addr(gCount.ghost)) && addr(t[i].memoryUnits) != addr(t); })); }
    a->~PA();
    vc_assert(gCount.nGhost == 1, "every block is released once");
    vc_assert(gCount.nTable == 1, "the table of blocks is released once");
    vc_assert(gCount.sizes, "with their sizes");
}
