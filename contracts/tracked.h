// Element type that records its lifetime: every constructed element is destroyed exactly once, nothing dead is read
#ifndef TRACKED_CONTRACT_H
#define TRACKED_CONTRACT_H
#include "containers.h"
static const uint64_t LIVE = 0x11, DEAD = 0x22;
struct Tracked {
    uint64_t v, live;
    Tracked() : v(0), live(LIVE) {}
    Tracked(const Tracked& o) { vc_assert(o.live == LIVE, "only living elements are copied"); v = o.v; live = LIVE; }
    ~Tracked() { vc_assert(live == LIVE, "only living elements are destroyed"); live = DEAD; }
    Tracked& operator=(const Tracked& o) { vc_assert(live == LIVE && o.live == LIVE, "assignment is between living elements"); v = o.v; return *this; }
    bool operator==(const Tracked& o) const { vc_assert(live == LIVE && o.live == LIVE, "comparison is between living elements"); return v == o.v; }
};
struct RawTracked { uint64_t v, live; };
static RawTracked *gNew, *gCur, *gVals;
static uint64_t gLive0, gLive1, gTF, gTN, gNewFirst, gNewBytes;
struct TrackAllocator : public MemoryAllocator {
    void* allocate(size_t size) override { void* p = vc_alloc(size, "block"); vc_elems(p, sizeof(RawTracked)); RawTracked t; vc_layout_like(p, &t); gNew = (RawTracked*)p; gNewBytes = size; return p; }
    void release(void* p, size_t size) override {
        RawTracked* t = (RawTracked*)p;
        ENSURE("no living element in released memory", vc_forall(gLive0, gLive1, [&](uint64_t i) { return t[i].live == DEAD; }));
        vc_release(p, size);
    }
};
static TrackAllocator tAlloc;
#endif
