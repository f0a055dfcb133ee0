// Shared vocabulary for the container contracts
#ifndef CONTAINERS_CONTRACT_H
#define CONTAINERS_CONTRACT_H
#include "common.h"
#include <cstring>
#include <reactphysics3d/containers/Array.h>
#include <reactphysics3d/containers/Deque.h>
#include <reactphysics3d/containers/Stack.h>
#include <reactphysics3d/containers/LinkedList.h>
#include <reactphysics3d/containers/Map.h>
#include <reactphysics3d/containers/Set.h>
using namespace reactphysics3d;
static const uint64_t MAXN = 1ull << 40;   // no container holds more elements than this (address-space limit)

// element type with an observable value
struct Item {
    uint64_t v;
    bool operator==(const Item& o) const { return v == o.v; }
    bool operator!=(const Item& o) const { return v != o.v; }
};
// an arbitrary block of elements
template <class T> inline T* anyBlock(uint64_t count, const char* n) {
    if (count == 0) return nullptr;
    void* p = vc_alloc(count * sizeof(T), n);
    T t;
    vc_elems(p, sizeof(T));
    vc_layout_like(p, &t);
    if (vc_native()) { uint64_t seed = vc_any_u32("fill"); for (uint64_t i = 0; i < count * sizeof(T) / 8; i++) { uint64_t v = (i * 7 + seed * 13 + (i * i) % 5) % 11; memcpy((char*)p + 8 * i, &v, 8); } }
    return static_cast<T*>(p);
}
// allocator whose blocks hold elements of one type
template <class T> struct TypedAllocator : public MemoryAllocator {
    void* allocate(size_t size) override { void* p = vc_alloc(size, "block"); T t; vc_elems(p, sizeof(T)); vc_layout_like(p, &t); return p; }
    void release(void* p, size_t size) override { vc_release(p, size); }
};
#endif
