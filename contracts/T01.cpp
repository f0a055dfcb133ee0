// T01: the queries of the tree of bounding boxes miss nothing and report nothing twice; its boxes, rotations and free nodes are right
//! assume: a tree is less than 30000 levels high
//! assume: induction over the height of the tree: facts about a node and its children, proved for an arbitrary node, hold along every path from the root
//! assume: insertLeafNode and removeLeafNode link the object into the tree and repair the nodes above it (not proved; tried natively on random histories only when an obligation fails)
//! assume: Stack and Array have the contracts of properties C01 and C02; the box tests those of B01
#include "containers.h"
#include <reactphysics3d/reactphysics3d.h>
#include <map>
#include <set>
#include <vector>
#include "mathematics/Vector2.cpp"
#include "mathematics/Vector3.cpp"
#include "mathematics/Quaternion.cpp"
#include "mathematics/Matrix2x2.cpp"
#include "mathematics/Matrix3x3.cpp"
#include "mathematics/Transform.cpp"
#include "memory/MemoryAllocator.cpp"
#include "collision/shapes/AABB.cpp"
#include "collision/broadphase/DynamicAABBTree.cpp"
Logger* PhysicsCommon::mLogger = nullptr;
typedef DynamicAABBTree Tree;
static const int32 NIL = -1;
static AABB anyBox(const char* n) {
    Vector3 a = anyVec(n), b = anyVec(n);
    if (vc_native()) { b = Vector3(std::abs(b.x), std::abs(b.y), std::abs(b.z)) * 0.25; b = a + b; }
    vc_assume(a.x <= b.x); vc_assume(a.y <= b.y); vc_assume(a.z <= b.z);
    return AABB(a, b);
}
static bool within(const AABB& in, const AABB& out, double eps = 0) {
    const Vector3 &a = in.mMinCoordinates, &b = in.mMaxCoordinates, &c = out.mMinCoordinates, &d = out.mMaxCoordinates;
    return vc_and(vc_and(vc_and(c.x - eps <= a.x, c.y - eps <= a.y), vc_and(c.z - eps <= a.z, b.x <= d.x + eps)), vc_and(b.y <= d.y + eps, b.z <= d.z + eps));
}
static bool meet(const AABB& p, const AABB& q) {
    const Vector3 &a = p.mMinCoordinates, &b = p.mMaxCoordinates, &c = q.mMinCoordinates, &d = q.mMaxCoordinates;
    return vc_and(vc_and(vc_and(a.x <= d.x, a.y <= d.y), vc_and(a.z <= d.z, c.x <= b.x)), vc_and(c.y <= b.y, c.z <= b.z));
}
static bool sameBox(const AABB& p, const AABB& q) {
    const Vector3 &a = p.mMinCoordinates, &b = p.mMaxCoordinates, &c = q.mMinCoordinates, &d = q.mMaxCoordinates;
    return vc_and(vc_and(vc_and(a.x == c.x, a.y == c.y), vc_and(a.z == c.z, b.x == d.x)), vc_and(b.y == d.y, b.z == d.z));
}
static double lo(double a, double b) { return b < a ? b : a; }
static double hi(double a, double b) { return a < b ? b : a; }
static bool unionOf(const AABB& u, const AABB& p, const AABB& q) {
    const Vector3 &a = p.mMinCoordinates, &b = p.mMaxCoordinates, &c = q.mMinCoordinates, &d = q.mMaxCoordinates, &e = u.mMinCoordinates, &f = u.mMaxCoordinates;
    return vc_and(vc_and(vc_and(e.x == lo(a.x, c.x), e.y == lo(a.y, c.y)), vc_and(e.z == lo(a.z, c.z), f.x == hi(b.x, d.x))), vc_and(f.y == hi(b.y, d.y), f.z == hi(b.z, d.z)));
}
// ---- natively: a random history against a list of boxes
struct NativeMemory : public MemoryAllocator {
    std::map<void*, size_t> live;
    void* allocate(size_t n) override { void* p = malloc(n ? n : 1); memset(p, 0x55, n); live[p] = n; return p; }
    void release(void* p, size_t n) override { vc_assert(live.count(p) == 1, "only memory in use is released"); vc_assert(live[p] == n, "with its size"); live.erase(p); memset(p, 0x66, n); free(p); }
};
struct Object { AABB box; uint32_t data; };
static int walk(Tree& t, int32 id, int32 parent, std::map<int32, Object>& m, std::set<int32>& seen) {
    vc_assert(id >= 0 && id < t.mNbAllocatedNodes, "the nodes of the tree are in range");
    vc_assert(seen.insert(id).second, "no node is in the tree twice");
    TreeNode& n = t.mNodes[id];
    vc_assert(n.parentID == parent, "the parent of a child is the node");
    if (n.height == 0) {
        vc_assert(m.count(id) == 1, "only objects that were added are in the tree");
        return 0;
    }
    const int32 l = n.children[0], r = n.children[1];
    const int a = walk(t, l, id, m, seen), b = walk(t, r, id, m, seen);
    vc_assert(n.height == 1 + (a > b ? a : b), "the height of a node is one more than that of its higher child");
    vc_assert(unionOf(n.aabb, t.mNodes[l].aabb, t.mNodes[r].aabb), "the box of a node is the union of those of its children");
    return n.height;
}
static double gInflate;
static bool inflated(const AABB& fat, const AABB& b) {
    const Vector3 g = (b.mMaxCoordinates - b.mMinCoordinates) * gInflate * 0.5;
    const Vector3 a = b.mMinCoordinates - g, c = b.mMaxCoordinates + g, d = fat.mMinCoordinates, e = fat.mMaxCoordinates;
    return vc_and(vc_and(vc_and(vc_eq(a.x, d.x), vc_eq(a.y, d.y)), vc_and(vc_eq(a.z, d.z), vc_eq(c.x, e.x))), vc_and(vc_eq(c.y, e.y), vc_eq(c.z, e.z)));
}
static bool enters(const AABB& b, const Ray& r, double maxFraction, bool& sure) {
    double t0 = 0, t1 = maxFraction; sure = true;
    for (int i = 0; i < 3; i++) {
        const double d = r.point2[i] - r.point1[i], a = b.mMinCoordinates[i] - r.point1[i], c = b.mMaxCoordinates[i] - r.point1[i];
        if (std::abs(d) < 1e-3) { sure = false; return false; }
        t0 = hi(t0, lo(a / d, c / d)); t1 = lo(t1, hi(a / d, c / d));
    }
    if (std::abs(t1 - t0) < 1e-9) sure = false;
    return t0 <= t1;
}
struct Nearest : public DynamicAABBTreeRaycastCallback {
    Ray ray; std::map<int32, double> answer; std::set<int32> asked; double limit; bool stopped = false;
    Nearest(const Ray& r) : ray(r), limit(r.maxFraction) {}
    decimal raycastBroadPhaseShape(int32 id, const Ray& r) override {
        vc_assert(!stopped, "after the fraction zero no object is tested");
        vc_assert(asked.insert(id).second, "no object is tested twice");
        vc_assert(answer.count(id) == 1, "only objects are tested");
        vc_assert(r.maxFraction == limit, "the ray is cut at the nearest hit so far");
        vc_assert(r.point1 == ray.point1 && r.point2 == ray.point2, "the ray stays");
        const double f = answer[id];
        if (f == 0) stopped = true;
        if (f > 0 && f < limit) limit = f;
        return f;
    }
};
static void queries(Tree& t, std::map<int32, Object>& m, MemoryAllocator& mem) {
    {
        AABB b = anyBox("query"); Array<int32> out(mem);
        t.reportAllShapesOverlappingWithAABB(b, out);
        std::multiset<int32> got; for (uint64_t i = 0; i < out.size(); i++) got.insert(out[i]);
        for (auto& o : m) vc_assert(got.count(o.first) == (meet(b, t.mNodes[o.first].aabb) ? 1u : 0u), "exactly the objects whose boxes meet the query are reported, once");
        for (int32 id : got) vc_assert(m.count(id) == 1, "only objects are reported");
    }
    {
        Array<int32> ids(mem); Array<Pair<int32, int32>> out(mem);
        for (auto& o : m) if (vc_any_bool("test it")) ids.add(o.first);
        const uint32_t from = ids.size() ? vc_any_u32("from") % (ids.size() + 1) : 0;
        t.reportAllShapesOverlappingWithShapes(ids, from, ids.size(), out);
        std::multiset<std::pair<int32, int32>> got; for (uint64_t i = 0; i < out.size(); i++) got.insert(std::make_pair(out[i].first, out[i].second));
        uint64_t n = 0;
        for (uint64_t i = from; i < ids.size(); i++) for (auto& o : m) { const bool w = meet(t.mNodes[ids[i]].aabb, t.mNodes[o.first].aabb); n += w; vc_assert(got.count(std::make_pair(ids[i], o.first)) == (w ? 1u : 0u), "exactly the pairs whose boxes meet are reported, once"); }
        vc_assert(n == got.size(), "only the objects asked for are reported");
    }
    {
        Vector3 a = anyVec("from"), b = anyVec("to"); Ray r(a, b, 0.1 + (vc_any_u32("range") % 20) * 0.1);
        Nearest c(r);
        for (auto& o : m) { const uint32_t k = vc_any_u32("answer") % 12; c.answer[o.first] = k == 0 ? 0 : k < 6 ? -1 : 0.05 * (1 + vc_any_u32("fraction") % 30); }
        t.raycast(r, c);
        if (!c.stopped) for (auto& o : m) {
            bool sure, in = enters(t.mNodes[o.first].aabb, r, c.limit, sure);
            if (sure && in) vc_assert(c.asked.count(o.first) == 1, "every object whose box the ray enters before the nearest hit is tested");
            in = enters(t.mNodes[o.first].aabb, r, r.maxFraction, sure);
            if (sure && !in) vc_assert(c.asked.count(o.first) == 0, "an object whose box the ray misses is not tested");
        }
    }
}
static void history() {
    NativeMemory mem;
    {
        gInflate = (vc_any_u32("inflate") % 3) * 0.1;
        Tree t(mem, gInflate);
        std::map<int32, Object> m;
        const bool many = vc_any_u32("many") % 4 == 0, line = vc_any_u32("line") % 3 == 0; const uint32_t steps = many ? 150 : 1 + vc_any_u32("steps") % 30;
        if (vc_any_bool("on the empty tree")) queries(t, m, mem);
        for (uint32_t s = 0; s < steps; s++) {
            uint32_t op = vc_any_u32("op") % 4; if (m.empty() || (many && s < 80 && s % 4 != 0)) op = 0;
            AABB box = anyBox("box");
            if (line) { Vector3 d(s * 3.0, 0, 0); box = AABB(Vector3(0, 0, 0) + d, Vector3(1, 1, 1) + d); }
            if (op == 0) {
                const uint32_t data = vc_any_u32("data");
                const int32 id = t.addObject(box, data);
                vc_assert(m.count(id) == 0, "a new object has a node of its own");
                vc_assert(inflated(t.getFatAABB(id), box), "the fat box is the box, inflated");
                m[id] = { t.getFatAABB(id), data };
            }
            else {
                auto it = m.begin(); std::advance(it, vc_any_u32("pick") % m.size()); const int32 id = it->first;
                if (op == 1) { t.removeObject(id); m.erase(id); }
                else {
                    const bool force = vc_any_bool("force"); if (vc_any_bool("small move")) { AABB f = it->second.box; Vector3 c = (f.mMinCoordinates + f.mMaxCoordinates) * 0.5, h = (f.mMaxCoordinates - f.mMinCoordinates) * 0.4; box = AABB(c - h, c + h); }
                    const bool in = within(box, it->second.box), did = t.updateObject(id, box, force);
                    vc_assert(did == (force || !in), "an object is moved in the tree exactly if its box leaves the fat box, or if asked to");
                    if (did) { vc_assert(inflated(t.getFatAABB(id), box), "the fat box is the box, inflated"); it->second.box = t.getFatAABB(id); }
                }
            }
            std::set<int32> seen;
            if (t.mRootNodeID != NIL) walk(t, t.mRootNodeID, NIL, m, seen); 
            for (auto& o : m) {
                vc_assert(seen.count(o.first) == 1, "every object is in the tree");
                vc_assert(sameBox(t.getFatAABB(o.first), o.second.box), "the other objects keep their boxes"); vc_assert((uint32_t)t.getNodeDataInt(o.first) == o.second.data, "an object keeps its data");
            }
            vc_assert((int32)seen.size() == t.mNbNodes, "the number of nodes is right");
            int32 n = 0;
            for (int32 f = t.mFreeNodeID; f != NIL; f = t.mNodes[f].nextNodeID) { vc_assert(f >= 0 && f < t.mNbAllocatedNodes && seen.insert(f).second, "a node is in the tree or free, not both"); vc_assert(t.mNodes[f].height == -1, "a free node is marked"); n++; }
            vc_assert(n + t.mNbNodes == t.mNbAllocatedNodes, "all other nodes are free");
            if (!many || s % 16 == 0) queries(t, m, mem);
        }
        if (vc_any_bool("reset")) { t.reset(); m.clear(); const int32 id = t.addObject(anyBox("box"), 5u); std::set<int32> seen; m[id] = { t.getFatAABB(id), 5 }; walk(t, t.mRootNodeID, NIL, m, seen); vc_assert(t.mNbNodes == 1, "after a reset the tree is empty"); }
    }
    vc_assert(mem.live.empty(), "all memory is released");
}
// ---- the proofs: a tree of any size; every fact about "all nodes" is stated for an arbitrary node
struct NoMemory : public MemoryAllocator { void* allocate(size_t) override { return nullptr; } void release(void*, size_t) override { } };
static NoMemory gNone; static VcRaw<Tree> gTree; static TreeNode* gNodes; static TreeNode* gBefore; static uint64_t gCap;
static Tree& tree() { return gTree.r(); }
static TreeNode* nodes() { return gTree.r().mNodes; }
static TreeNode* anyNodes(uint64_t n) {
    TreeNode* p = vc_array<TreeNode>(n, "nodes"); TreeNode t; vc_layout_like(p, &t);
    vc_field(p, 0, "i32"); vc_field(p, 8, "i32"); vc_field(p, 12, "i32"); vc_field(p, 16, "i16");
    return p;
}
static Tree& anyTree() {
    gCap = vc_any_u64("capacity"); vc_assume(gCap >= 2); vc_assume(gCap < 1ull << 30);
    *(MemoryAllocator**)gTree.bytes = &gNone; Tree& t = gTree.r();
    gNodes = anyNodes(gCap);
    t.mNodes = gNodes; t.mNbAllocatedNodes = (int32)gCap;
    const uint64_t nb = vc_any_u64("nodes"), root = vc_any_u64("root"), freeHead = vc_any_u64("free");
    vc_assume(nb <= gCap); vc_assume(root <= gCap); vc_assume(freeHead <= gCap);
    t.mNbNodes = (int32)nb; t.mRootNodeID = (int32)root - 1; t.mFreeNodeID = (int32)freeHead - 1;
    gInflate = vc_any_real("inflate"); vc_assume(gInflate >= 0); t.mFatAABBInflatePercentage = gInflate;
    return t;
}
static bool inRange(int32 x) { return vc_and(x >= 0, (uint64_t)(int64_t)x < gCap); }
// -- queries.  U is an arbitrary object; on(x): x lies on the path from the root to U
static bool gHasU; static int32 gU; static int32 gAt; static uint64_t gStack, gOn; static uint32_t gRep, gTurn; static bool gRayOver; static double gEnterU, gLimit; static const Ray* gRay; static bool gSeen;
static bool on(int32 x) { return vc_and(gHasU, vc_ufb("on the path to U", (uint64_t)(uint32_t)x, 0)); }
static AABB* gQuery;
static const AABB& boxOf(int32 x) { return nodes()[x].aabb; }
STUB("^reactphysics3d::Stack<int>::Stack\\(reactphysics3d::MemoryAllocator&, ") void stub_stack(void*, MemoryAllocator*, uint64_t) { gStack = 0; gOn = 0; }
STUB("^reactphysics3d::Stack<int>::~Stack\\(") void stub_unstack(void*) { }
STUB("^reactphysics3d::Stack<int>::size\\(") uint64_t stub_stacked(const void*) { return gStack; }
STUB("^reactphysics3d::Stack<int>::clear\\(") void stub_clear(void*) { gStack = 0; gOn = 0; }
STUB("^reactphysics3d::Stack<int>::push\\(") void stub_push(void*, const int32* x) {
    const int32 id = *x;
    if (id != NIL) { vc_assert(inRange(id), "only nodes are visited"); if (vc_split(on(id))) gOn++; }
    gStack++; vc_assume(gStack < 1ull << 40);
}
STUB("^reactphysics3d::Stack<int>::pop\\(") int32 stub_pop(void*) {
    vc_assert(gStack > 0, "a stack that is empty is not read");
    const uint64_t pick = vc_any_u64("visited"); vc_assume(pick <= gCap);
    const int32 x = (int32)pick - 1; gAt = x;
    gStack--;
    if (!gHasU) vc_assume(x == NIL);                  // the tree is empty
    if (x == NIL) { vc_assume(gStack >= gOn); return x; }
    const TreeNode& n = nodes()[x];
    vc_assume(n.height >= 0);
    const bool a = vc_split(on(x));
    if (a) { vc_assume(gOn > 0); gOn--; vc_assume(within(boxOf(gU), n.aabb)); } else vc_assume(gStack >= gOn);
    if (vc_split(n.height > 0)) {
        const int32 l = n.children[0], r = n.children[1];
        vc_assume(inRange(l)); vc_assume(inRange(r)); vc_assume(l != r); vc_assume(x != gU);
        const bool ol = vc_split(on(l)), orr = vc_split(on(r));
        vc_assume(a ? ol != orr : (!ol && !orr));
    }
    else vc_assume(vc_and(a, true) == vc_and(gHasU, x == gU));
    return x;
}
static void anyU(Tree& t) {
    const uint64_t u = vc_any_u64("U"); vc_assume(u < gCap); gU = (int32)u;
    gHasU = vc_split(t.mRootNodeID != NIL);
    if (gHasU) { vc_assume(inRange(t.mRootNodeID)); vc_assume(nodes()[gU].height == 0); vc_assume(on(t.mRootNodeID)); }
    gRep = 0; gStack = 0; gOn = 0; gTurn = 0; gSeen = false; gRayOver = false;
}
STUB("^reactphysics3d::Array<int>::add\\(int const&") void stub_report(void*, const int32* x) {
    vc_assert(inRange(*x), "only nodes are reported"); vc_assert(nodes()[*x].height == 0, "only objects are reported");
    vc_assert(meet(*gQuery, boxOf(*x)), "only objects whose boxes meet the query are reported");
    if (*x == gU) gRep++;
}
INV bool overlap_inv() { return vc_and(vc_and(gOn <= gStack, vc_and(gOn <= 1, vc_and(gRep <= 1, gStack < 1ull << 40))), vc_and(vc_implies(vc_and(gHasU, meet(*gQuery, boxOf(gU))), gOn + gRep == 1), vc_implies(!vc_and(gHasU, meet(*gQuery, boxOf(gU))), gRep == 0))); }
HARNESS(query_box, "stubs=stub_stack,stub_unstack,stub_stacked,stub_clear,stub_push,stub_pop,stub_report;invs=overlap_inv") {
    if (vc_native()) { history(); return; }
    Tree& t = anyTree(); anyU(t);
    AABB q = anyBox("query"); gQuery = &q;
    Array<int32> out(gNone);
    t.reportAllShapesOverlappingWithAABB(q, out);
    vc_assert(gRep == (gHasU && meet(q, boxOf(gU)) ? 1u : 0u), "exactly the objects whose boxes meet the query are reported, once");
}
// pairs: W is an arbitrary entry of the objects to test
static uint64_t gW, gEnd; static int32* gIds; static uint64_t gFrom;
STUB("^reactphysics3d::Array<reactphysics3d::Pair<int, int> ?>::add\\(reactphysics3d::Pair<int, int> const&") void stub_pair(void*, const Pair<int32, int32>* x) {
    vc_assert(inRange(x->second), "only nodes are reported"); vc_assert(nodes()[x->second].height == 0, "only objects are reported");
    vc_assert(vc_and(gTurn >= gFrom, gTurn < gEnd), "only the objects asked for are reported");
    vc_assert(x->first == gIds[gTurn], "the object that is tested is reported");
    vc_assert(meet(boxOf(x->first), boxOf(x->second)), "only objects whose boxes meet are reported");
    if (vc_and(x->second == gU, gTurn == gW)) gRep++;
}
STUB("^reactphysics3d::Stack<int>::clear\\(") void stub_turn(void*) { gStack = 0; gOn = 0; gTurn++; }
static bool pairMeets() { return vc_and(gHasU, meet(boxOf(gIds[gW]), boxOf(gU))); }
INV bool turn_inv(uint32_t i) {
    return vc_and(vc_and(vc_and(gTurn == i, i >= gFrom), vc_and(i <= gEnd, gStack == 0)), vc_and(gOn == 0, gRep == (vc_and(i > gW, pairMeets()) ? 1u : 0u)));
}
INV bool pairs_inv() {
    return vc_and(vc_and(vc_and(gOn <= gStack, vc_and(gOn <= 1, vc_and(gRep <= 1, gStack < 1ull << 40))), vc_and(gTurn >= gFrom, gTurn < gEnd)),
        vc_and(vc_implies(vc_and(gTurn == gW, pairMeets()), gOn + gRep == 1), vc_implies(!vc_and(gTurn == gW, pairMeets()), gRep == (vc_and(gTurn > gW, pairMeets()) ? 1u : 0u))));
}
HARNESS(query_pairs, "stubs=stub_stack,stub_unstack,stub_stacked,stub_turn,stub_push,stub_pop,stub_pair;invs=turn_inv,pairs_inv") {
    if (vc_native()) { history(); return; }
    Tree& t = anyTree(); anyU(t);
    Array<int32> ids(gNone); Array<Pair<int32, int32>> out(gNone);
    const uint64_t n = vc_any_u64("objects"); gFrom = vc_any_u64("from"); gEnd = vc_any_u64("to"); gW = vc_any_u64("W");
    vc_assume(n < 1ull << 31); vc_assume(gEnd <= n); vc_assume(gFrom <= gEnd); vc_assume(gFrom <= gW); vc_assume(gW < gEnd);
    gIds = vc_array<int32>(n, "objects"); ids.mBuffer = gIds; ids.mSize = n; ids.mCapacity = n;
    ASSUME(vc_forall(0, n, [&](uint64_t j) { return inRange(gIds[j]); }));
    gTurn = (uint32_t)gFrom;
    t.reportAllShapesOverlappingWithShapes(ids, (uint32_t)gFrom, gEnd, out);
    vc_assert(gRep == (pairMeets() ? 1u : 0u), "exactly the pairs whose boxes meet are reported, once");
    ids.mBuffer = nullptr; ids.mSize = 0; ids.mCapacity = 0;
}
// rays: the ray enters the box of U at the fraction gEnterU (a fraction that is never reached if it misses the box)
STUB("^reactphysics3d::AABB::testRayIntersect\\(") bool stub_ray(const AABB* b, const Vector3* from, const Vector3*, double maxFraction) {
    vc_assert(b == &nodes()[gAt].aabb, "the box of the node is tested"); vc_assert(eqv(*from, gRay->point1), "with the origin of the ray");
    const bool h = vc_split(vc_any_bool("hit")), u = gEnterU <= maxFraction;
    if (gAt == gU) vc_assume(h == u);
    vc_assume(vc_implies(vc_and(on(gAt), u), h));
    return h;
}
struct Asked : public DynamicAABBTreeRaycastCallback {
    decimal raycastBroadPhaseShape(int32 id, const Ray& r) override {
        vc_assert(!gRayOver, "after the fraction zero no object is tested");
        vc_assert(inRange(id), "only nodes are tested"); vc_assert(nodes()[id].height == 0, "only objects are tested");
        vc_assert(r.maxFraction == gLimit, "the ray is cut at the nearest hit so far"); vc_assert(vc_and(eqv(r.point1, gRay->point1), eqv(r.point2, gRay->point2)), "the ray stays");
        if (id == gU) { vc_assert(!gSeen, "no object is tested twice"); vc_assert(gEnterU <= gLimit, "an object whose box the ray misses is not tested"); gSeen = true; }
        const double f = vc_any_real("fraction");
        if (vc_split(f == 0)) gRayOver = true;
        else if (vc_split(vc_and(f > 0, f < gLimit))) gLimit = f;
        return f;
    }
};
INV bool ray_inv() {
    return vc_and(vc_and(vc_and(gOn <= gStack, vc_and(gOn <= 1, gStack < 1ull << 40)), !gRayOver),
        vc_and(vc_implies(vc_and(gHasU, vc_and(gOn == 0, !gSeen)), gEnterU > gLimit), vc_and(vc_implies(gSeen, gOn == 0), vc_implies(!gHasU, !gSeen))));
}
INV bool cut_inv(double maxFraction) { return vc_and(maxFraction == gLimit, ray_inv()); }
HARNESS(query_ray, "stubs=stub_stack,stub_unstack,stub_stacked,stub_clear,stub_push,stub_pop,stub_ray;invs=cut_inv,ray_inv") {
    if (vc_native()) { history(); return; }
    Tree& t = anyTree(); anyU(t);
    Ray r(anyVec("from"), anyVec("to"), vc_any_real("range")); gRay = &r; gLimit = r.maxFraction; gEnterU = vc_any_real("entry");
    Asked a;
    t.raycast(r, a);
    if (gHasU) vc_assert(vc_implies(!gRayOver, vc_implies(gEnterU <= gLimit, gSeen)), "every object whose box the ray enters before the nearest hit is tested");
    else vc_assert(!gSeen, "no object is tested in an empty tree");
}
// -- rotations.  A node is linked with its parent and its children, and a node with children is exact: one higher than the higher child, its box the
// union of theirs
SPEC static bool childOf(const TreeNode* n, int32 p, int32 j) { return !vc_and(n[p].children[0] != j, n[p].children[1] != j); }
SPEC static bool linked(const TreeNode* n, int32 root, int32 j) {
    const int32 p = n[j].parentID, l = n[j].children[0], r = n[j].children[1];
    const bool up = vc_and((p == NIL) == (root == j), vc_implies(p != NIL, vc_and(vc_and(inRange(p), p != j), vc_and(n[p].height > 0, childOf(n, p, j)))));
    const bool down = vc_and(vc_and(vc_and(inRange(l), inRange(r)), vc_and(l != r, vc_and(l != j, r != j))), vc_and(vc_and(n[l].height >= 0, n[r].height >= 0), vc_and(n[l].parentID == j, n[r].parentID == j)));
    return vc_and(up, vc_implies(n[j].height > 0, down));
}
static bool low(const TreeNode* n, int32 j) { return n[j].height < 30000; }
SPEC static bool exact(const TreeNode* n, int32 j) {
    const int32 l = n[j].children[0], r = n[j].children[1], a = n[l].height, b = n[r].height;
    return vc_and(n[j].height == 1 + (a < b ? b : a), unionOf(n[j].aabb, n[l].aabb, n[r].aabb));
}
static bool sameNode(const TreeNode& a, const TreeNode& b) {
    return vc_and(vc_and(vc_and(a.parentID == b.parentID, a.height == b.height), vc_and(a.children[0] == b.children[0], a.children[1] == b.children[1])), sameBox(a.aabb, b.aabb));
}
static void put(AABB& u, const AABB& p, const AABB& q) {
    const Vector3 a = p.mMinCoordinates, b = p.mMaxCoordinates, c = q.mMinCoordinates, d = q.mMaxCoordinates;
    u.mMinCoordinates.x = lo(a.x, c.x); u.mMinCoordinates.y = lo(a.y, c.y); u.mMinCoordinates.z = lo(a.z, c.z);
    u.mMaxCoordinates.x = hi(b.x, d.x); u.mMaxCoordinates.y = hi(b.y, d.y); u.mMaxCoordinates.z = hi(b.z, d.z);
}
static int32 anyNode(const char* name) { const uint64_t x = vc_any_u64(name); vc_assume(x < gCap); return (int32)x; }
STUB("^reactphysics3d::AABB::mergeTwoAABBs\\(") void stub_merge(AABB* u, const AABB* a, const AABB* b) { put(*u, *a, *b); }   // property B01
// contract of balanceSubTreeAtNode: nothing changes, or a child Z of A is raised above A and takes one of its children, X, along
HARNESS(balance, "stubs=stub_merge") {
    if (vc_native()) { history(); return; }
    Tree& t = anyTree();
    TreeNode* n = nodes();
    const int32 a = anyNode("A"), u = anyNode("U");
    const int32 b = n[a].children[0], c = n[a].children[1], p = n[a].parentID, root = t.mRootNodeID;
    vc_assume(n[a].height >= 0); vc_assume(linked(n, root, a)); vc_assume(low(n, a));
    const bool inner = vc_split(n[a].height > 0);
    if (inner) {
        vc_assume(linked(n, root, b)); vc_assume(linked(n, root, c)); vc_assume(low(n, b)); vc_assume(low(n, c)); vc_assume(p != b); vc_assume(p != c);
    }
    const bool bi = inner && vc_split(n[b].height > 0), ci = inner && vc_split(n[c].height > 0);
    if (bi) { vc_assume(low(n, n[b].children[0])); vc_assume(low(n, n[b].children[1])); vc_assume(p != n[b].children[0]); vc_assume(p != n[b].children[1]); }
    if (ci) { vc_assume(low(n, n[c].children[0])); vc_assume(low(n, n[c].children[1])); vc_assume(p != n[c].children[0]); vc_assume(p != n[c].children[1]); }
    TreeNode* o = vc_snapshot(n);
    const int32 z = t.balanceSubTreeAtNode(a);
    n = nodes();
    if (vc_split(z == a)) {
        vc_assert(sameNode(n[u], o[u]), "a sub-tree that is not rotated stays"); vc_assert(t.mRootNodeID == root, "its root too");
        if (inner) vc_assert(!vc_and(o[a].height >= 2, !vc_and(o[c].height - o[b].height <= 1, o[b].height - o[c].height <= 1)), "a node with children that differ by two levels is rotated");
        return;
    }
    vc_assert(inner, "an object is not rotated");
    const bool left = vc_split(z == b); if (!left) vc_assert(z == c, "a child is raised");
    const int32 w = left ? c : b;
    vc_assert(left ? bi : ci, "the child that is raised has children");
    vc_assert(o[z].height > o[w].height, "the higher child is raised");
    const int32 x = n[z].children[1], f = o[z].children[0], g = o[z].children[1];
    const bool first = vc_split(x == f); if (!first) vc_assert(x == g, "it keeps one of its children");
    const int32 y = first ? g : f;
    vc_assert(o[x].height >= o[y].height, "the higher one");
    vc_assert(n[z].children[0] == a, "the node is the other child"); vc_assert(n[a].parentID == z, "the node knows its new parent"); vc_assert(n[z].parentID == p, "the raised child has the parent of the node");
    vc_assert(n[a].children[left ? 0 : 1] == y, "the other grandchild takes the place of the raised child"); vc_assert(n[y].parentID == a, "and knows its parent");
    vc_assert(n[a].children[left ? 1 : 0] == w, "the other child stays");
    vc_assert(exact(n, a), "the height and the box of the node are right"); vc_assert(exact(n, z), "the height and the box of the raised child are right");
    if (vc_split(p == NIL)) vc_assert(t.mRootNodeID == z, "the raised child is the root");
    else {
        vc_assert(t.mRootNodeID == root, "the root stays");
        const bool s0 = vc_split(o[p].children[0] == a);
        vc_assert(n[p].children[s0 ? 0 : 1] == z, "the parent knows the raised child"); vc_assert(n[p].children[s0 ? 1 : 0] == o[p].children[s0 ? 1 : 0], "and its other child");
        vc_assert(vc_and(vc_and(n[p].parentID == o[p].parentID, n[p].height == o[p].height), sameBox(n[p].aabb, o[p].aabb)), "the rest of the parent stays");
    }
    vc_assert(vc_and(vc_and(n[y].height == o[y].height, sameBox(n[y].aabb, o[y].aabb)), vc_and(n[y].children[0] == o[y].children[0], n[y].children[1] == o[y].children[1])), "the rest of the grandchild stays");
    if (vc_and(vc_and(u != a, u != z), vc_and(u != p, u != y))) vc_assert(sameNode(n[u], o[u]), "all other nodes stay");
}
// -- free nodes: a list through all nodes that are not in the tree; gList[r] is the free node with r - 1 free nodes behind it
static uint32_t* gRank; static int32* gList; static uint64_t gFree;
SPEC static bool isFree(int32 j) {
    const TreeNode* n = nodes();
    return vc_implies(n[j].height < 0, vc_and(vc_and(gRank[j] >= 1, gRank[j] <= gFree), vc_and(gList[gRank[j]] == j, n[j].nextNodeID == (gRank[j] == 1 ? NIL : gList[gRank[j] - 1]))));
}
SPEC static bool headOk() { return tree().mFreeNodeID == (gFree == 0 ? NIL : gList[gFree]); }
static void anyList(Tree& t) {
    gRank = vc_array<uint32_t>(gCap, "rank"); gList = vc_array<int32>(gCap + 2, "list");
    gFree = gCap - (uint64_t)t.mNbNodes;
    vc_assume(headOk());
}
SPEC static bool listed(uint64_t r) { return vc_implies(vc_and(r >= 1, r <= gFree), vc_and(inRange(gList[r]), vc_and(gRank[gList[r]] == r, nodes()[gList[r]].height < 0))); }
static void position(uint64_t r) { vc_assume(listed(r)); }
HARNESS(node_allocate, "") {
    if (vc_native()) { history(); return; }
    Tree& t = anyTree(); anyList(t);
    const int32 u = anyNode("U");
    vc_assume(gFree >= 1);                                  // a node is free (otherwise the nodes move to a larger block)
    position(gFree); position(gFree - 1); vc_assume(isFree(u)); vc_assume(isFree(gList[gFree])); if (gFree >= 2) vc_assume(isFree(gList[gFree - 1]));
    position(gRank[u]);
    TreeNode* o = vc_snapshot(nodes());
    const int32 x = t.allocateNode();
    vc_assert(inRange(x), "the new node is in range"); vc_assert(o[x].height < 0, "it was free"); vc_assert(nodes()[x].height >= 0, "it is not free any more");
    vc_assert(nodes()[x].parentID == NIL, "it has no parent"); vc_assert((uint64_t)t.mNbNodes == gCap - gFree + 1, "there is one node more");
    gFree--;
    vc_assert(headOk(), "the list of free nodes goes on with the next"); vc_assert(isFree(u), "all other free nodes stay in the list");
    if (u != x) vc_assert(sameNode(nodes()[u], o[u]), "the other nodes stay");
}
HARNESS(node_release, "") {
    if (vc_native()) { history(); return; }
    Tree& t = anyTree(); anyList(t);
    const int32 u = anyNode("U"), x = anyNode("node");
    vc_assume(nodes()[x].height >= 0); vc_assume(gFree < gCap); position(gFree); vc_assume(isFree(u));
    TreeNode* o = vc_snapshot(nodes());
    t.releaseNode(x);
    gFree++; gList[gFree] = x; gRank[x] = (uint32_t)gFree;
    vc_assert(nodes()[x].height < 0, "the node is free"); vc_assert((uint64_t)t.mNbNodes == gCap - gFree, "there is one node less");
    vc_assert(headOk(), "the list of free nodes begins with it"); vc_assert(isFree(x), "and goes on with the others"); vc_assert(isFree(u), "all other free nodes stay in the list");
    if (u != x) vc_assert(sameNode(nodes()[u], o[u]), "the other nodes stay");
}
// -- fat boxes: insertion and removal are taken from their contracts (the box of an object stays)
static int32 gNew; static int gIn, gGone; static int32 gMoved; static bool gInOrder;
STUB("^reactphysics3d::DynamicAABBTree::allocateNode\\(") int32 stub_node(Tree* t) {
    if (vc_split(vc_any_bool("grow"))) { t->mNodes = vc_snapshot(t->mNodes); }          // the nodes move to another place
    t->mNodes[gNew].parentID = NIL; t->mNodes[gNew].height = 0; t->mNbNodes++;
    return gNew;
}
STUB("^reactphysics3d::DynamicAABBTree::insertLeafNode\\(") void stub_insert(Tree* t, int32 x) {
    gMoved = x; gIn++;
    vc_assert(t->mNodes[x].height == 0, "an object is inserted"); vc_assert(gIn == 1, "once"); gInOrder = gGone == 1;
    vc_assert(inflated(t->mNodes[x].aabb, *gQuery), "with its fat box: the box, inflated");
    if (vc_split(vc_any_bool("grow"))) t->mNodes = vc_snapshot(t->mNodes);
}
STUB("^reactphysics3d::DynamicAABBTree::removeLeafNode\\(") void stub_take(Tree* t, int32 x) { gMoved = x; gGone++; vc_assert(gIn == 0, "the object is removed first"); }
HARNESS(object_add, "stubs=stub_node,stub_insert") {
    if (vc_native()) { history(); return; }
    Tree& t = anyTree(); AABB q = anyBox("box"); gQuery = &q; gIn = gGone = 0; gNew = anyNode("new node");
    const uint32_t data = vc_any_u32("data");
    const int32 x = t.addObject(q, data);
    vc_assert(x == gNew, "the object has the new node"); vc_assert(gIn == 1, "it is inserted into the tree"); vc_assert(gMoved == x, "with this node");
    vc_assert(inflated(nodes()[x].aabb, q), "the fat box is the box, inflated"); vc_assert(within(q, nodes()[x].aabb), "it contains the box"); vc_assert(nodes()[x].children[0] == (int32)data, "the object has its data");
}
HARNESS(object_update, "stubs=stub_take,stub_insert") {
    if (vc_native()) { history(); return; }
    Tree& t = anyTree(); AABB q = anyBox("box"); gQuery = &q; gIn = gGone = 0; gMoved = -2; gInOrder = false;
    const int32 x = anyNode("object"); vc_assume(nodes()[x].height == 0);
    TreeNode* o = vc_snapshot(nodes());
    const bool force = vc_split(vc_any_bool("force")), did = vc_split(t.updateObject(x, q, force));
    vc_assert(did == !vc_and(!force, within(q, o[x].aabb)), "an object is moved in the tree exactly if its box leaves the fat box, or if asked to");
    if (did) { vc_assert(vc_and(gGone == 1, gIn == 1), "it is removed and inserted"); vc_assert(gMoved == x, "the object itself"); vc_assert(inflated(nodes()[x].aabb, q), "the fat box is the box, inflated"); }
    else { vc_assert(vc_and(gGone == 0, gIn == 0), "otherwise it stays where it is"); vc_assert(sameNode(nodes()[x], o[x]), "otherwise nothing changes"); }
    vc_assert(within(q, nodes()[x].aabb), "the fat box contains the box");
    const int32 u = anyNode("U"); if (u != x) vc_assert(sameBox(nodes()[u].aabb, o[u].aabb), "the boxes of other objects stay");
}
HARNESS(object_remove, "stubs=stub_take") {
    if (vc_native()) { history(); return; }
    Tree& t = anyTree(); gIn = gGone = 0; gMoved = -2;
    const int32 x = anyNode("object"); vc_assume(nodes()[x].height == 0); vc_assume(t.mNbNodes > 0); const int32 nb = t.mNbNodes;
    t.removeObject(x);
    vc_assert(gGone == 1, "the object is removed from the tree"); vc_assert(gMoved == x, "the object itself"); vc_assert(nodes()[x].height < 0, "its node is free"); vc_assert(t.mFreeNodeID == x, "its node is in the list of free nodes"); vc_assert(t.mNbNodes == nb - 1, "there is one node less");
}
