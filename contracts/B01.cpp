// B01: axis-aligned boxes as sets of points
//! opts: nl
//! assume: ray directions of the slab test have no zero component (the code relies on IEEE infinities there)
#include "common.h"
#include <reactphysics3d/mathematics/Ray.h>
#include <reactphysics3d/collision/shapes/AABB.h>
#include "mathematics/Vector3.cpp"
#include "collision/shapes/AABB.cpp"

static Vector3 anyOrdered(const Vector3& lo, const char* n) {
    Vector3 h = anyVec(n);
    if (vc_native()) h = lo + Vector3(std::fabs(h.x), std::fabs(h.y), std::fabs(h.z));
    vc_assume(lo.x <= h.x); vc_assume(lo.y <= h.y); vc_assume(lo.z <= h.z);
    return h;
}
static AABB anyBox(const char* n) { Vector3 lo = anyVec(n); Vector3 hi = anyOrdered(lo, n); return AABB(lo, hi); }
// the set of points of a box
SPEC bool in(const AABB* b, double x, double y, double z) {
    return b->mMinCoordinates.x <= x && x <= b->mMaxCoordinates.x && b->mMinCoordinates.y <= y && y <= b->mMaxCoordinates.y && b->mMinCoordinates.z <= z && z <= b->mMaxCoordinates.z;
}
inline bool in(const AABB& b, const Vector3& p) { return in(&b, p.x, p.y, p.z); }
SPEC bool near(const AABB* b, double x, double y, double z, double e) {
    return b->mMinCoordinates.x <= x + e && x <= b->mMaxCoordinates.x + e && b->mMinCoordinates.y <= y + e && y <= b->mMaxCoordinates.y + e && b->mMinCoordinates.z <= z + e && z <= b->mMaxCoordinates.z + e;
}
inline double lower(double a, double b) { return a < b ? a : b; }
inline double upper(double a, double b) { return a < b ? b : a; }

HARNESS(overlap, "") {
    AABB a = anyBox("a"), b = anyBox("b");
    Vector3 p = anyVec("p");
    bool r = a.testCollision(b);
    ENSURE("boxes with a common point overlap", vc_implies(in(a, p) && in(b, p), r));
    // overlapping boxes have a common point: the corner of the intersection
    Vector3 w(upper(a.getMin().x, b.getMin().x), upper(a.getMin().y, b.getMin().y), upper(a.getMin().z, b.getMin().z));
    ENSURE("overlapping boxes have a common point", vc_implies(r, in(a, w) && in(b, w)));
    ENSURE("overlap is symmetric", b.testCollision(a) == r);
}
HARNESS(contains_box, "") {
    AABB a = anyBox("a"), b = anyBox("b");
    Vector3 p = anyVec("p");
    bool r = a.contains(b);
    ENSURE("a contained box has no point outside", vc_implies(r && in(b, p), in(a, p)));
    ENSURE("a box with both corners inside is contained", vc_implies(in(a, b.getMin()) && in(a, b.getMax()), r));
}
HARNESS(contains_point, "") {
    AABB a = anyBox("a");
    Vector3 p = anyVec("p");
    double e = vc_any_real("eps");
    vc_assume(e >= 0);
    ENSURE("a point is inside up to the tolerance", a.contains(p, e) == near(&a, p.x, p.y, p.z, e));
    ENSURE("every point of the box is contained", vc_implies(in(a, p), a.contains(p)));
}
HARNESS(merge_boxes, "") {
    AABB a = anyBox("a"), b = anyBox("b"), c = anyBox("c"), u = anyBox("u"), v = a;
    Vector3 p = anyVec("p");
    u.mergeTwoAABBs(a, b);
    v.mergeWithAABB(b);
    ENSURE("the union contains both boxes", vc_implies(in(a, p) || in(b, p), in(u, p)));
    // smallest: a box containing both contains the union
    ENSURE("the union is the smallest such box", vc_implies(c.contains(a) && c.contains(b), in(c, u.getMin()) && in(c, u.getMax())));
    ENSURE("merging in place gives the union", eqv(u.getMin(), v.getMin()) && eqv(u.getMax(), v.getMax()));
    ENSURE("the union is a box", u.getMin().x <= u.getMax().x && u.getMin().y <= u.getMax().y && u.getMin().z <= u.getMax().z);
}
HARNESS(inflate_box, "") {
    AABB a = anyBox("a"), o = a;
    double x = vc_any_real("x"), y = vc_any_real("y"), z = vc_any_real("z");
    a.inflate(x, y, z);
    vc_assert(eqv(a.getMin(), o.getMin().x - x, o.getMin().y - y, o.getMin().z - z) && eqv(a.getMax(), o.getMax().x + x, o.getMax().y + y, o.getMax().z + z), "inflation moves every face outwards");
    AABB b = o, c = anyBox("c");
    Vector3 p = anyVec("p"), q = anyVec("q");
    b.inflateWithPoint(p);
    ENSURE("inflation with a point contains the point and the box", in(b, p) && vc_implies(in(o, q), in(b, q)));
    ENSURE("inflation with a point is minimal", vc_implies(c.contains(o) && in(c, p), c.contains(b)));
}
HARNESS(box_numbers, "") {
    AABB a = anyBox("a");
    Vector3 c = a.getCenter(), e = a.getExtent();
    vc_assert(eqv(c + c, a.getMin() + a.getMax()), "center");
    vc_assert(eqv(a.getMin() + e, a.getMax()), "extent");
    vc_assert(vc_eq(a.getVolume(), e.x * e.y * e.z), "volume");
    Vector3 lo = anyVec("lo"), hi = anyVec("hi");
    AABB b(lo, hi);
    vc_assert(eqv(b.getMin(), lo) && eqv(b.getMax(), hi), "construction keeps the corners");
    b.setMin(hi); b.setMax(lo);
    vc_assert(eqv(b.getMin(), hi) && eqv(b.getMax(), lo), "setting the corners");
}
HARNESS(scale_box, "") {
    AABB a = anyBox("a"), o = a;
    Vector3 s = anyVec("s"), p = anyVec("p");
    if (vc_native()) s = Vector3(std::fabs(s.x) + 0.01, std::fabs(s.y) + 0.01, std::fabs(s.z) + 0.01);
    vc_assume(s.x > 0); vc_assume(s.y > 0); vc_assume(s.z > 0);
    a.applyScale(s);
    vc_assert(eqv(a.getMin(), o.getMin().x * s.x, o.getMin().y * s.y, o.getMin().z * s.z) && eqv(a.getMax(), o.getMax().x * s.x, o.getMax().y * s.y, o.getMax().z * s.z), "a scaled box has scaled corners");
}
HARNESS(triangle_box, "") {
    Vector3 t[3] = { anyVec("t0"), anyVec("t1"), anyVec("t2") };
    AABB b = AABB::createAABBForTriangle(t), c = anyBox("c");
    ENSURE("the box of a triangle contains its vertices", in(b, t[0]) && in(b, t[1]) && in(b, t[2]));
    ENSURE("the box of a triangle is the smallest", vc_implies(in(c, t[0]) && in(c, t[1]) && in(c, t[2]), in(c, b.getMin()) && in(c, b.getMax())));
}
// minimum and maximum of three numbers (contract proved for M02)
STUB("^reactphysics3d::min3\\(") double stub_min3(double a, double b, double c) { return lower(lower(a, b), c); }
STUB("^reactphysics3d::max3\\(") double stub_max3(double a, double b, double c) { return upper(upper(a, b), c); }
HARNESS(triangle_overlap, "stubs=stub_min3,stub_max3") {
    Vector3 t[3] = { anyVec("t0"), anyVec("t1"), anyVec("t2") };
    AABB a = anyBox("a");
    Vector3 lo(lower(lower(t[0].x, t[1].x), t[2].x), lower(lower(t[0].y, t[1].y), t[2].y), lower(lower(t[0].z, t[1].z), t[2].z));
    Vector3 hi(upper(upper(t[0].x, t[1].x), t[2].x), upper(upper(t[0].y, t[1].y), t[2].y), upper(upper(t[0].z, t[1].z), t[2].z));
    ENSURE("a box meets a triangle's box exactly when the boxes overlap", a.testCollisionTriangleAABB(t) == VC(lo.x <= a.getMax().x && lo.y <= a.getMax().y && lo.z <= a.getMax().z && a.getMin().x <= hi.x && a.getMin().y <= hi.y && a.getMin().z <= hi.z));
}
// one axis at a time: parameters where the ray is between the faces
struct Slab { double lo, hi; };
static Slab slab(double o, double inv, double mn, double mx) { double a = (mn - o) * inv, b = (mx - o) * inv; return Slab{lower(a, b), upper(a, b)}; }
// between the entry and the exit parameter a ray is inside its slab, elsewhere it is outside
HARNESS(slab_lemma, "nonra") {
    double o = vc_any_real("o"), d = vc_any_real("d"), inv = vc_any_real("inv"), mn = vc_any_real("mn"), mx = vc_any_real("mx"), t = vc_any_real("t");
    if (vc_native()) { if (d == 0) d = 1; inv = 1 / d; if (mx < mn) { double x = mn; mn = mx; mx = x; } }
    vc_assume(vc_eq(inv * d, 1)); vc_assume(mn <= mx);
    Slab s = slab(o, inv, mn, mx);
    double p = o + t * d;
    if (vc_native()) { if (std::fabs(p - mn) < 1e-6 || std::fabs(p - mx) < 1e-6) return; }
    vc_assert((mn <= p && p <= mx) == (s.lo <= t && t <= s.hi), "slab parameters");
}
HARNESS(slab_test, "") {
    AABB a = anyBox("a");
    Vector3 o = anyVec("o"), inv = anyVec("inv");
    double m = vc_any_real("max"), t = vc_any_real("t");
    if (vc_native()) m = std::fabs(m);
    vc_assume(m >= 0);
    bool r = a.testRayIntersect(o, inv, m);
    Slab x = slab(o.x, inv.x, a.getMin().x, a.getMax().x), y = slab(o.y, inv.y, a.getMin().y, a.getMax().y), z = slab(o.z, inv.z, a.getMin().z, a.getMax().z);
    double in0 = upper(upper(x.lo, y.lo), upper(z.lo, 0)), out0 = lower(lower(x.hi, y.hi), lower(z.hi, m));
    // with the lemma: some parameter in [0, m] is inside all three slabs, i.e. some point of the segment is inside the box
    ENSURE("a ray hits the box exactly when a point of it is inside", r == (in0 <= out0));
    ENSURE("a point of the ray inside the box is found", vc_implies(0 <= t && t <= m && x.lo <= t && t <= x.hi && y.lo <= t && t <= y.hi && z.lo <= t && t <= z.hi, r));
}
HARNESS(raycast_box, "") {
    AABB a = anyBox("a");
    Vector3 o = anyVec("o"), d = anyVec("d");
    if (vc_native()) { if (vc_any_bool("zx")) d.x = 0; if (vc_any_bool("zy")) d.y = 0; if (vc_any_bool("zz")) d.z = 0; }
    Vector3 e = o + d;
    // every component is zero or at least the tolerance of the parallel test
    bool par[3]; double inv[3]; double in0 = 0, out0 = DECIMAL_LARGEST; bool inside = true;
    for (int i = 0; i < 3; i++) {
        double di = e[i] - o[i];
        par[i] = vc_any_bool("parallel");
        if (vc_native()) par[i] = di == 0;
        if (par[i]) vc_assume(di == 0); else vc_assume(std::fabs(di) >= 0.00001);
        if (par[i]) inside = vc_and(inside, VC(a.getMin()[i] <= o[i] && o[i] <= a.getMax()[i]));
        else {
            Slab s = slab(o[i], 1.0 / di, a.getMin()[i], a.getMax()[i]);
            in0 = upper(in0, s.lo); out0 = lower(out0, s.hi);
        }
    }
    Vector3 h;
    bool r = a.raycast(Ray(o, e), h);
    ENSURE("an infinite ray hits the box exactly when a point of it is inside", r == (inside && in0 <= out0));
    if (r) vc_assert(eqv(h, o + in0 * (e - o)), "the hit point is the first point inside");
}
