// N01: sphere and capsule collision tests report a collision exactly for overlapping shapes, with touching points, normal and depth that fit together
//! assume: both shapes have a positive radius, a capsule has a height above 0.001
//! opts: nl
#include "shapes.h"
#include "mathematics/Transform.cpp"
#include "engine/Entity.cpp"
#include <reactphysics3d/mathematics/mathematics_functions.h>
#include "collision/narrowphase/SphereVsSphereAlgorithm.cpp"
#include "collision/narrowphase/SphereVsCapsuleAlgorithm.cpp"
#include "collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp"
typedef NarrowPhaseInfoBatch::NarrowPhaseInfo Info;
static VcRaw<NarrowPhaseInfoBatch> gBatch;
static VcRaw<Info[3]> gInfos;
static VcRaw<SphereShape> gS1, gS2; static VcRaw<CapsuleShape> gC1, gC2;
static VcRaw<SphereVsSphereAlgorithm> gSS; static VcRaw<SphereVsCapsuleAlgorithm> gSC; static VcRaw<CapsuleVsCapsuleAlgorithm> gCC;
static Info& info(uint32_t i) { return ((Info*)gInfos.bytes)[i]; }
static Vector3 turned(const Quaternion& q, const Vector3& v) {
    const double x = q.x, y = q.y, z = q.z, w = q.w;
    return Vector3((w * w + x * x - y * y - z * z) * v.x + 2 * (x * y - w * z) * v.y + 2 * (x * z + w * y) * v.z,
                   2 * (x * y + w * z) * v.x + (w * w - x * x + y * y - z * z) * v.y + 2 * (y * z - w * x) * v.z,
                   2 * (x * z - w * y) * v.x + 2 * (y * z + w * x) * v.y + (w * w - x * x - y * y + z * z) * v.z);
}
static Vector3 add(const Vector3& a, const Vector3& b) { return Vector3(a.x + b.x, a.y + b.y, a.z + b.z); }
static Vector3 sub(const Vector3& a, const Vector3& b) { return Vector3(a.x - b.x, a.y - b.y, a.z - b.z); }
static Vector3 times(const Vector3& a, double s) { return Vector3(a.x * s, a.y * s, a.z * s); }
static Vector3 world(const Transform& t, const Vector3& p) { return add(turned(t.getOrientation(), p), t.getPosition()); }
static Vector3 intoLocal(const Transform& t, const Vector3& p) { const Quaternion& q = t.getOrientation(); return turned(Quaternion(-q.x, -q.y, -q.z, q.w), sub(p, t.getPosition())); }
// one test in a batch: the tests before and after it are not touched
static Info& setUp(CollisionShape* s1, CollisionShape* s2) {
    NarrowPhaseInfoBatch* b = gBatch.p();
    b->narrowPhaseInfos.mBuffer = &info(0); b->narrowPhaseInfos.mSize = 3; b->narrowPhaseInfos.mCapacity = 3;
    for (uint32_t i = 0; i < 3; i++) {
        info(i).collisionShape1 = s1; info(i).collisionShape2 = s2; info(i).isColliding = false; info(i).nbContactPoints = 0; info(i).reportContacts = true;
        new (&info(i).shape1ToWorldTransform) Transform(Vector3(0, 0, 0), Quaternion(0, 0, 0, 1));
        new (&info(i).shape2ToWorldTransform) Transform(Vector3(0, 0, 0), Quaternion(0, 0, 0, 1));
    }
    info(1).shape1ToWorldTransform = anyTransform("T1"); info(1).shape2ToWorldTransform = anyTransform("T2");
    if (vc_native() && vc_any_u32("same place") % 8 == 0) info(1).shape2ToWorldTransform.setPosition(info(1).shape1ToWorldTransform.getPosition());
    info(1).reportContacts = vc_any_bool("report");
    return info(1);
}
static void othersUntouched() {
    vc_assert(!info(0).isColliding, "the test before is not touched"); vc_assert(!info(2).isColliding, "the test after is not touched");
    vc_assert(info(0).nbContactPoints == 0, "the test before is not touched"); vc_assert(info(2).nbContactPoints == 0, "the test after is not touched");
}
HARNESS(sphere_sphere, "") {
    SphereShape *s1 = anySphere(gS1), *s2 = anySphere(gS2);
    const double r1 = s1->getRadius(), r2 = s2->getRadius();
    Info& o = setUp(s1, s2);
    const Transform &t1 = o.shape1ToWorldTransform, &t2 = o.shape2ToWorldTransform;
    const Vector3 c1 = t1.getPosition(), c2 = t2.getPosition(), d = sub(c2, c1);
    const double d2 = norm2(d), l = d.length();
    vc_by(vc_implies(d2 < (r1 + r2) * (r1 + r2), l < r1 + r2), "the lengths compare as their squares do", l * l == d2, l >= 0, r1 + r2 > 0);
    if (vc_native() && std::fabs(l - r1 - r2) < 1e-6) return;   // rounding decides
    const bool r = gSS.p()->testCollision(*gBatch.p(), 1, 1, gAlloc);
    othersUntouched();
    vc_assert(r == o.isColliding, "the result says whether there was a collision");
    if (d2 < (r1 + r2) * (r1 + r2)) vc_assert(o.isColliding, "overlapping spheres collide"); else vc_assert(!o.isColliding, "spheres that do not overlap do not collide");
    vc_assert(o.nbContactPoints == (o.isColliding && o.reportContacts ? 1 : 0), "one contact if contacts are wanted");
    if (o.nbContactPoints == 1) {
        const ContactPointInfo& k = o.contactPoints[0];
        const Vector3 n = k.normal;
        vc_assert(vc_eq(k.penetrationDepth, r1 + r2 - l), "the depth is the sum of the radii less the distance");
        if (d2 > MACHINE_EPSILON) {
            vc_assert(eqv(times(n, l), d), "the normal points from the first to the second sphere");
            vc_assert(eqv(times(turned(t1.getOrientation(), k.localPoint1), l), times(d, r1)), "the touching point on the first sphere is its deepest point in the second one");
            vc_assert(eqv(times(turned(t2.getOrientation(), k.localPoint2), l), times(d, -r2)), "the touching point on the second sphere is its deepest point in the first one");
        } else {
            vc_assert(vc_eq(norm2(n), 1), "the normal has length one");
            vc_assert(eqv(turned(t1.getOrientation(), k.localPoint1), times(n, r1)), "the touching point on the first sphere lies along the normal");
            vc_assert(eqv(turned(t2.getOrientation(), k.localPoint2), times(n, -r2)), "the touching point on the second sphere lies against the normal");
        }
    }
}
static double clamped(double y, double h) { if (y < -h) return -h; if (y > h) return h; return y; }
static Quaternion product(const Quaternion& a, const Quaternion& b) {
    return Quaternion(a.w * b.x + b.w * a.x + a.y * b.z - a.z * b.y, a.w * b.y + b.w * a.y + a.z * b.x - a.x * b.z,
                      a.w * b.z + b.w * a.z + a.x * b.y - a.y * b.x, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z);
}
// The tests work in the space of one of the shapes (base). Where the other one is, is given relative to it: every pair of
// positions is of this form. The composition of the inverse and the other transform has to give the relative position back.
static Transform gBase, gOther, gRelative;
static void place(Transform& base, Transform& other, const Transform& relative) {
    if (vc_native()) other = base * relative;
    else { const Quaternion& q = base.getOrientation(); other.setPosition(world(base, relative.getPosition())); other.setOrientation(product(q, relative.getOrientation())); }
    gBase = base; gOther = other; gRelative = relative;
}
STUB("^reactphysics3d::Transform::operator\\*\\(reactphysics3d::Transform const&") Transform composed(const Transform* a, const Transform& b) {
    const Quaternion &qa = a->getOrientation(), &qb = gBase.getOrientation(), &qo = gOther.getOrientation();
    const Vector3 &pb = b.getPosition(), &po = gOther.getPosition(), o = world(gBase, a->getPosition());
    vc_assert(vc_same(qa.x, -qb.x) && vc_same(qa.y, -qb.y) && vc_same(qa.z, -qb.z) && vc_same(qa.w, qb.w), "the shape is turned back by the inverse");
    vc_assert(eqv(o, 0, 0, 0), "the shape is moved back by the inverse");
    vc_assert(vc_same(pb.x, po.x) && vc_same(pb.y, po.y) && vc_same(pb.z, po.z), "the other shape is where it is");
    const Quaternion &qs = b.getOrientation(), r = product(qa, qs), &e = gRelative.getOrientation();
    vc_assert(vc_same(qs.x, qo.x) && vc_same(qs.y, qo.y) && vc_same(qs.z, qo.z) && vc_same(qs.w, qo.w), "the other shape is turned as it is");
    vc_assert(vc_and(vc_and(vc_eq(r.x, e.x), vc_eq(r.y, e.y)), vc_and(vc_eq(r.z, e.z), vc_eq(r.w, e.w))), "the relative orientation");
    vc_assert(eqv(add(turned(qa, pb), a->getPosition()), gRelative.getPosition()), "the relative position");
    return gRelative;
}
static double gH; static Vector3 gP, gQ;
STUB("computeClosestPointOnSegment") Vector3 nearest(const Vector3& a, const Vector3& b, const Vector3& c) {   // see M02
    vc_assert(eqv(a, 0, -gH, 0), "the inner segment of the capsule starts at its lower end"); vc_assert(eqv(b, 0, gH, 0), "the inner segment of the capsule ends at its upper end");
    vc_assert(eqv(c, gP), "the sphere centre is taken in the space of the capsule");
    return gQ;
}
// The capsule lies on the y axis of its own space: the nearest point of its inner segment has the height of the sphere
// centre, cut off at both ends.
static void sphereCapsule(bool sphereFirst) {
    SphereShape* s = anySphere(gS1); CapsuleShape* c = anyCapsule(gC1);
    const double rs = s->getRadius(), rc = c->getRadius(), h = c->getHeight() / 2;
    vc_assume(h > 0.0005);
    Info& o = sphereFirst ? setUp(s, c) : setUp(c, s);
    Transform relative = anyTransform("relative");
    if (vc_native() && vc_any_u32("on the axis") % 4 == 0) relative.setPosition(Vector3(0, relative.getPosition().y / 8, 0));
    const Vector3 p = relative.getPosition(), q(0, clamped(p.y, h), 0), d = sub(q, p);
    Transform& tc = sphereFirst ? o.shape2ToWorldTransform : o.shape1ToWorldTransform;
    place(tc, sphereFirst ? o.shape1ToWorldTransform : o.shape2ToWorldTransform, relative);
    gH = h; gP = p; gQ = q;
    const double d2 = norm2(d), l = d.length();
    vc_by(vc_implies(d2 < (rs + rc) * (rs + rc), l < rs + rc), "the lengths compare as their squares do", l * l == d2, l >= 0, rs + rc > 0);
    vc_by(vc_implies(d2 > MACHINE_EPSILON, l > MACHINE_EPSILON), "a length above the tolerance", l * l == d2, l >= 0);
    if (vc_native() && std::fabs(l - rs - rc) < 1e-6) return;   // rounding decides
    const bool r = gSC.p()->testCollision(*gBatch.p(), 1, 1, gAlloc);
    othersUntouched();
    vc_assert(r == o.isColliding, "the result says whether there was a collision");
    if (d2 < (rs + rc) * (rs + rc)) vc_assert(o.isColliding, "shapes that overlap collide"); else vc_assert(!o.isColliding, "shapes that do not overlap do not collide");
    vc_assert(o.nbContactPoints == (o.isColliding && o.reportContacts ? 1 : 0), "one contact if contacts are wanted");
    if (o.nbContactPoints == 1) {
        const ContactPointInfo& k = o.contactPoints[0];
        const Vector3 ps = sphereFirst ? k.localPoint1 : k.localPoint2, pc = sphereFirst ? k.localPoint2 : k.localPoint1;
        const Vector3 n = sphereFirst ? k.normal : times(k.normal, -1), m = turned(relative.getOrientation(), ps);   // from the sphere to the capsule
        if (d2 > MACHINE_EPSILON) {
            vc_assert(eqv(times(n, l), turned(tc.getOrientation(), d)), "the normal goes from the first shape to the second one");
            vc_assert(vc_eq(k.penetrationDepth, rs + rc - l), "the depth is the sum of the radii less the distance");
            vc_assert(eqv(times(sub(pc, q), l), times(d, -rc)), "the touching point on the capsule is its deepest point in the sphere");
            vc_assert(eqv(times(m, l), times(d, rs)), "the touching point on the sphere is its deepest point in the capsule");
        } else {
            vc_assert(vc_eq(norm2(n), 1), "the normal has length one");
            vc_assert(vc_eq(k.penetrationDepth, rs + rc), "the depth is the sum of the radii");
            vc_assert(eqv(turned(tc.getOrientation(), sub(pc, p)), times(n, -rc)), "the touching point on the capsule lies against the normal");
            vc_assert(eqv(turned(tc.getOrientation(), m), times(n, rs)), "the touching point on the sphere lies along the normal");
        }
    }
}
HARNESS(sphere_capsule, "stubs=nearest,composed") { sphereCapsule(true); }
HARNESS(capsule_sphere, "stubs=nearest,composed") { sphereCapsule(false); }
// The space of the second capsule: its inner segment is on the y axis, from -h2 to h2; the first one has its middle at c1 and the direction a.
static double gH1, gH2; static Vector3 gC, gAxis, gNear1, gNear2;
STUB("computeClosestPointBetweenTwoSegments") void nearestPair(const Vector3& a1, const Vector3& b1, const Vector3& a2, const Vector3& b2, Vector3& p, Vector3& q) {   // see M02
    vc_assert(eqv(a1, sub(gC, times(gAxis, gH1))), "the first segment starts at its lower end"); vc_assert(eqv(b1, add(gC, times(gAxis, gH1))), "the first segment ends at its upper end");
    vc_assert(eqv(a2, 0, -gH2, 0), "the second segment starts at its lower end"); vc_assert(eqv(b2, 0, gH2, 0), "the second segment ends at its upper end");
    p = gNear1; q = gNear2;
}
STUB("areParallelVectors") bool apart(const Vector3& u, const Vector3& v) {   // see M02: vectors whose angle has a sine above the tolerance are not parallel, however short they are
    vc_assert(eqv(u, times(gAxis, 2 * gH1)), "the first direction is that of the first segment"); vc_assert(eqv(v, 0, 2 * gH2, 0), "the second direction is that of the second segment");
    return false;
}
static double gR1, gR2;
static void anyCapsules() {
    CapsuleShape *s1 = anyCapsule(gC1), *s2 = anyCapsule(gC2);
    gH1 = s1->getHeight() / 2; gH2 = s2->getHeight() / 2; gR1 = s1->getRadius(); gR2 = s2->getRadius();
    vc_assume(gH1 > 0.0005); vc_assume(gH2 > 0.0005);
}
static Info& capsulesAt(const Transform& relative) {
    Info& o = setUp((CapsuleShape*)gC1.bytes, (CapsuleShape*)gC2.bytes);
    place(o.shape2ToWorldTransform, o.shape1ToWorldTransform, relative);
    gC = relative.getPosition(); gAxis = turned(relative.getOrientation(), Vector3(0, 1, 0));
    return o;
}
// A contact with the direction d (of length l) from the point p of the first inner segment to the point q of the second one
static void contactBetween(const Info& o, uint32_t i, const Vector3& p, const Vector3& q, const Vector3& d, double l, double r1, double r2) {
    const ContactPointInfo& k = o.contactPoints[i];
    vc_assert(eqv(times(k.normal, l), turned(gBase.getOrientation(), d)), "the normal goes from the first shape to the second one");
    vc_assert(eqv(times(sub(add(turned(gRelative.getOrientation(), k.localPoint1), gRelative.getPosition()), p), l), times(d, r1)), "the touching point on the first shape is its deepest point in the second one");
    vc_assert(eqv(times(sub(k.localPoint2, q), l), times(d, -r2)), "the touching point on the second shape is its deepest point in the first one");
}
HARNESS(capsule_capsule, "stubs=nearestPair,composed,apart") {
    anyCapsules();
    Info& o = capsulesAt(anyTransform("relative"));
    const double r1 = gR1, r2 = gR2;
    const double e = gAxis.x * gAxis.x + gAxis.z * gAxis.z, k = 4 * gH1 * gH2;
    vc_assume(e > 0.00001001);   // the square of the sine of the angle
    const Vector3 across = times(gAxis.cross(Vector3(0, 1, 0)), k);   // a direction across both segments
    const double len = across.length();
    vc_by(k > 0.0000001, "the segments have a length", gH1 > 0.0005, gH2 > 0.0005);
    vc_by(k * k * e > 1e-20, "the segments span an area", k > 0.0000001, e > 0.00001);
    vc_by(len > 1e-11, "the segments span an area", len >= 0, len * len == norm2(across), k * k * e > 1e-20, norm2(across) == k * k * e);
    if (vc_native()) {
        const Vector3 u = times(gAxis, 2 * gH1), v(0, 2 * gH2, 0), s = sub(gC, times(gAxis, gH1)), t(0, -gH2, 0);
        computeClosestPointBetweenTwoSegments(s, add(s, u), t, add(t, v), gNear1, gNear2);
    } else {
        gNear1 = anyVec("near1"); gNear2 = Vector3(0, vc_any_real("near2"), 0);
    }
    const Vector3 d = sub(gNear2, gNear1);
    const double d2 = norm2(d), l = d.length();
    vc_by(vc_implies(d2 < (r1 + r2) * (r1 + r2), l < r1 + r2), "the lengths compare as their squares do", l * l == d2, l >= 0, r1 + r2 > 0);
    vc_by(vc_implies(d2 > MACHINE_EPSILON, l > MACHINE_EPSILON), "a length above the tolerance", l * l == d2, l >= 0);
    if (vc_native() && std::fabs(l - r1 - r2) < 1e-6) return;   // rounding decides
    const bool r = gCC.p()->testCollision(*gBatch.p(), 1, 1, gAlloc);
    othersUntouched();
    vc_assert(r == o.isColliding, "the result says whether there was a collision");
    if (d2 < (r1 + r2) * (r1 + r2)) vc_assert(o.isColliding, "shapes that overlap collide"); else vc_assert(!o.isColliding, "shapes that do not overlap do not collide");
    vc_assert(o.nbContactPoints == (o.isColliding && o.reportContacts ? 1 : 0), "one contact if contacts are wanted");
    if (o.nbContactPoints == 1) {
        if (d2 > MACHINE_EPSILON) {
            contactBetween(o, 0, gNear1, gNear2, d, l, r1, r2);
            vc_assert(vc_eq(o.contactPoints[0].penetrationDepth, r1 + r2 - l) || vc_eq(o.contactPoints[0].penetrationDepth, MACHINE_EPSILON), "the depth is the sum of the radii less the distance");
        } else {
            contactBetween(o, 0, gNear1, gNear2, across, len, r1, r2);
            vc_assert(vc_eq(o.contactPoints[0].penetrationDepth, r1 + r2), "the depth is the sum of the radii");
        }
    }
}
// Axes that are exactly parallel: the axis of the first capsule is the y axis, or runs against it.
STUB("areParallelVectors") bool together(const Vector3& u, const Vector3& v) {
    vc_assert(eqv(u, times(gAxis, 2 * gH1)), "the first direction is that of the first segment"); vc_assert(eqv(v, 0, 2 * gH2, 0), "the second direction is that of the second segment");
    return true;
}
static double gLateral;
STUB("computePointToLineDistance") double lateral(const Vector3& a, const Vector3& b, const Vector3& c) {   // see M02
    vc_assert(eqv(a, sub(gC, times(gAxis, gH1))), "the line goes through the start of the first segment"); vc_assert(eqv(b, add(gC, times(gAxis, gH1))), "the line goes through the end of the first segment");
    vc_assert(vc_eq(c.x, 0), "the point is on the second axis"); vc_assert(vc_eq(c.z, 0), "the point is on the second axis");
    return gLateral;
}
static double gT1, gT2; static int gSide; static bool gFlip;
STUB("computePlaneSegmentIntersection") double crossing(const Vector3& a, const Vector3& b, double d, const Vector3& n) {   // see M02
    const double t = gSide++ == 0 ? gT1 : gT2, k = dot3(n, sub(b, a));
    vc_assert(vc_eq(d - dot3(n, a), t * k), "where the second axis crosses the planes at the ends of the first segment");
    vc_assert(vc_eq(k, (gFlip ? 4 : -4) * gH1 * gH2), "the segment crosses the plane");
    return t;
}
// the first capsule at c1, turned about the y axis (which is its own), runs side by side with the second one over some length
HARNESS(capsules_side_by_side, "stubs=nearestPair,composed,together,lateral,crossing") {
    const double s = vc_any_real("s"), c = vc_any_real("c");
    if (vc_native()) vc_assume(s != 0 || c != 0); else vc_assume(s * s + c * c == 1);
    const double len = vc_native() ? std::sqrt(s * s + c * c) : 1;
    anyCapsules();
    vc_assume(gH1 > 0.01); vc_assume(gH2 > 0.01);   // see computePlaneSegmentIntersection
    gT1 = vc_any_real("t1"); if (vc_native()) gT1 = std::fabs(gT1);
    gT2 = (gH1 + gH2) / gH2 - gT1;
    Info& o = capsulesAt(Transform(Vector3(vc_any_real("x"), gH1 + gH2 - 2 * gH2 * gT1, vc_any_real("z")), Quaternion(0, s / len, 0, c / len)));   // any height is of this form
    const double r1 = gR1, r2 = gR2, y = gC.y;
    vc_assume(gT1 > 0); vc_assume(gT2 > 0);   // one axis begins before the other ends
    const double low = y - gH1 < -gH2 ? -gH2 : y - gH1, high = y + gH1 > gH2 ? gH2 : y + gH1;   // where both segments run side by side
    if (y - gH1 < -gH2) vc_by(gT1 > 1, "the crossing of the lower end", gH2 > 0, y == gH1 + gH2 - 2 * gH2 * gT1, y - gH1 < -gH2);
    else vc_by(gT1 <= 1, "the crossing of the lower end", gH2 > 0, y == gH1 + gH2 - 2 * gH2 * gT1, y - gH1 >= -gH2);
    if (y + gH1 > gH2) vc_by(gT2 > 1, "the crossing of the upper end", gH2 > 0, y == gH1 + gH2 - 2 * gH2 * gT1, y + gH1 > gH2, gT2 * gH2 == gH1 + gH2 - gT1 * gH2);
    else vc_by(gT2 <= 1, "the crossing of the upper end", gH2 > 0, y == gH1 + gH2 - 2 * gH2 * gT1, y + gH1 <= gH2, gT2 * gH2 == gH1 + gH2 - gT1 * gH2);
    gLateral = Vector3(gC.x, 0, gC.z).length();
    if (vc_native() && (gLateral < 1e-6 || std::fabs(gLateral - r1 - r2) < 1e-6 || high - low < 1e-6)) return;   // rounding decides
    gSide = 0; gFlip = false;
    const bool r = gCC.p()->testCollision(*gBatch.p(), 1, 1, gAlloc);
    othersUntouched();
    vc_assert(r == o.isColliding, "the result says whether there was a collision");
    if (gLateral < r1 + r2) vc_assert(o.isColliding, "shapes that overlap collide"); else vc_assert(!o.isColliding, "shapes that do not overlap do not collide");
    vc_assert(o.nbContactPoints == (o.isColliding && o.reportContacts ? 2 : 0), "two contacts if contacts are wanted");
    if (o.nbContactPoints == 2) for (uint32_t i = 0; i < 2; i++) {
        const double h = i == 0 ? low : high;
        const Vector3 p(gC.x, h, gC.z), q(0, h, 0);
        if (gLateral > MACHINE_EPSILON) contactBetween(o, i, p, q, sub(q, p), gLateral, r1, r2);
        else contactBetween(o, i, q, q, Vector3(0, 0, -1), 1, r1, r2);
        vc_assert(vc_eq(o.contactPoints[i].penetrationDepth, r1 + r2 - gLateral), "the depth is the sum of the radii less the distance");
    }
}
// the first capsule begins where the second one ends, or above; it may be upside down
static void endToEnd(bool flip) {
    const double s = vc_any_real("s"), c = vc_any_real("c");
    if (vc_native()) vc_assume(s != 0 || c != 0); else vc_assume(s * s + c * c == 1);
    const double len = vc_native() ? std::sqrt(s * s + c * c) : 1;
    anyCapsules();
    vc_assume(gH1 > 0.01); vc_assume(gH2 > 0.01);   // see computePlaneSegmentIntersection
    const double g = vc_any_real("t") * (vc_native() ? 0.1 : 1), gap = vc_native() ? std::fabs(g) : g;
    vc_assume(gap >= 0);
    Info& o = capsulesAt(Transform(Vector3(vc_any_real("x"), gH1 + gH2 + gap, vc_any_real("z")), flip ? Quaternion(s / len, 0, c / len, 0) : Quaternion(0, s / len, 0, c / len)));
    const double r1 = gR1, r2 = gR2, y = gC.y;
    const double below = -gap / (2 * gH2);
    vc_by(below <= 0, "the segment is below the plane", gap >= 0, gH2 > 0, below * (2 * gH2) == -gap);
    gT1 = flip ? -(2 * gH1 + gap) / (2 * gH2) : below; gT2 = flip ? gap / (2 * gH2) + 1 : (gH1 + gH2) / gH2 - gT1;
    if (flip) vc_by(gT1 <= 0, "the segment is below the plane", gap >= 0, gH2 > 0, gH1 > 0, gT1 * (2 * gH2) == -(2 * gH1 + gap));
    const Vector3 flat(gC.x, 0, gC.z);
    gLateral = flat.length();
    gNear1 = Vector3(gC.x, y - gH1, gC.z); gNear2 = Vector3(0, gH2, 0);
    gSide = 0; gFlip = flip;
    const Vector3 d = sub(gNear2, gNear1);
    const double d2 = norm2(d), l = d.length();
    vc_by(vc_implies(d2 < (r1 + r2) * (r1 + r2), l < r1 + r2), "the lengths compare as their squares do", l * l == d2, l >= 0, r1 + r2 > 0);
    vc_by(vc_implies(d2 > MACHINE_EPSILON, l > MACHINE_EPSILON), "a length above the tolerance", l * l == d2, l >= 0);
    vc_by(vc_implies(gLateral >= r1 + r2, d2 >= (r1 + r2) * (r1 + r2)), "axes that are too far apart", gLateral >= 0, r1 + r2 > 0, d2 == gLateral * gLateral + gap * gap);
    const Vector3 far(gC.x, y + gH1, gC.z), e = sub(gNear2, far);   // the other end of the first segment
    const double el = e.length();
    vc_by(norm2(e) > 0.0001, "the other end is far away", gH1 > 0.01, gap >= 0, norm2(e) == gLateral * gLateral + (gap + 2 * gH1) * (gap + 2 * gH1));
    vc_by(el > 0.00001, "the other end is far away", el >= 0, el * el == norm2(e), norm2(e) > 0.0001);
    if (vc_native() && (l < 1e-6 || gLateral < 1e-6 || gap < 1e-6 || std::fabs(l - r1 - r2) < 1e-6)) return;   // rounding decides
    const bool r = gCC.p()->testCollision(*gBatch.p(), 1, 1, gAlloc);
    othersUntouched();
    vc_assert(r == o.isColliding, "the result says whether there was a collision");
    if (d2 < (r1 + r2) * (r1 + r2)) vc_assert(o.isColliding, "shapes that overlap collide"); else vc_assert(!o.isColliding, "shapes that do not overlap do not collide");
    vc_assert(o.nbContactPoints == (o.isColliding && o.reportContacts ? 1 : 0), "one contact if contacts are wanted");
    if (o.nbContactPoints == 1) {
        if (d2 > MACHINE_EPSILON) contactBetween(o, 0, gNear1, gNear2, d, l, r1, r2);
        else contactBetween(o, 0, gNear1, gNear2, e, el, r1, r2);
        vc_assert(vc_eq(o.contactPoints[0].penetrationDepth, d2 > MACHINE_EPSILON ? r1 + r2 - l : r1 + r2) || vc_eq(o.contactPoints[0].penetrationDepth, MACHINE_EPSILON), "the depth is the sum of the radii less the distance");
    }
}
HARNESS(capsules_end_to_end, "stubs=nearestPair,composed,together,lateral,crossing") { endToEnd(false); }
HARNESS(capsules_end_to_end_turned, "stubs=nearestPair,composed,together,lateral,crossing") { endToEnd(true); }
