// S01: the contact solver applies the impulses of sequential impulses: clamped, equal and opposite, with friction inside its limit
//! assume: a manifold has at most 4 contact points (MAX_CONTACT_POINTS_IN_MANIFOLD)
//! native: full
//! opts: nl
#include "world.h"
#include "engine/Entity.cpp"
#include "engine/Material.cpp"
#include "systems/ContactSolverSystem.cpp"
typedef ContactSolverSystem::ContactPointSolver Point;
typedef ContactSolverSystem::ContactManifoldSolver Manifold;
static VcRaw<ContactSolverSystem> gSolver;
static VcRaw<Manifold[2]> gManifold;
static VcRaw<Point[4]> gPoints;
static Manifold& manifold(uint32_t i) { return ((Manifold*)gManifold.bytes)[i]; }
static Point& point(uint32_t i) { return ((Point*)gPoints.bytes)[i]; }
static double gThreshold, DT;
static uint32_t b1, b2;
static RigidBodyComponents* RB;
// ---- maximum and minimum under a name
static double gMa[48], gMb[48], gMv[48]; static int gMn;
static double maxOf(double a, double b) {
    if (vc_native()) return a > b ? a : b;
    for (int i = 0; i < gMn; i++) if (vc_same(gMa[i], a) && vc_same(gMb[i], b)) return gMv[i];
    double v = vc_any_real("max");
    vc_assume(v >= a); vc_assume(v >= b); vc_assume(v == a || v == b);
    gMa[gMn] = a; gMb[gMn] = b; gMv[gMn++] = v;
    return v;
}
static double minOf(double a, double b) { return vc_native() ? (a < b ? a : b) : -maxOf(-a, -b); }
STUB("^(double const& )?std::max<double>\\(") const double* stub_max(const double* a, const double* b) { static double r[8]; static int n = 0; n = (n + 1) % 8; r[n] = maxOf(*a, *b); return &r[n]; }
STUB("^(double const& )?std::min<double>\\(") const double* stub_min(const double* a, const double* b) { static double r[8]; static int n = 0; n = (n + 1) % 8; r[n] = minOf(*a, *b); return &r[n]; }
static Vector3 mulV(const Vector3& a, const Vector3& b) { return Vector3(a.x * b.x, a.y * b.y, a.z * b.z); }
static Vector3 scaled(const Vector3& a, double s) { return Vector3(a.x * s, a.y * s, a.z * s); }
static Vector3 addV(const Vector3& a, const Vector3& b) { return Vector3(a.x + b.x, a.y + b.y, a.z + b.z); }
static Vector3 crossV(const Vector3& p, const Vector3& q) { return Vector3(p.y * q.z - p.z * q.y, p.z * q.x - p.x * q.z, p.x * q.y - p.y * q.x); }
static Vector3 matV(const Matrix3x3& m, const Vector3& v) { return Vector3(dot3(m[0], v), dot3(m[1], v), dot3(m[2], v)); }
static Matrix3x3 anyMat(const char* n) { Vector3 a = anyVec(n), b = anyVec(n), c = anyVec(n); return Matrix3x3(a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z); }
struct Motion { Vector3 v1, w1, v2, w2; };
static Motion motion() { Motion m; m.v1 = RB->mConstrainedLinearVelocities[b1]; m.w1 = RB->mConstrainedAngularVelocities[b1]; m.v2 = RB->mConstrainedLinearVelocities[b2]; m.w2 = RB->mConstrainedAngularVelocities[b2]; return m; }
static Motion correction() { Motion m; m.v1 = RB->mSplitLinearVelocities[b1]; m.w1 = RB->mSplitAngularVelocities[b1]; m.v2 = RB->mSplitLinearVelocities[b2]; m.w2 = RB->mSplitAngularVelocities[b2]; return m; }
static void sameMotion(const Motion& a, const Motion& b, const char* what) {
    vc_assert(eqv(a.v1, b.v1), what); vc_assert(eqv(a.w1, b.w1), what); vc_assert(eqv(a.v2, b.v2), what); vc_assert(eqv(a.w2, b.w2), what);
}
// ---- an arbitrary manifold between two different bodies
static void fillPoint(Point& p) {
    p.externalContact = nullptr;
    p.normal = anyVec("normal"); p.r1 = anyVec("r1"); p.r2 = anyVec("r2"); p.penetrationDepth = vc_any_real("depth"); p.restitutionBias = vc_any_real("restitution");
    p.penetrationImpulse = std::fabs(vc_any_real("impulse")); p.penetrationSplitImpulse = std::fabs(vc_any_real("split impulse")); p.inversePenetrationMass = vc_any_real("mass");
    p.i1TimesR1CrossN = anyVec("i1"); p.i2TimesR2CrossN = anyVec("i2"); p.isRestingContact = vc_any_bool("resting");
}
static void fillManifold(Manifold& m, uint32_t n) {
    m.externalContactManifold = nullptr;
    m.rigidBodyComponentIndexBody1 = b1; m.rigidBodyComponentIndexBody2 = b2;
    m.massInverseBody1 = vc_any_real("im1"); m.massInverseBody2 = vc_any_real("im2");
    m.linearLockAxisFactorBody1 = anyVec("L1"); m.linearLockAxisFactorBody2 = anyVec("L2"); m.angularLockAxisFactorBody1 = anyVec("A1"); m.angularLockAxisFactorBody2 = anyVec("A2");
    m.inverseInertiaTensorBody1 = anyMat("I1"); m.inverseInertiaTensorBody2 = anyMat("I2");
    m.frictionCoefficient = std::fabs(vc_any_real("friction"));
    m.normal = anyVec("N"); m.r1Friction = anyVec("rf1"); m.r2Friction = anyVec("rf2");
    m.r1CrossT1 = anyVec("r1t1"); m.r1CrossT2 = anyVec("r1t2"); m.r2CrossT1 = anyVec("r2t1"); m.r2CrossT2 = anyVec("r2t2");
    m.inverseFriction1Mass = vc_any_real("mass t1"); m.inverseFriction2Mass = vc_any_real("mass t2"); m.inverseTwistFrictionMass = vc_any_real("mass twist");
    m.frictionVector1 = anyVec("t1"); m.frictionVector2 = anyVec("t2"); m.oldFrictionVector1 = anyVec("old t1"); m.oldFrictionVector2 = anyVec("old t2");
    m.friction1Impulse = vc_any_real("f1"); m.friction2Impulse = vc_any_real("f2"); m.frictionTwistImpulse = vc_any_real("ft");
    m.nbContacts = (int8)n;
}
static ContactSolverSystem* solver(bool split) {
    anyWorld();
    RB = &gWorld->mRigidBodyComponents; gMn = 0;
    b1 = vc_any_u32("body 1"); b2 = vc_any_u32("body 2");
    if (vc_native()) { vc_assume(gNB > 1); b1 %= gNB; b2 %= gNB; }
    vc_assume(b1 < gNB); vc_assume(b2 < gNB); vc_assume(b1 != b2);
    DT = vc_any_real("dt"); if (vc_native()) DT = std::fabs(DT) + 0.01;
    vc_assume(DT > 0);
    ContactSolverSystem* s = new (gSolver.bytes) ContactSolverSystem(gWorld->mMemoryManager, *gWorld, gWorld->mIslands, gWorld->mBodyComponents, *RB, gWorld->mCollidersComponents, gThreshold);
    s->mTimeStep = DT; s->setIsSplitImpulseActive(split);
    s->mContactConstraints = &manifold(0); s->mContactPoints = (Point*)gPoints.bytes; s->mNbContactManifolds = 1;
    return s;
}
static double along(const Motion& m, const Vector3& r1, const Vector3& r2, const Vector3& d) {
    Vector3 c2 = crossV(m.w2, r2), c1 = crossV(m.w1, r1);
    return (m.v2.x + c2.x - m.v1.x - c1.x) * d.x + (m.v2.y + c2.y - m.v1.y - c1.y) * d.y + (m.v2.z + c2.z - m.v1.z - c1.z) * d.z;
}
// opposite impulses of size l along d; a1, a2: change of angular velocity per unit
static void push(Motion& m, const Manifold& c, double l, const Vector3& d, const Vector3& a1, const Vector3& a2) {
    m.v1 = addV(m.v1, scaled(mulV(c.linearLockAxisFactorBody1, d), -c.massInverseBody1 * l)); m.w1 = addV(m.w1, scaled(mulV(c.angularLockAxisFactorBody1, a1), -l));
    m.v2 = addV(m.v2, scaled(mulV(c.linearLockAxisFactorBody2, d), c.massInverseBody2 * l)); m.w2 = addV(m.w2, scaled(mulV(c.angularLockAxisFactorBody2, a2), l));
}
static const Vector3 ZERO(0, 0, 0);
static double friction(Motion& m, const Manifold& c, double old, double limit, double mass, double jv, const Vector3& d, const Vector3& rt1, const Vector3& rt2) {
    double n = maxOf(-limit, minOf(old - jv * mass, limit));
    push(m, c, n - old, d, matV(c.inverseInertiaTensorBody1, rt1), matV(c.inverseInertiaTensorBody2, rt2));
    return n;
}
static double pointStep(Motion& m, const Manifold& c, const Point& p, double bias) {
    const double l = maxOf(p.penetrationImpulse - (along(m, p.r1, p.r2, p.normal) + p.restitutionBias + bias) * p.inversePenetrationMass, 0);
    push(m, c, l - p.penetrationImpulse, p.normal, p.i1TimesR1CrossN, p.i2TimesR2CrossN);
    return l;
}
static void frictionSteps(Motion& m, const Manifold& c, double limit, double* f) {
    f[0] = friction(m, c, c.friction1Impulse, limit, c.inverseFriction1Mass, along(m, c.r1Friction, c.r2Friction, c.frictionVector1), c.frictionVector1, c.r1CrossT1, c.r2CrossT1);
    f[1] = friction(m, c, c.friction2Impulse, limit, c.inverseFriction2Mass, along(m, c.r1Friction, c.r2Friction, c.frictionVector2), c.frictionVector2, c.r1CrossT2, c.r2CrossT2);
    f[2] = friction(m, c, c.frictionTwistImpulse, limit, c.inverseTwistFrictionMass, (m.w2.x - m.w1.x) * c.normal.x + (m.w2.y - m.w1.y) * c.normal.y + (m.w2.z - m.w1.z) * c.normal.z, ZERO, c.normal, c.normal);
}
#define SOLVER "stubs=stub_index,stub_contains,stub_max,stub_min"
static void solveContract(uint32_t n, bool split) {
    ContactSolverSystem* s = solver(split);
    fillManifold(manifold(0), n);
    const Manifold& c = manifold(0);
    for (uint32_t i = 0; i < n; i++) { fillPoint(point(i)); vc_assume(point(i).penetrationImpulse >= 0); }
    vc_assume(c.frictionCoefficient >= 0);
    Motion m = motion(), k = correction();
    double imp[4], simp[4], sum = 0, f[3], beta = 0.2;
    for (uint32_t i = 0; i < n; i++) {
        const Point& p = point(i);
        const double depth = p.penetrationDepth;
        const bool deep = vc_split(depth > 0.01);
        const double bias = deep ? -(beta / DT) * (vc_native() ? (double)(float)(depth - 0.01) : depth - 0.01) : 0;
        imp[i] = pointStep(m, c, p, split ? 0 : bias);
        sum += imp[i];
        simp[i] = p.penetrationSplitImpulse;
        if (split) {
            simp[i] = maxOf(p.penetrationSplitImpulse - (along(k, p.r1, p.r2, p.normal) + bias) * p.inversePenetrationMass, 0);
            push(k, c, simp[i] - p.penetrationSplitImpulse, p.normal, p.i1TimesR1CrossN, p.i2TimesR2CrossN);
        }
    }
    frictionSteps(m, c, c.frictionCoefficient * sum, f);
    s->solve();
    for (uint32_t i = 0; i < n; i++) {
        vc_assert(vc_le(0, point(i).penetrationImpulse), "contacts only push");
        vc_assert(vc_eq(point(i).penetrationImpulse, imp[i]), "the impulse of a contact point stops its approach");
        vc_assert(vc_eq(point(i).penetrationSplitImpulse, simp[i]), "the correction impulse removes the penetration");
    }
    vc_assert(vc_eq(c.friction1Impulse, f[0]), "the first friction impulse stops the sliding within its limit");
    vc_assert(vc_eq(c.friction2Impulse, f[1]), "the second friction impulse stops the sliding within its limit");
    vc_assert(vc_eq(c.frictionTwistImpulse, f[2]), "the twist impulse stops the spinning within its limit");
    sameMotion(motion(), m, "both bodies get the opposite impulses");
    sameMotion(correction(), k, "both bodies get the opposite correction impulses");
}
HARNESS(solve_1, SOLVER) { solveContract(1, false); }
HARNESS(solve_1_split, SOLVER) { solveContract(1, true); }
HARNESS(solve_2, SOLVER) { solveContract(2, false); }
HARNESS(solve_2_split, SOLVER) { solveContract(2, true); }
HARNESS(solve_4_split, SOLVER) { solveContract(4, true); }
HARNESS(solve_manifolds, SOLVER) {          // the points of the second manifold follow those of the first
    ContactSolverSystem* s = solver(false);
    s->mNbContactManifolds = 2;
    Motion m = motion(); double imp[2], f[2][3];
    for (uint32_t k = 0; k < 2; k++) {
        fillManifold(manifold(k), 1); fillPoint(point(k));
        vc_assume(point(k).penetrationDepth <= 0.01);
    }
    for (uint32_t k = 0; k < 2; k++) { imp[k] = pointStep(m, manifold(k), point(k), 0); frictionSteps(m, manifold(k), manifold(k).frictionCoefficient * imp[k], f[k]); }
    s->solve();
    for (uint32_t k = 0; k < 2; k++) {
        vc_assert(vc_eq(point(k).penetrationImpulse, imp[k]), "each manifold is solved with its own contact points");
        vc_assert(vc_eq(manifold(k).friction1Impulse, f[k][0]), "each manifold has its own first friction impulse");
        vc_assert(vc_eq(manifold(k).friction2Impulse, f[k][1]), "each manifold has its own second friction impulse");
        vc_assert(vc_eq(manifold(k).frictionTwistImpulse, f[k][2]), "each manifold has its own twist impulse");
    }
    sameMotion(motion(), m, "the manifolds are solved one after the other");
}
// ------------------------------------------------------------------ warm starting
static void pushTangent(Motion& m, const Manifold& c, double l, const Vector3& d, const Vector3& rt1, const Vector3& rt2) { push(m, c, l, d, matV(c.inverseInertiaTensorBody1, rt1), matV(c.inverseInertiaTensorBody2, rt2)); }
static void warmContract(uint32_t k, uint32_t n) {
    ContactSolverSystem* s = solver(false);
    s->mNbContactManifolds = k;
    Motion m = motion(); double imp[4], f[2][3];
    for (uint32_t j = 0; j < k; j++) {
        Manifold& c = manifold(j);
        fillManifold(c, n);
        bool rests = false;
        for (uint32_t i = j * n; i < (j + 1) * n; i++) {
            Point& p = point(i);
            fillPoint(p);
            imp[i] = 0;
            if (vc_split(p.isRestingContact)) { rests = true; imp[i] = p.penetrationImpulse; push(m, c, imp[i], p.normal, p.i1TimesR1CrossN, p.i2TimesR2CrossN); }
        }
        f[j][0] = f[j][1] = f[j][2] = 0;
        if (rests) {
            const Vector3 old = addV(scaled(c.oldFrictionVector1, c.friction1Impulse), scaled(c.oldFrictionVector2, c.friction2Impulse));
            f[j][0] = dot3(old, c.frictionVector1); f[j][1] = dot3(old, c.frictionVector2); f[j][2] = c.frictionTwistImpulse;
            pushTangent(m, c, f[j][0], c.frictionVector1, c.r1CrossT1, c.r2CrossT1);
            pushTangent(m, c, f[j][1], c.frictionVector2, c.r1CrossT2, c.r2CrossT2);
            pushTangent(m, c, f[j][2], ZERO, c.normal, c.normal);
        }
    }
    s->warmStart();
    for (uint32_t j = 0; j < k; j++) {
        for (uint32_t i = j * n; i < (j + 1) * n; i++) vc_assert(vc_eq(point(i).penetrationImpulse, imp[i]), "a new contact point starts without impulse, another one with that of the last step");
        vc_assert(vc_eq(manifold(j).friction1Impulse, f[j][0]), "the friction impulse of the last step along the first direction");
        vc_assert(vc_eq(manifold(j).friction2Impulse, f[j][1]), "the friction impulse of the last step along the second direction");
        vc_assert(vc_eq(manifold(j).frictionTwistImpulse, f[j][2]), "the twist impulse of the last step");
    }
    sameMotion(motion(), m, "both bodies get the opposite impulses of the last step, once");
}
HARNESS(warm_1, SOLVER) { warmContract(1, 1); }
HARNESS(warm_4, SOLVER) { warmContract(1, 4); }
HARNESS(warm_manifolds, SOLVER) { warmContract(2, 1); }
// ------------------------------------------------------------------ the impulses are kept for the next step
static VcRaw<ContactManifold[2]> gOutside;
static VcRaw<ContactPoint[5]> gOutsidePoints;
static ContactManifold& outside(uint32_t i) { return ((ContactManifold*)gOutside.bytes)[i]; }
static ContactPoint& outsidePoint(uint32_t i) { return ((ContactPoint*)gOutsidePoints.bytes)[i]; }
HARNESS(store, SOLVER) {
    ContactSolverSystem* s = solver(false);
    s->mNbContactManifolds = 2;
    for (uint32_t k = 0; k < 2; k++) { fillManifold(manifold(k), 1 + k); manifold(k).externalContactManifold = &outside(1 - k); }
    for (uint32_t i = 0; i < 3; i++) { fillPoint(point(i)); point(i).externalContact = &outsidePoint(2 - i); }
    s->storeImpulses();
    for (uint32_t i = 0; i < 3; i++) vc_assert(vc_eq(outsidePoint(2 - i).mPenetrationImpulse, point(i).penetrationImpulse), "the contact point keeps its impulse");
    for (uint32_t k = 0; k < 2; k++) {
        const ContactManifold& o = outside(1 - k); const Manifold& c = manifold(k);
        vc_assert(vc_eq(o.frictionImpulse1, c.friction1Impulse), "the manifold keeps its first friction impulse");
        vc_assert(vc_eq(o.frictionImpulse2, c.friction2Impulse), "the manifold keeps its second friction impulse");
        vc_assert(vc_eq(o.frictionTwistImpulse, c.frictionTwistImpulse), "the manifold keeps its twist impulse");
        vc_assert(eqv(o.frictionVector1, c.frictionVector1), "the manifold keeps its first friction direction");
        vc_assert(eqv(o.frictionVector2, c.frictionVector2), "the manifold keeps its second friction direction");
    }
}
// ------------------------------------------------------------------ the friction directions
static Vector3 gOrthogonalOf, gOrthogonal;
// contract of vector_unit (M01)
STUB("^reactphysics3d::Vector3::getOneUnitOrthogonalVector\\(") Vector3 stub_orthogonal(const Vector3* v) {
    Vector3 r = anyVec("orthogonal");
    vc_assume(dot3(r, *v) == 0); vc_assume(norm2(r) == 1);
    gOrthogonalOf = *v; gOrthogonal = r;
    return r;
}
HARNESS(friction_directions, "stubs=stub_index,stub_contains,stub_max,stub_min,stub_orthogonal") {
    ContactSolverSystem* s = solver(false);
    Manifold& c = manifold(0);
    fillManifold(c, 1);
    if (vc_native()) c.normal = c.normal.getUnit();
    vc_assume(vc_eq(norm2(c.normal), 1));
    const Vector3 dv = anyVec("dv"), n = c.normal;
    const double a = dot3(dv, n);
    const Vector3 t(dv.x - a * n.x, dv.y - a * n.y, dv.z - a * n.z);
    s->computeFrictionVectors(dv, c);
    const double l = t.length();
    const Vector3 t1 = c.frictionVector1, t2 = c.frictionVector2;
    if (l > MACHINE_EPSILON) {
        vc_assert(eqv(scaled(t1, l), t), "the first direction is that of the sliding");
        vc_assert(vc_eq(dot3(t, n), a * (1 - norm2(n))), "the sliding is tangential");        // the normal has length one
        vc_assert(vc_eq(norm2(t1) * l * l, norm2(t)), "the first direction has length one");    // l is the length of t
    } else {
        vc_assert(vc_eq(dot3(t1, n), 0), "the first direction is orthogonal to the normal");
        vc_assert(vc_eq(norm2(t1), 1), "the first direction has length one");
    }
    vc_assert(eqv(t2, crossV(n, t1)), "the second direction is orthogonal to the normal and the first one");
}
// ------------------------------------------------------------------ set-up of a manifold
static Vector3 gNormIn, gNormOut, gTanIn;
STUB("^reactphysics3d::Vector3::normalize\\(") void stub_normalize(Vector3* v) { gNormIn = *v; gNormOut = anyVec("unit"); *v = gNormOut; }
STUB("^reactphysics3d::ContactSolverSystem::computeFrictionVectors\\(") void stub_tangents(const ContactSolverSystem*, const Vector3* dv, Manifold* c) { gTanIn = *dv; c->frictionVector1 = anyVec("t1"); c->frictionVector2 = anyVec("t2"); }
static VcRaw<Islands> gIslands; static VcRaw<Array<ContactManifold>> gOutArray; static VcRaw<Array<ContactPoint>> gOutPoints;
static uint32_t gOne[1], gFirst[1], gCount[1];
static VcRaw<Material[1]> gMaterialRaw;
static double apparent(const Manifold& c, const Vector3& ra, const Vector3& rb, const Vector3& d) {
    return c.massInverseBody1 + c.massInverseBody2 + dot3(crossV(matV(c.inverseInertiaTensorBody1, crossV(ra, d)), ra), d) + dot3(crossV(matV(c.inverseInertiaTensorBody2, crossV(rb, d)), rb), d);
}
static void inverseOf(double inv, double mass, const char* what) {
    if (mass > 0) vc_assert(vc_eq(inv * mass, 1), what); else vc_assert(vc_eq(inv, 0), what);
}
static Vector3 atPoint(const Transform& t, const Vector3& p) { return addV(turned(t.getOrientation(), p), t.getPosition()); }
static void initContract(uint32_t n) {
    ContactSolverSystem* s = solver(false);
    ColliderComponents& C = gWorld->mCollidersComponents;
    Entity e1(0, 0), e2(0, 0), d1(0, 0), d2(0, 0);
    e1.id = vc_any_u32("entity 1"); e2.id = vc_any_u32("entity 2"); d1.id = vc_any_u32("collider 1"); d2.id = vc_any_u32("collider 2");
    uint32_t k1, k2;
    if (vc_native()) {
        e1 = RB->mBodiesEntities[b1]; e2 = RB->mBodiesEntities[b2];
        vc_assume(gNC > 0); k1 = vc_any_u32("k1") % gNC; k2 = vc_any_u32("k2") % gNC; d1 = C.mCollidersEntities[k1]; d2 = C.mCollidersEntities[k2];
        for (uint64_t i = 0; i < gNC; i++) { C.mMaterials[i].mFrictionCoefficientSqrt = std::fabs(vc_any_real("mu")); C.mMaterials[i].mBounciness = std::fabs(vc_any_real("bounce")); }
    } else {
        const uint64_t i1 = indexOf(1, e1.id), i2 = indexOf(1, e2.id), i3 = indexOf(3, d1.id), i4 = indexOf(3, d2.id);
        vc_assume(i1 < gNB); vc_assume(i2 < gNB); vc_assume(i1 != i2); vc_assume(i3 < gNC); vc_assume(i4 < gNC);
        b1 = (uint32_t)i1; b2 = (uint32_t)i2; k1 = (uint32_t)i3; k2 = (uint32_t)i4;
        C.mMaterials = vc_array<Material>(gNC, "material"); Material mat(vc_any_real("x"), 0, 1); vc_layout_like(C.mMaterials, &mat);
    }
    Islands* isl = gIslands.p();
    gOne[0] = 1; gFirst[0] = 1; gCount[0] = 1;
    isl->contactManifoldsIndices.mBuffer = gFirst; isl->contactManifoldsIndices.mSize = 1; isl->nbContactManifolds.mBuffer = gCount; isl->nbContactManifolds.mSize = 1;
    isl->nbBodiesInIsland.mBuffer = gOne; isl->nbBodiesInIsland.mSize = 1;
    ContactSolverSystem* s2 = new (gSolver.bytes) ContactSolverSystem(gWorld->mMemoryManager, *gWorld, *isl, gWorld->mBodyComponents, *RB, C, gThreshold);
    s2->mTimeStep = DT; s2->mContactConstraints = &manifold(0); s2->mContactPoints = (Point*)gPoints.bytes; s2->mNbContactManifolds = 0; s2->mNbContactPoints = 0;
    gOutArray.p()->mBuffer = &outside(0); gOutArray.p()->mSize = 2; gOutPoints.p()->mBuffer = &outsidePoint(0); gOutPoints.p()->mSize = 5;
    s2->mAllContactManifolds = gOutArray.p(); s2->mAllContactPoints = gOutPoints.p();
    gThreshold = vc_any_real("threshold");
    ContactManifold& o = outside(1);
    o.contactPointsIndex = 1; o.bodyEntity1 = e1; o.bodyEntity2 = e2; o.colliderEntity1 = d1; o.colliderEntity2 = d2; o.nbContactPoints = (uint8)n;
    o.frictionVector1 = anyVec("ot1"); o.frictionVector2 = anyVec("ot2"); o.frictionImpulse1 = vc_any_real("of1"); o.frictionImpulse2 = vc_any_real("of2"); o.frictionTwistImpulse = vc_any_real("oft");
    bool rest[4];
    for (uint32_t i = 0; i < n; i++) {
        ContactPoint& p = outsidePoint(1 + i);
        p.mNormal = anyVec("pn"); p.mPenetrationDepth = vc_any_real("depth"); p.mLocalPointOnShape1 = anyVec("lp1"); p.mLocalPointOnShape2 = anyVec("lp2");
        p.mIsRestingContact = rest[i] = vc_any_bool("rest"); p.mPenetrationImpulse = vc_any_real("impulse");
    }
    if (vc_native()) { Vector3 all(0, 0, 0); for (uint32_t i = 0; i < n; i++) all = addV(all, outsidePoint(1 + i).mNormal); vc_assume(norm2(all) > 0.01); }
    const Transform T1 = C.mLocalToWorldTransforms[k1], T2 = C.mLocalToWorldTransforms[k2];
    const Vector3 x1 = RB->mCentersOfMassWorld[b1], x2 = RB->mCentersOfMassWorld[b2];
    Motion m; m.v1 = RB->mLinearVelocities[b1]; m.w1 = RB->mAngularVelocities[b1]; m.v2 = RB->mLinearVelocities[b2]; m.w2 = RB->mAngularVelocities[b2];
    s2->initializeForIsland(0);
    const Manifold& c = manifold(0);
    vc_assert(s2->mNbContactManifolds == 1, "one manifold set up"); vc_assert(s2->mNbContactPoints == n, "all its points set up"); vc_assert(c.nbContacts == (int8)n, "number of points");
    vc_assert(c.externalContactManifold == &o, "the manifold knows its origin");
    vc_assert(c.rigidBodyComponentIndexBody1 == b1, "first body"); vc_assert(c.rigidBodyComponentIndexBody2 == b2, "second body");
    vc_assert(vc_eq(c.massInverseBody1, RB->mInverseMasses[b1]), "mass of the first body"); vc_assert(vc_eq(c.massInverseBody2, RB->mInverseMasses[b2]), "mass of the second body");
    vc_assert(eqv(c.linearLockAxisFactorBody1, RB->mLinearLockAxisFactors[b1]), "locked axes of the first body"); vc_assert(eqv(c.linearLockAxisFactorBody2, RB->mLinearLockAxisFactors[b2]), "locked axes of the second body");
    vc_assert(eqv(c.angularLockAxisFactorBody1, RB->mAngularLockAxisFactors[b1]), "locked axes of the first body"); vc_assert(eqv(c.angularLockAxisFactorBody2, RB->mAngularLockAxisFactors[b2]), "locked axes of the second body");
    for (int i = 0; i < 3; i++) { vc_assert(eqv(c.inverseInertiaTensorBody1[i], RB->mInverseInertiaTensorsWorld[b1][i]), "inertia of the first body"); vc_assert(eqv(c.inverseInertiaTensorBody2[i], RB->mInverseInertiaTensorsWorld[b2][i]), "inertia of the second body"); }
    vc_assert(vc_eq(c.frictionCoefficient, C.mMaterials[k1].mFrictionCoefficientSqrt * C.mMaterials[k2].mFrictionCoefficientSqrt), "geometric mean of the friction coefficients");
    vc_assert(vc_eq(c.friction1Impulse, o.frictionImpulse1), "first friction impulse of the last step"); vc_assert(vc_eq(c.friction2Impulse, o.frictionImpulse2), "second friction impulse of the last step"); vc_assert(vc_eq(c.frictionTwistImpulse, o.frictionTwistImpulse), "twist impulse of the last step");
    vc_assert(eqv(c.oldFrictionVector1, o.frictionVector1), "first friction direction of the last step"); vc_assert(eqv(c.oldFrictionVector2, o.frictionVector2), "second friction direction of the last step");
    Vector3 sum(0, 0, 0), mid1(0, 0, 0), mid2(0, 0, 0);
    const double e1m = C.mMaterials[k1].mBounciness, e2m = C.mMaterials[k2].mBounciness;
    const double e = vc_split(e1m > e2m) ? e1m : e2m;
    for (uint32_t i = 0; i < n; i++) {
        const Point& p = point(i); const ContactPoint& q = outsidePoint(1 + i);
        const Vector3 q1 = atPoint(T1, q.mLocalPointOnShape1), q2 = atPoint(T2, q.mLocalPointOnShape2);
        vc_assert(p.externalContact == &q, "the point knows its origin");
        vc_assert(eqv(p.normal, q.mNormal), "normal of the point");
        vc_assert(eqv(addV(p.r1, x1), q1), "arm of the first body"); vc_assert(eqv(addV(p.r2, x2), q2), "arm of the second body");
        vc_assert(vc_eq(p.penetrationDepth, q.mPenetrationDepth), "penetration depth"); vc_assert(p.isRestingContact == rest[i], "a point that was there in the last step is warm started");
        vc_assert(q.mIsRestingContact, "the point has been there in this step");
        vc_assert(vc_eq(p.penetrationImpulse, q.mPenetrationImpulse), "impulse of the last step"); vc_assert(vc_eq(p.penetrationSplitImpulse, 0), "no correction impulse yet");
        vc_assert(eqv(p.i1TimesR1CrossN, matV(c.inverseInertiaTensorBody1, crossV(p.r1, p.normal))), "turning of the first body"); vc_assert(eqv(p.i2TimesR2CrossN, matV(c.inverseInertiaTensorBody2, crossV(p.r2, p.normal))), "turning of the second body");
        if (n == 1 || i == 1) {
        inverseOf(p.inversePenetrationMass, apparent(c, p.r1, p.r2, p.normal), "apparent mass along the normal");
        const double vn = along(m, p.r1, p.r2, p.normal);
        if (vn < -gThreshold) vc_assert(vc_eq(p.restitutionBias, e * vn), "the bodies bounce off with the larger bounciness"); else vc_assert(vc_eq(p.restitutionBias, 0), "a slow contact does not bounce");
        }
        sum = addV(sum, q.mNormal); mid1 = addV(mid1, q1); mid2 = addV(mid2, q2);
    }
    if (!vc_native()) vc_assert(eqv(gNormIn, sum), "mean normal");
    vc_assert(eqv(c.normal, vc_native() ? sum.getUnit() : gNormOut), "the mean normal has length one");
    vc_assert(eqv(scaled(addV(c.r1Friction, x1), n), mid1), "friction acts in the middle of the points on the first body"); vc_assert(eqv(scaled(addV(c.r2Friction, x2), n), mid2), "friction acts in the middle of the points on the second body");
    if (!vc_native()) {
        const Vector3 cc1 = crossV(m.w1, c.r1Friction), cc2 = crossV(m.w2, c.r2Friction);
        vc_assert(eqv(gTanIn, m.v2.x + cc2.x - m.v1.x - cc1.x, m.v2.y + cc2.y - m.v1.y - cc1.y, m.v2.z + cc2.z - m.v1.z - cc1.z), "velocity of the sliding");
    }
    vc_assert(eqv(c.r1CrossT1, crossV(c.r1Friction, c.frictionVector1)), "moment of the first friction impulse"); vc_assert(eqv(c.r1CrossT2, crossV(c.r1Friction, c.frictionVector2)), "moment of the second friction impulse");
    vc_assert(eqv(c.r2CrossT1, crossV(c.r2Friction, c.frictionVector1)), "moment of the first friction impulse"); vc_assert(eqv(c.r2CrossT2, crossV(c.r2Friction, c.frictionVector2)), "moment of the second friction impulse");
    if (n > 1) return;
    inverseOf(c.inverseFriction1Mass, apparent(c, c.r1Friction, c.r2Friction, c.frictionVector1), "apparent mass along the first direction");
    inverseOf(c.inverseFriction2Mass, apparent(c, c.r1Friction, c.r2Friction, c.frictionVector2), "apparent mass along the second direction");
    inverseOf(c.inverseTwistFrictionMass, dot3(c.normal, matV(c.inverseInertiaTensorBody1, c.normal)) + dot3(c.normal, matV(c.inverseInertiaTensorBody2, c.normal)), "apparent inertia about the normal");
}
#define SETUP "stubs=stub_index,stub_contains,stub_normalize,stub_tangents"
HARNESS(setup_1, SETUP) { initContract(1); }
HARNESS(setup_2, SETUP) { initContract(2); }
