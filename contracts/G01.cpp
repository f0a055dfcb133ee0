// G01: one step of the dynamics moves every body as its velocity, forces, gravity, damping and locked axes say
//! assume: the map from entities to component indices is a function inverse to the array of entities (property C03/D01)
//! native: full
#include "world.h"
#include "systems/DynamicsSystem.cpp"
static bool gGravityOn; static Vector3 gGravity;
static VcRaw<DynamicsSystem> gDyn;
static uint64_t U;                       // an arbitrary body
static double DT;
static RigidBodyComponents* RB;
static Vector3 v0, w0, oldCv, oldCw;
static DynamicsSystem* dynamics() {
    anyWorld();
    RB = &gWorld->mRigidBodyComponents;
    gGravityOn = vc_any_bool("gravity"); gGravity = anyVec("gravity");
    U = vc_any_u64("body"); if (vc_native()) U %= gNB;
    vc_assume(U < gNB);
    DT = vc_any_real("dt"); if (vc_native()) DT = std::fabs(DT) + 0.001;
    vc_assume(DT > 0);
    return new (gDyn.bytes) DynamicsSystem(*gWorld, gWorld->mBodyComponents, gWorld->mRigidBodyComponents, gWorld->mTransformComponents, gWorld->mCollidersComponents, gGravityOn, gGravity);
}
static Vector3 linAcc, angAcc;
INV bool reset_inv(uint64_t i) { return vc_forall(0, i, [&](uint64_t j) { return vc_and(zeroV(RB->mSplitLinearVelocities[j]), zeroV(RB->mSplitAngularVelocities[j])); }); }
HARNESS(reset_split, "stubs=stub_index,stub_contains;invs=reset_inv") {
    DynamicsSystem* d = dynamics();
    d->resetSplitVelocities();
    if (U < RB->mDisabledStartIndex) { vc_assert(zeroV(RB->mSplitLinearVelocities[U]), "the split velocity is zero"); vc_assert(zeroV(RB->mSplitAngularVelocities[U]), "the split angular velocity is zero"); }
}
// ---- velocities
static bool gPhaseGravity;
static Vector3 vF, wT, vG;               // after forces, after gravity
INV bool force_inv(uint64_t i) {
    return vc_implies(U < i, vc_and(sameV(RB->mConstrainedLinearVelocities[U], vF), sameV(RB->mConstrainedAngularVelocities[U], wT)));
}
INV bool gravity_inv(uint64_t i) {
    if (U >= RB->mDisabledStartIndex) return true;
    return U < i ? sameV(RB->mConstrainedLinearVelocities[U], vG) : sameV(RB->mConstrainedLinearVelocities[U], vF);
}
static double kL, kA;
INV bool damping_inv(uint64_t i) {
    if (U >= RB->mDisabledStartIndex) return true;
    const Vector3& v = RB->mConstrainedLinearVelocities[U]; const Vector3& w = RB->mConstrainedAngularVelocities[U];
    return U < i ? vc_and(sameV(v, Vector3(vG.x * kL, vG.y * kL, vG.z * kL)), sameV(w, Vector3(wT.x * kA, wT.y * kA, wT.z * kA))) : vc_and(sameV(v, vG), sameV(w, wT));
}
HARNESS(velocities, "stubs=stub_index,stub_contains;invs=reset_inv,force_inv,gravity_inv,damping_inv") {
    DynamicsSystem* d = dynamics();
    const Vector3 v = RB->mLinearVelocities[U], w = RB->mAngularVelocities[U], F = RB->mExternalForces[U], T = RB->mExternalTorques[U];
    const Vector3 L = RB->mLinearLockAxisFactors[U], A = RB->mAngularLockAxisFactors[U], cv = RB->mConstrainedLinearVelocities[U], cw = RB->mConstrainedAngularVelocities[U];
    const Matrix3x3 I = RB->mInverseInertiaTensorsWorld[U];
    const double im = RB->mInverseMasses[U], m = RB->mMasses[U], ld = RB->mLinearDampings[U], ad = RB->mAngularDampings[U];
    const bool g = vc_split(RB->mIsGravityEnabled[U] && gGravityOn);
    vc_assume(ld >= 0); vc_assume(ad >= 0);
    const double s = DT * im, sg = g ? DT * im * m : 0;
    vF = Vector3(v.x + s * L.x * F.x, v.y + s * L.y * F.y, v.z + s * L.z * F.z);
    vG = Vector3(vF.x + sg * L.x * gGravity.x, vF.y + sg * L.y * gGravity.y, vF.z + sg * L.z * gGravity.z);
    wT = Vector3(w.x + DT * A.x * (I[0].x * T.x + I[0].y * T.y + I[0].z * T.z), w.y + DT * A.y * (I[1].x * T.x + I[1].y * T.y + I[1].z * T.z),
                 w.z + DT * A.z * (I[2].x * T.x + I[2].y * T.y + I[2].z * T.z));
    kL = 1 / (1 + ld * DT); kA = 1 / (1 + ad * DT);
    d->integrateRigidBodiesVelocities(DT);
    vc_assert(eqv(RB->mLinearVelocities[U], v) && eqv(RB->mAngularVelocities[U], w), "the velocities themselves are not changed before the constraints are solved");
    vc_assert(eqv(RB->mExternalForces[U], F) && eqv(RB->mExternalTorques[U], T), "the applied forces are kept");
    const Vector3 rv = RB->mConstrainedLinearVelocities[U], rw = RB->mConstrainedAngularVelocities[U];
    if (U >= RB->mDisabledStartIndex) return;
    vc_assert(eqv(rv * (1 + ld * DT), vG), "the linear velocity gains force, gravity and damping");
    vc_assert(eqv(rw * (1 + ad * DT), wT), "the angular velocity gains torque and damping");
    vc_assert(zeroV(RB->mSplitLinearVelocities[U]) && zeroV(RB->mSplitAngularVelocities[U]), "the position correction velocities start at zero");
}
// ---- positions
static Vector3 newPos; static Quaternion newQ;
INV bool positions_inv(uint64_t i) { return vc_implies(U < i, vc_and(sameV(RB->mConstrainedPositions[U], newPos), sameQ(RB->mConstrainedOrientations[U], newQ))); }
HARNESS(positions, "stubs=stub_index,stub_contains;invs=positions_inv") {
    DynamicsSystem* d = dynamics();
    const bool split = vc_split(vc_any_bool("split"));
    const double k = split ? 1 : 0;
    const Vector3 c = RB->mCentersOfMassWorld[U], cv = RB->mConstrainedLinearVelocities[U], cw = RB->mConstrainedAngularVelocities[U];
    const Vector3 sv = RB->mSplitLinearVelocities[U], sw = RB->mSplitAngularVelocities[U];
    Transform before = transformOf(RB->mBodiesEntities[U]);
    const Quaternion q = before.getOrientation();
    newPos = Vector3(c.x + (cv.x + k * sv.x) * DT, c.y + (cv.y + k * sv.y) * DT, c.z + (cv.z + k * sv.z) * DT);
    // q + dt/2 (0, w) q
    const double wx = cw.x + k * sw.x, wy = cw.y + k * sw.y, wz = cw.z + k * sw.z, h = 0.5 * DT;
    newQ = Quaternion(q.x + h * (wx * q.w + wy * q.z - wz * q.y), q.y + h * (wy * q.w + wz * q.x - wx * q.z), q.z + h * (wz * q.w + wx * q.y - wy * q.x),
                      q.w - h * (wx * q.x + wy * q.y + wz * q.z));
    d->integrateRigidBodiesPositions(DT, split);
    if (U >= RB->mDisabledStartIndex) return;
    vc_assert(eqv(RB->mConstrainedPositions[U], newPos), "the centre of mass moves with the velocity and the correction velocity");
    const Quaternion r = RB->mConstrainedOrientations[U];
    vc_assert(vc_and(vc_and(vc_eq(r.x, newQ.x), vc_eq(r.y, newQ.y)), vc_and(vc_eq(r.z, newQ.z), vc_eq(r.w, newQ.w))), "the orientation turns with the angular velocity");
    vc_assert(eqv(RB->mConstrainedLinearVelocities[U], cv) && eqv(RB->mConstrainedAngularVelocities[U], cw) && eqv(RB->mCentersOfMassWorld[U], c), "velocities and the current centre of mass are kept");
}
// ---- forces are cleared for every body, also disabled ones
INV bool forces_inv(uint64_t i) { return vc_implies(U < i, vc_and(zeroV(RB->mExternalForces[U]), zeroV(RB->mExternalTorques[U]))); }
HARNESS(reset_forces, "stubs=stub_index,stub_contains;invs=forces_inv") {
    DynamicsSystem* d = dynamics();
    d->resetBodiesForceAndTorque();
    vc_assert(zeroV(RB->mExternalForces[U]), "the force is cleared"); vc_assert(zeroV(RB->mExternalTorques[U]), "the torque is cleared");
}
// ---- the state after the constraints are solved
static Vector3 cv0, cw0, cp0, lc0; static Quaternion cq0; static double Q2; static uint64_t TU; static Transform tBefore;
static double qLen(const Quaternion& q) { return q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w; }
STUB("^reactphysics3d::Quaternion::getUnit\\(") Quaternion stub_qunit(const Quaternion* q) {
    double l = vc_any_real("length");
    vc_assume(l > 0); vc_assume(l * l == qLen(*q));
    Quaternion r(vc_any_real("ux"), vc_any_real("uy"), vc_any_real("uz"), vc_any_real("uw"));
    vc_assume(r.x * l == q->x); vc_assume(r.y * l == q->y); vc_assume(r.z * l == q->z); vc_assume(r.w * l == q->w);
    vc_assume(qLen(r) == 1);
    return r;
}
// r is the unit quaternion in the direction of cq0
static double qDot(const Quaternion& a, const Quaternion& b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
static double L0;
SPEC bool unitOf(const Quaternion& r) { return vc_and(vc_and(r.x * L0 == cq0.x, r.y * L0 == cq0.y), vc_and(vc_and(r.z * L0 == cq0.z, r.w * L0 == cq0.w), qLen(r) == 1)); }
static Transform* tArr() { return gWorld->mTransformComponents.mTransforms; }
INV bool state_inv(uint64_t i) {
    if (U >= RB->mDisabledStartIndex) return vc_and(sameV(tArr()[TU].mPosition, tBefore.mPosition), sameQ(tArr()[TU].mOrientation, tBefore.mOrientation));
    if (U >= i) return true;
    return vc_and(vc_and(sameV(RB->mLinearVelocities[U], cv0), sameV(RB->mAngularVelocities[U], cw0)), vc_and(sameV(RB->mCentersOfMassWorld[U], cp0), unitOf(tArr()[TU].mOrientation)));
}
static Quaternion q1;
INV bool place_inv(uint64_t i) {
    if (U >= RB->mDisabledStartIndex) return vc_and(sameV(tArr()[TU].mPosition, tBefore.mPosition), sameQ(tArr()[TU].mOrientation, tBefore.mOrientation));
    if (U >= i) return unitOf(tArr()[TU].mOrientation);
    Vector3 r = turned(tArr()[TU].mOrientation, lc0);
    return vc_and(unitOf(tArr()[TU].mOrientation), sameV(tArr()[TU].mPosition, Vector3(cp0.x - r.x, cp0.y - r.y, cp0.z - r.z)));
}
INV bool any_inv(uint64_t i) { return true; }
HARNESS(body_state, "stubs=stub_index,stub_contains,stub_qunit;invs=state_inv,place_inv,any_inv;nl") {
    DynamicsSystem* d = dynamics();
    cv0 = RB->mConstrainedLinearVelocities[U]; cw0 = RB->mConstrainedAngularVelocities[U]; cp0 = RB->mConstrainedPositions[U]; lc0 = RB->mCentersOfMassLocal[U];
    cq0 = RB->mConstrainedOrientations[U];
    const Entity e = RB->mBodiesEntities[U];
    TU = vc_native() ? gWorld->mTransformComponents.getEntityIndex(e) : indexOf(2, e.id);
    vc_assume(TU < gNT);
    tBefore = tArr()[TU];
    L0 = vc_native() ? std::sqrt(qLen(cq0)) : vc_any_real("L0");
    vc_assume(L0 > 0); vc_assume(vc_eq(L0 * L0, qLen(cq0)));
    d->updateBodiesState();
    const Transform& t = tArr()[TU];
    if (U >= RB->mDisabledStartIndex) {
        vc_assert(eqv(t.mPosition, tBefore.mPosition), "a body that is asleep or static does not move");
        vc_assert(sameQ(t.mOrientation, tBefore.mOrientation), "a body that is asleep or static does not turn");
        return;
    }
    vc_assert(eqv(RB->mLinearVelocities[U], cv0), "the constrained velocity becomes the velocity");
    vc_assert(eqv(RB->mAngularVelocities[U], cw0), "the constrained angular velocity becomes the angular velocity");
    vc_assert(eqv(RB->mCentersOfMassWorld[U], cp0), "the constrained position becomes the centre of mass");
    const Quaternion r = t.mOrientation;
    vc_assert(vc_and(vc_and(vc_eq(r.x * L0, cq0.x), vc_eq(r.y * L0, cq0.y)), vc_and(vc_eq(r.z * L0, cq0.z), vc_eq(r.w * L0, cq0.w))), "the orientation is the normalised constrained orientation");
    vc_assert(eqv(t.mPosition + turned(r, lc0), cp0), "the body is placed so that its centre of mass is there");
}
// ---- colliders follow their body
static uint64_t K; static Transform lt, kBefore;
INV bool collider_inv(uint64_t i) {
    const Transform& c = gWorld->mCollidersComponents.mLocalToWorldTransforms[K];
    if (K >= gWorld->mCollidersComponents.mDisabledStartIndex || K >= i) return vc_and(sameV(c.mPosition, kBefore.mPosition), sameQ(c.mOrientation, kBefore.mOrientation));
    const Quaternion b = tArr()[TU].mOrientation, l = lt.mOrientation;
    const Vector3 p = turned(b, lt.mPosition), o = tArr()[TU].mPosition;
    const bool placed = sameV(c.mPosition, Vector3(o.x + p.x, o.y + p.y, o.z + p.z));
    const Quaternion& q = c.mOrientation;
    const bool oriented = vc_and(vc_and(q.x == b.w * l.x + b.x * l.w + b.y * l.z - b.z * l.y, q.y == b.w * l.y + b.y * l.w + b.z * l.x - b.x * l.z),
                                 vc_and(q.z == b.w * l.z + b.z * l.w + b.x * l.y - b.y * l.x, q.w == b.w * l.w - b.x * l.x - b.y * l.y - b.z * l.z));
    return vc_and(placed, oriented);
}
static uint32_t colliderTransform(Entity e) {
    if (vc_native()) return gWorld->mTransformComponents.getEntityIndex(e);
    uint64_t k = indexOf(2, e.id);
    vc_assume(k < gNT);
    return (uint32_t)k;
}
INV bool any2_inv(uint64_t i) { return true; }
HARNESS(collider_state, "stubs=stub_index,stub_contains,stub_qunit;invs=any_inv,any2_inv,collider_inv;nl") {
    DynamicsSystem* d = dynamics();
    ColliderComponents& c = gWorld->mCollidersComponents;
    if (vc_native() && gNC == 0) return;
    K = vc_any_u64("collider"); if (vc_native()) K %= gNC;
    vc_assume(K < gNC);
    TU = colliderTransform(c.mBodiesEntities[K]);
    lt = c.mLocalToBodyTransforms[K];
    const Transform before = kBefore = c.mLocalToWorldTransforms[K];
    d->updateBodiesState();
    const Transform& w = c.mLocalToWorldTransforms[K];
    if (K >= c.mDisabledStartIndex) {
        vc_assert(eqv(w.mPosition, before.mPosition), "a disabled collider is not moved");
        vc_assert(sameQ(w.mOrientation, before.mOrientation), "a disabled collider is not turned");
        return;
    }
    const Transform& b = tArr()[TU];
    vc_assert(eqv(w.mPosition, b.mPosition + turned(b.mOrientation, lt.mPosition)), "the collider is placed by its body and its local transform");
    const Quaternion e = b.mOrientation * lt.mOrientation;
    const Quaternion q = w.mOrientation;
    vc_assert(vc_and(vc_and(vc_eq(q.x, e.x), vc_eq(q.y, e.y)), vc_and(vc_eq(q.z, e.z), vc_eq(q.w, e.w))), "the collider is turned by its body and its local transform");
}
