// K01: the calls of RigidBody change the state of their body, and of nothing else, as documented
//! assume: the map from entities to component indices is a function inverse to the array of entities (property C03/D01)
//! assume: waking a body or putting it to sleep moves its components inside the component arrays and leaves their values unchanged, apart from what the contract of setIsSleeping says (property D01)
//! native: full
//! opts: nl
#include "world.h"
#include "body/Body.cpp"
#include "body/RigidBody.cpp"
static VcRaw<RigidBody> gBodyRaw;
static RigidBody* B;
static Entity gE(0, 0);
static uint64_t gAt, gAtT, gAtB, gMoveTo, gMoveToT, gMoveToB;         // where the components of the body are, and where they are after waking
static RigidBodyComponents* RB;
static uint32_t gWoken, gSlept, gBroadPhase, gDisabledCalls, gChecked, gEnabledPairs, gAsked; static bool gDisabledArg;
static BodyComponents* BC;
static uint32_t gCell[1];
STUB("^reactphysics3d::Map<reactphysics3d::Entity, unsigned int, [^(]*>::operator\\[\\]\\(") const uint32_t* stub_own(const IndexMap* m, const Entity* e) {
    vc_assert(e->id == gE.id, "only the components of the body itself are used");
    gCell[0] = (uint32_t)(m == &gWorld->mRigidBodyComponents.mMapEntityToComponentIndex ? gAt : m == &gWorld->mTransformComponents.mMapEntityToComponentIndex ? gAtT : gAtB);
    return gCell;
}
// another body takes the old place
template <class T> static void move(T* a, uint64_t from, uint64_t to) { T x = a[from], y = a[to]; a[from] = y; a[to] = x; }
static void moveComponents() {
    RigidBodyComponents& r = *RB; const uint64_t f = gAt, t = gMoveTo;
    move(r.mIsAllowedToSleep, f, t); move(r.mIsSleeping, f, t); move(r.mSleepTimes, f, t); move((uint32_t*)r.mBodyTypes, f, t);
    move(r.mLinearVelocities, f, t); move(r.mAngularVelocities, f, t); move(r.mExternalForces, f, t); move(r.mExternalTorques, f, t);
    move(r.mLinearDampings, f, t); move(r.mAngularDampings, f, t); move(r.mMasses, f, t); move(r.mInverseMasses, f, t);
    move(r.mLocalInertiaTensors, f, t); move(r.mInverseInertiaTensorsLocal, f, t); move(r.mCentersOfMassLocal, f, t); move(r.mCentersOfMassWorld, f, t);
    move(r.mConstrainedPositions, f, t); move(r.mConstrainedOrientations, f, t);
    move(r.mIsGravityEnabled, f, t); move(r.mLinearLockAxisFactors, f, t); move(r.mAngularLockAxisFactors, f, t);
    move(gWorld->mTransformComponents.mTransforms, gAtT, gMoveToT);
    move(BC->mIsActive, gAtB, gMoveToB);
    gAt = gMoveTo; gAtT = gMoveToT; gAtB = gMoveToB;
}
STUB("^reactphysics3d::RigidBody::setIsSleeping\\(") void stub_sleep(RigidBody*, bool sleep) {
    if (sleep) gSlept++;
    else {
        gWoken++;
        if (RB->mIsSleeping[gAt] && RB->mBodyTypes[gAt] != BodyType::STATIC && BC->mIsActive[gAtB]) { RB->mIsSleeping[gAt] = false; moveComponents(); }
    }
}
STUB("^reactphysics3d::PhysicsWorld::setBodyDisabled\\(") void stub_disabled(PhysicsWorld*, Entity, bool d) { gDisabledCalls++; gDisabledArg = d; moveComponents(); }
STUB("^reactphysics3d::RigidBody::checkForDisabledOverlappingPairs\\(") void stub_check(RigidBody*) { gChecked++; }
STUB("^reactphysics3d::RigidBody::enableOverlappingPairs\\(") void stub_enable(RigidBody*) { gEnabledPairs++; }
STUB("^reactphysics3d::Body::askForBroadPhaseCollisionCheck\\(") void stub_ask(const Body*) { gAsked++; }
STUB("^reactphysics3d::Body::updateBroadPhaseState\\(") void stub_broad(const Body*) { gBroadPhase++; }
static void body() {
    anyWorld();
    RB = &gWorld->mRigidBodyComponents; BC = &gWorld->mBodyComponents;
    gAt = vc_any_u64("body"); gWoken = gSlept = gBroadPhase = gDisabledCalls = gChecked = gEnabledPairs = gAsked = 0;
    if (vc_native()) {
        gAt %= gNB;
        gE = RB->mBodiesEntities[gAt]; B = RB->getRigidBody(gE);
        return;
    }
    vc_assume(gAt < gNB);
    gAtT = vc_any_u64("its transform"); gMoveTo = vc_any_u64("new place"); gMoveToT = vc_any_u64("new place of the transform");
    gAtB = vc_any_u64("its body component"); gMoveToB = vc_any_u64("new place of the body component");
    vc_assume(gAtT < gNT); vc_assume(gMoveToT < gNT); vc_assume(gMoveTo < gNB); vc_assume(gAtB < gNB); vc_assume(gMoveToB < gNB);
    BC->mIsActive = vc_array<bool>(gNB, "active");
    gE.id = vc_any_u32("entity");
    vc_assume((uint32_t)RB->mBodyTypes[gAt] <= 2);
    B = new (gBodyRaw.bytes) RigidBody(*gWorld, gE);
}
struct State {
    Vector3 v, w, f, t, inertia, invInertia, comL, comW, lockL, lockA; double ld, ad, m, im; bool gravity, sleepy; uint32_t type; Transform pose;
    State() : pose(Transform::identity()) {}
};
static uint64_t at() { return vc_native() ? RB->getEntityIndex(gE) : gAt; }
static void take(State& s) {
    const uint64_t k = at(); const RigidBodyComponents& r = *RB;
    s.v = B->getLinearVelocity(); s.w = B->getAngularVelocity(); s.f = B->getForce(); s.t = B->getTorque();
    s.inertia = B->getLocalInertiaTensor(); s.invInertia = r.mInverseInertiaTensorsLocal[k]; s.comL = B->getLocalCenterOfMass(); s.comW = r.mCentersOfMassWorld[k];
    s.lockL = B->getLinearLockAxisFactor(); s.lockA = B->getAngularLockAxisFactor(); s.ld = B->getLinearDamping(); s.ad = B->getAngularDamping();
    s.m = B->getMass(); s.im = r.mInverseMasses[k]; s.gravity = B->isGravityEnabled(); s.sleepy = B->isAllowedToSleep(); s.type = (uint32_t)B->getType(); s.pose = B->getTransform();
}
static State a, b;
enum { V = 1, W = 2, F = 4, T = 8, INERTIA = 16, INVI = 32, COML = 64, COMW = 128, MASS = 256, IMASS = 512, POSE = 1024, LOCKL = 2048, LOCKA = 4096, LD = 8192, AD = 16384, GRAV = 32768, SLEEPY = 65536, TYPE = 131072 };
// everything that is not in the mask is as before
static void frame(uint32_t m) {
    if (!(m & V)) vc_assert(sameV(a.v, b.v), "the linear velocity is kept");
    if (!(m & W)) vc_assert(sameV(a.w, b.w), "the angular velocity is kept");
    if (!(m & F)) vc_assert(sameV(a.f, b.f), "the force is kept");
    if (!(m & T)) vc_assert(sameV(a.t, b.t), "the torque is kept");
    if (!(m & INERTIA)) vc_assert(sameV(a.inertia, b.inertia), "the inertia tensor is kept");
    if (!(m & INVI)) vc_assert(sameV(a.invInertia, b.invInertia), "the inverse inertia tensor is kept");
    if (!(m & COML)) vc_assert(sameV(a.comL, b.comL), "the local centre of mass is kept");
    if (!(m & COMW)) vc_assert(sameV(a.comW, b.comW), "the centre of mass is kept");
    if (!(m & MASS)) vc_assert(a.m == b.m, "the mass is kept");
    if (!(m & IMASS)) vc_assert(a.im == b.im, "the inverse mass is kept");
    if (!(m & POSE)) vc_assert(vc_and(sameV(a.pose.mPosition, b.pose.mPosition), sameQ(a.pose.mOrientation, b.pose.mOrientation)), "the body is not moved");
    if (!(m & LOCKL)) vc_assert(sameV(a.lockL, b.lockL), "the locked axes are kept");
    if (!(m & LOCKA)) vc_assert(sameV(a.lockA, b.lockA), "the locked rotation axes are kept");
    if (!(m & LD)) vc_assert(a.ld == b.ld, "the linear damping is kept");
    if (!(m & AD)) vc_assert(a.ad == b.ad, "the angular damping is kept");
    if (!(m & GRAV)) vc_assert(a.gravity == b.gravity, "the gravity flag is kept");
    if (!(m & SLEEPY)) vc_assert(a.sleepy == b.sleepy, "the sleep permission is kept");
    if (!(m & TYPE)) vc_assert(a.type == b.type, "the type is kept");
}
static void before() { body(); take(a); }
static void after() { take(b); }
static Vector3 crossV(const Vector3& p, const Vector3& q) { return Vector3(p.y * q.z - p.z * q.y, p.z * q.x - p.x * q.z, p.x * q.y - p.y * q.x); }
static bool dynamicBody() { return a.type == (uint32_t)BodyType::DYNAMIC; }
static void awake() { vc_assert(!B->isSleeping() || !B->isActive(), "the body is awake"); }
// ---- forces and torques
static void forceResult(const Vector3& f, const Vector3& lever, bool atPoint) {
    after();
    if (!dynamicBody()) { frame(0); return; }
    frame(atPoint ? F | T : F);
    vc_assert(eqv(b.f, a.f + f), "the force is added");
    if (atPoint) vc_assert(eqv(b.t, a.t + crossV(lever, f)), "its moment about the centre of mass is added to the torque");
    awake();
}
#define BODY "stubs=stub_own,stub_contains,stub_sleep"
HARNESS(world_force_centre, BODY) { before(); Vector3 f = anyVec("f"); B->applyWorldForceAtCenterOfMass(f); forceResult(f, f, false); }
HARNESS(local_force_centre, BODY) { before(); Vector3 f = anyVec("f"); B->applyLocalForceAtCenterOfMass(f); forceResult(turned(a.pose.mOrientation, f), f, false); }
HARNESS(world_force_world, BODY) { before(); Vector3 f = anyVec("f"), p = anyVec("p"); B->applyWorldForceAtWorldPosition(f, p); forceResult(f, p - a.comW, true); }
HARNESS(local_force_world, BODY) { before(); Vector3 f = anyVec("f"), p = anyVec("p"); B->applyLocalForceAtWorldPosition(f, p); forceResult(turned(a.pose.mOrientation, f), p - a.comW, true); }
HARNESS(world_force_local, BODY) {
    before(); Vector3 f = anyVec("f"), p = anyVec("p");
    B->applyWorldForceAtLocalPosition(f, p);
    forceResult(f, a.pose.mPosition + turned(a.pose.mOrientation, p) - a.comW, true);
}
HARNESS(local_force_local, BODY) {
    before(); Vector3 f = anyVec("f"), p = anyVec("p");
    B->applyLocalForceAtLocalPosition(f, p);
    forceResult(turned(a.pose.mOrientation, f), a.pose.mPosition + turned(a.pose.mOrientation, p) - a.comW, true);
}
static void torqueResult(const Vector3& t) {
    after();
    if (!dynamicBody()) { frame(0); return; }
    frame(T);
    vc_assert(eqv(b.t, a.t + t), "the torque is added");
    awake();
}
HARNESS(world_torque, BODY) { before(); Vector3 t = anyVec("t"); B->applyWorldTorque(t); torqueResult(t); }
HARNESS(local_torque, BODY) { before(); Vector3 t = anyVec("t"); B->applyLocalTorque(t); torqueResult(turned(a.pose.mOrientation, t)); }
HARNESS(reset_force, BODY) { before(); B->resetForce(); after(); if (dynamicBody()) { frame(F); vc_assert(zeroV(b.f), "no force is left"); } else frame(0); }
HARNESS(reset_torque, BODY) { before(); B->resetTorque(); after(); if (dynamicBody()) { frame(T); vc_assert(zeroV(b.t), "no torque is left"); } else frame(0); }
// ---- velocities
static bool movable() { return a.type != (uint32_t)BodyType::STATIC; }
HARNESS(set_velocity, BODY) {
    before(); Vector3 v = anyVec("v"); B->setLinearVelocity(v); after();
    if (!movable()) { frame(0); return; }
    frame(V); vc_assert(sameV(b.v, v), "the velocity is set");
    if (v.x != 0) awake();
}
HARNESS(set_angular_velocity, BODY) {
    before(); Vector3 w = anyVec("w"); B->setAngularVelocity(w); after();
    if (!movable()) { frame(0); return; }
    frame(W); vc_assert(sameV(b.w, w), "the angular velocity is set");
    if (w.y != 0) awake();
}
// ---- mass properties
HARNESS(set_mass, BODY) {
    before(); double m = vc_any_real("new mass"); B->setMass(m); after();
    if (m < 0) { frame(0); return; }
    frame(dynamicBody() ? MASS | IMASS : MASS);
    vc_assert(b.m == m, "the mass is set");
    if (dynamicBody()) { if (m > 0) vc_assert(vc_eq(b.im * m, 1), "the inverse mass belongs to the mass"); else vc_assert(b.im == 0, "no mass means no reaction to forces"); }
}
static void inverseOf(double inv, double x) { if (x != 0) vc_assert(vc_eq(inv * x, 1), "the inverse inertia belongs to the inertia"); else vc_assert(inv == 0, "a zero inertia is infinite inertia"); }
HARNESS(set_inertia, BODY) {
    before(); Vector3 i(vc_any_real("ix"), vc_any_real("iy"), vc_any_real("iz")); if (vc_native() && vc_any_bool("zero")) i.y = 0;
    B->setLocalInertiaTensor(i); after();
    frame(dynamicBody() ? INERTIA | INVI : INERTIA);
    vc_assert(sameV(b.inertia, i), "the inertia is set");
    if (dynamicBody()) { inverseOf(b.invInertia.x, i.x); inverseOf(b.invInertia.y, i.y); inverseOf(b.invInertia.z, i.z); }
}
HARNESS(set_centre, BODY) {
    before(); Vector3 c = anyVec("c"); B->setLocalCenterOfMass(c); after();
    frame(COML | COMW | V);
    vc_assert(sameV(b.comL, c), "the local centre of mass is set");
    vc_assert(eqv(b.comW, a.pose.mPosition + turned(a.pose.mOrientation, c)), "the centre of mass is where the body is");
    vc_assert(eqv(b.v, a.v + crossV(a.w, b.comW - a.comW)), "the velocity is the one of the new centre of mass");
}
// ---- simple settings
HARNESS(settings, BODY) {
    before();
    const uint32_t which = vc_any_u32("setting") % 6; Vector3 l = anyVec("l"); double d = std::fabs(vc_any_real("d")); bool g = vc_any_bool("g");
    if (which == 0) B->setLinearDamping(d); else if (which == 1) B->setAngularDamping(d); else if (which == 2) B->setLinearLockAxisFactor(l);
    else if (which == 3) B->setAngularLockAxisFactor(l); else if (which == 4) B->enableGravity(g); else B->setIsAllowedToSleep(g);
    after();
    if (which == 0) { frame(LD); vc_assert(b.ld == d, "the linear damping is set"); }
    else if (which == 1) { frame(AD); vc_assert(b.ad == d, "the angular damping is set"); }
    else if (which == 2) { frame(LOCKL); vc_assert(sameV(b.lockL, l), "the locked axes are set"); }
    else if (which == 3) { frame(LOCKA); vc_assert(sameV(b.lockA, l), "the locked rotation axes are set"); }
    else if (which == 4) { frame(GRAV); vc_assert(b.gravity == g, "the gravity flag is set"); }
    else { frame(SLEEPY); vc_assert(b.sleepy == g, "the sleep permission is set"); if (!g && movable()) awake(); }
}
// ---- placing the body
HARNESS(set_transform, BODY ",stub_broad") {
    before(); Transform p = anyTransform("p"); B->setTransform(p); after();
    frame(POSE | COMW | V);
    vc_assert(vc_and(sameV(b.pose.mPosition, p.mPosition), sameQ(b.pose.mOrientation, p.mOrientation)), "the body is where it was put");
    vc_assert(eqv(b.comW, p.mPosition + turned(p.mOrientation, a.comL)), "the centre of mass moves with the body");
    vc_assert(eqv(b.v, a.v + crossV(a.w, b.comW - a.comW)), "the velocity is the one of the new centre of mass");
    if (movable()) awake();
    vc_assert(vc_native() || gBroadPhase == 1, "the broad phase is told");
    if (!movable()) {
        vc_assert(sameV(RB->mConstrainedPositions[at()], p.mPosition), "a static body has no other position");
        vc_assert(sameQ(RB->mConstrainedOrientations[at()], p.mOrientation), "a static body has no other orientation");
    }
}
// ---- type
HARNESS(set_type, BODY ",stub_disabled,stub_check") {
    before(); const uint32_t t = vc_any_u32("new type") % 3; B->setType((BodyType)t); after();
    if (t == a.type) { frame(0); return; }
    frame(TYPE | V | W | F | T | INVI | IMASS);
    vc_assert(b.type == t, "the type is set");
    vc_assert(zeroV(b.f), "the forces start at zero"); vc_assert(zeroV(b.t), "the torques start at zero");
    if (t == (uint32_t)BodyType::STATIC) { vc_assert(zeroV(b.v), "a static body does not move"); vc_assert(zeroV(b.w), "a static body does not turn"); }
    else { vc_assert(sameV(b.v, a.v), "the velocity is kept"); vc_assert(sameV(b.w, a.w), "the angular velocity is kept"); }
    if (t == (uint32_t)BodyType::DYNAMIC) {
        if (a.m > 0) vc_assert(vc_eq(b.im * a.m, 1), "the inverse mass belongs to the mass"); else vc_assert(b.im == 0, "no mass means no reaction to forces");
        inverseOf(b.invInertia.x, a.inertia.x); inverseOf(b.invInertia.y, a.inertia.y); inverseOf(b.invInertia.z, a.inertia.z);
    }
    else { vc_assert(b.im == 0, "only dynamic bodies react to forces"); vc_assert(zeroV(b.invInertia), "only dynamic bodies react to torques"); }
    const bool out = t == (uint32_t)BodyType::STATIC || !B->isActive();
    if (vc_native()) vc_assert(RB->getIsEntityDisabled(gE) == out, "static and inactive bodies are taken out of the simulation");
    else { vc_assert(gDisabledCalls == 1, "the world is told"); vc_assert(gDisabledArg == out, "static and inactive bodies are taken out of the simulation"); }
    vc_assert(B->isActive() || t == (uint32_t)BodyType::STATIC || B->isSleeping(), "an inactive body sleeps");
}
// ---- activation
static uint32_t gActivated; static bool gActiveArg;
STUB("^reactphysics3d::Body::setIsActive\\(") void stub_active(Body*, bool on) { gActivated++; gActiveArg = on; BC->mIsActive[gAtB] = on; }
HARNESS(activate, BODY ",stub_active") {
    before(); gActivated = 0;
    const bool on = vc_split(vc_any_bool("on")), was = B->isActive(), slept = B->isSleeping();
    if (!was && movable()) vc_assume(slept);
    const uint32_t sl = gSlept;
    B->setIsActive(on);
    after();
    vc_assert(B->isActive() == on, "the body is active or not");
    if (on == was) { frame(0); vc_assert(B->isSleeping() == slept, "nothing changes"); return; }
    if (vc_native()) {
        vc_assert(RB->getIsEntityDisabled(gE) == (!on || !movable()), "an active body is simulated, an inactive one is not");
        if (movable()) vc_assert(B->isSleeping() == !on, "a body that is activated wakes up");
        return;
    }
    if (on) { frame(0); if (movable()) vc_assert(!B->isSleeping(), "a body that is activated wakes up"); vc_assert(gSlept == sl, "it is not put to sleep"); }
    else { vc_assert(gSlept == 1, "a body that is deactivated is put to sleep"); vc_assert(gWoken == 0, "it is not woken"); }
}
// ---- sleeping
HARNESS(sleep, "stubs=stub_own,stub_contains,stub_disabled,stub_check,stub_enable,stub_ask") {
    before();
    const bool s = vc_split(vc_any_bool("sleep")), was = B->isSleeping(), active = B->isActive();
    vc_assume(active || was);                                  // an inactive body sleeps
    B->setIsSleeping(s);
    after();
    if (s == was || !movable() || !active) { frame(0); vc_assert(B->isSleeping() == was, "nothing changes"); return; }
    vc_assert(B->isSleeping() == s, "the body sleeps or is awake");
    vc_assert(RB->mSleepTimes[at()] == 0, "the time to sleep starts anew");
    if (s) {
        frame(V | W | F | T);
        vc_assert(zeroV(b.v), "a sleeping body has no velocity"); vc_assert(zeroV(b.w), "a sleeping body has no angular velocity");
        vc_assert(zeroV(b.f), "a sleeping body has no forces"); vc_assert(zeroV(b.t), "a sleeping body has no torques");
    }
    else frame(0);
    if (vc_native()) vc_assert(RB->getIsEntityDisabled(gE) == s, "a sleeping body is taken out of the simulation");
    else {
        vc_assert(gDisabledCalls == 1, "the world is told once"); vc_assert(gDisabledArg == s, "a sleeping body is taken out of the simulation");
        vc_assert(gChecked == (s ? 1 : 0), "the pairs of sleeping bodies are checked"); vc_assert(gEnabledPairs == (s ? 0 : 1), "the pairs of awake bodies are enabled");
        vc_assert(gAsked == (s ? 0 : 1), "new pairs of an awake body are looked for");
    }
}
