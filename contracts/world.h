// A world in an arbitrary state: every component array holds arbitrary values.  In the proofs the arrays have any length and the maps from
// entities to component indices are arbitrary injective functions (C03 is about the map itself); natively a real world is built and its component
// data are overwritten by random values.
#ifndef WORLD_CONTRACT_H
#define WORLD_CONTRACT_H
#include "containers.h"
#include <reactphysics3d/reactphysics3d.h>
#include "mathematics/Vector3.cpp"
#include "mathematics/Quaternion.cpp"
#include "mathematics/Matrix3x3.cpp"
#include "mathematics/Transform.cpp"
Logger* PhysicsCommon::mLogger = nullptr;
typedef Map<Entity, uint32> IndexMap;
static VcRaw<PhysicsWorld> gWorldRaw;
static PhysicsWorld* gWorld;
static uint64_t gNB, gNT, gNC;        // numbers of rigid bodies, transforms, colliders
static uint32_t gIndexCell[1];
inline uint64_t mapTag(const IndexMap* m) {
    return m == &gWorld->mRigidBodyComponents.mMapEntityToComponentIndex ? 1 : m == &gWorld->mTransformComponents.mMapEntityToComponentIndex ? 2
         : m == &gWorld->mCollidersComponents.mMapEntityToComponentIndex ? 3 : m == &gWorld->mBodyComponents.mMapEntityToComponentIndex ? 4
         : m == &gWorld->mJointsComponents.mMapEntityToComponentIndex ? 5 : 6;
}
// the index of the component of an entity; different entities have different indices
inline uint64_t indexOf(uint64_t tag, uint64_t entity) {
    uint64_t k = tag == 1 ? vc_uf("body index", entity, 0) : tag == 2 ? vc_uf("transform index", entity, 0) : tag == 3 ? vc_uf("collider index", entity, 0)
               : tag == 4 ? vc_uf("body2 index", entity, 0) : vc_uf("joint index", entity, 0);
    uint64_t back = tag == 1 ? vc_uf("body at", k, 0) : tag == 2 ? vc_uf("transform at", k, 0) : tag == 3 ? vc_uf("collider at", k, 0)
                  : tag == 4 ? vc_uf("body2 at", k, 0) : vc_uf("joint at", k, 0);
    vc_assume(back == entity);
    return k;
}
STUB("^reactphysics3d::Map<reactphysics3d::Entity, unsigned int, [^(]*>::operator\\[\\]\\(") const uint32_t* stub_index(const IndexMap* m, const Entity* e) {
    uint64_t t = mapTag(m), k = indexOf(t, e->id);
    vc_assume(k < (t == 1 ? gNB : t == 2 ? gNT : t == 3 ? gNC : t == 4 ? gNB : 1));
    gIndexCell[0] = (uint32_t)k;
    return gIndexCell;
}
STUB("^reactphysics3d::Map<reactphysics3d::Entity, unsigned int, [^(]*>::containsKey\\(") bool stub_contains(const IndexMap*, const Entity*) { return true; }
template <class T> inline T* anyOf(uint64_t n, const char* name) { T* p = vc_array<T>(n, name); T t; vc_layout_like(p, &t); return p; }
inline uint32_t bodyIndex(Entity e) { return vc_native() ? gWorld->mRigidBodyComponents.getEntityIndex(e) : (uint32_t)vc_uf("body index", e.id, 0); }
inline Transform& transformOf(Entity e) {
    if (vc_native()) return gWorld->mTransformComponents.getTransform(e);
    uint64_t k = indexOf(2, e.id);
    vc_assume(k < gNT);
    return gWorld->mTransformComponents.mTransforms[k];
}
inline Vector3 smallVec(const char* n) { return anyVec(n); }
static PhysicsCommon* gRealCommon = nullptr; static PhysicsWorld* gRealWorld = nullptr;
static Transform randomTransform() { return anyTransform("pose"); }
// a real world with n bodies, some of them disabled
static void realWorld(uint64_t n) {
    if (gRealWorld == nullptr) { gRealCommon = new PhysicsCommon(); gRealWorld = gRealCommon->createPhysicsWorld(); }
    gWorld = gRealWorld;
    while (gWorld->getNbRigidBodies() > 0) gWorld->destroyRigidBody(gWorld->getRigidBody(0u));
    for (uint64_t i = 0; i < n; i++) {
        RigidBody* b = gWorld->createRigidBody(randomTransform());
        uint32_t kind = vc_any_u32("type") % 4;
        if (kind == 3) b->setType(BodyType::STATIC); else if (kind == 2) b->setType(BodyType::KINEMATIC);
        if (vc_any_bool("collider")) b->addCollider(gRealCommon->createSphereShape(1), randomTransform());
        if (vc_any_u32("asleep") % 4 == 0) b->setIsSleeping(true);
        if (vc_any_u32("inactive") % 8 == 0) b->setIsActive(false);
    }
    RigidBodyComponents& r = gWorld->mRigidBodyComponents;
    for (uint64_t i = 0; i < n; i++) {
        r.mLinearVelocities[i] = anyVec("v"); r.mAngularVelocities[i] = anyVec("w"); r.mExternalForces[i] = anyVec("f"); r.mExternalTorques[i] = anyVec("t");
        r.mLinearDampings[i] = std::fabs(vc_any_real("ld")); r.mAngularDampings[i] = std::fabs(vc_any_real("ad"));
        r.mMasses[i] = std::fabs(vc_any_real("m")) + 0.1; r.mInverseMasses[i] = r.mBodyTypes[i] == BodyType::DYNAMIC ? 1 / r.mMasses[i] : 0;
        r.mLocalInertiaTensors[i] = anyVec("inertia"); r.mInverseInertiaTensorsLocal[i] = anyVec("inverse inertia");
        Vector3 a = anyVec("i"), b = anyVec("i"), c = anyVec("i");
        r.mInverseInertiaTensorsWorld[i] = Matrix3x3(a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z);
        r.mConstrainedLinearVelocities[i] = anyVec("cv"); r.mConstrainedAngularVelocities[i] = anyVec("cw");
        r.mSplitLinearVelocities[i] = anyVec("sv"); r.mSplitAngularVelocities[i] = anyVec("sw");
        r.mConstrainedPositions[i] = anyVec("cp"); r.mConstrainedOrientations[i] = anyUnitQuat("cq");
        r.mCentersOfMassLocal[i] = anyVec("local centre"); r.mCentersOfMassWorld[i] = anyVec("world centre");
        r.mIsGravityEnabled[i] = vc_any_bool("g"); r.mLinearLockAxisFactors[i] = anyVec("lock"); r.mAngularLockAxisFactors[i] = anyVec("lock");
    }
    gNB = r.mNbComponents; gNT = gWorld->mTransformComponents.mNbComponents; gNC = gWorld->mCollidersComponents.mNbComponents;
}
static void anyWorld() {
    if (vc_native()) { realWorld(1 + vc_any_u32("bodies") % 4); return; }
    PhysicsWorld* w = gWorld = gWorldRaw.p();
    gNB = vc_any_u64("bodies"); gNT = vc_any_u64("transforms"); gNC = vc_any_u64("colliders");
    vc_assume(gNB >= 1); vc_assume(gNB < 1u << 31); vc_assume(gNT >= 1); vc_assume(gNT < 1u << 31); vc_assume(gNC >= 1); vc_assume(gNC < 1u << 31);
    uint32_t en = vc_any_u32("enabled"), ec = vc_any_u32("enabled colliders");
    vc_assume(en <= gNB); vc_assume(ec <= gNC);
    RigidBodyComponents& r = w->mRigidBodyComponents;
    r.mNbComponents = (uint32_t)gNB; r.mDisabledStartIndex = en;
    r.mBodiesEntities = (Entity*)vc_array<uint32_t>(gNB, "body entity");
    r.mRigidBodies = vc_array<RigidBody*>(gNB, "body object");
    r.mIsAllowedToSleep = vc_array<bool>(gNB, "allowed to sleep"); r.mIsSleeping = vc_array<bool>(gNB, "sleeping");
    r.mSleepTimes = vc_array<double>(gNB, "sleep time"); r.mBodyTypes = (BodyType*)vc_array<uint32_t>(gNB, "type");
    r.mLinearVelocities = anyOf<Vector3>(gNB, "v"); r.mAngularVelocities = anyOf<Vector3>(gNB, "w");
    r.mExternalForces = anyOf<Vector3>(gNB, "force"); r.mExternalTorques = anyOf<Vector3>(gNB, "torque");
    r.mLinearDampings = vc_array<double>(gNB, "linear damping"); r.mAngularDampings = vc_array<double>(gNB, "angular damping");
    r.mMasses = vc_array<double>(gNB, "mass"); r.mInverseMasses = vc_array<double>(gNB, "inverse mass");
    r.mLocalInertiaTensors = anyOf<Vector3>(gNB, "inertia"); r.mInverseInertiaTensorsLocal = anyOf<Vector3>(gNB, "inverse inertia");
    r.mInverseInertiaTensorsWorld = anyOf<Matrix3x3>(gNB, "world inertia");
    r.mConstrainedLinearVelocities = anyOf<Vector3>(gNB, "cv"); r.mConstrainedAngularVelocities = anyOf<Vector3>(gNB, "cw");
    r.mSplitLinearVelocities = anyOf<Vector3>(gNB, "sv"); r.mSplitAngularVelocities = anyOf<Vector3>(gNB, "sw");
    r.mConstrainedPositions = anyOf<Vector3>(gNB, "cp"); r.mConstrainedOrientations = anyOf<Quaternion>(gNB, "cq");
    r.mCentersOfMassLocal = anyOf<Vector3>(gNB, "local centre"); r.mCentersOfMassWorld = anyOf<Vector3>(gNB, "world centre");
    r.mIsGravityEnabled = vc_array<bool>(gNB, "gravity on"); r.mIsAlreadyInIsland = vc_array<bool>(gNB, "in island");
    r.mLinearLockAxisFactors = anyOf<Vector3>(gNB, "linear lock"); r.mAngularLockAxisFactors = anyOf<Vector3>(gNB, "angular lock");
    TransformComponents& t = w->mTransformComponents;
    t.mNbComponents = (uint32_t)gNT; t.mTransforms = anyOf<Transform>(gNT, "transform");
    ColliderComponents& c = w->mCollidersComponents;
    c.mNbComponents = (uint32_t)gNC; c.mDisabledStartIndex = ec;
    c.mBodiesEntities = (Entity*)vc_array<uint32_t>(gNC, "collider body");
    c.mLocalToWorldTransforms = anyOf<Transform>(gNC, "collider world"); c.mLocalToBodyTransforms = anyOf<Transform>(gNC, "collider local");
    // the index map and the array of entities agree
    ASSUME(vc_forall(0, gNB, [&](uint64_t j) { return vc_uf("body index", gWorld->mRigidBodyComponents.mBodiesEntities[j].id, 0) == j; }));
}
SPEC bool sameV(const Vector3& a, const Vector3& b) { return vc_and(a.x == b.x, vc_and(a.y == b.y, a.z == b.z)); }
SPEC bool zeroV(const Vector3& a) { return vc_and(a.x == 0, vc_and(a.y == 0, a.z == 0)); }
SPEC bool sameQ(const Quaternion& a, const Quaternion& b) { return vc_and(vc_and(a.x == b.x, a.y == b.y), vc_and(a.z == b.z, a.w == b.w)); }
// v turned by the unit quaternion q (q v conj(q))
static Vector3 turned(const Quaternion& q, const Vector3& v) {
    const double x = q.x, y = q.y, z = q.z, w = q.w;
    return Vector3((w * w + x * x - y * y - z * z) * v.x + 2 * (x * y - w * z) * v.y + 2 * (x * z + w * y) * v.z,
                   2 * (x * y + w * z) * v.x + (w * w - x * x + y * y - z * z) * v.y + 2 * (y * z - w * x) * v.z,
                   2 * (x * z - w * y) * v.x + 2 * (y * z + w * x) * v.y + (w * w - x * x - y * y + z * z) * v.z);
}
#endif
