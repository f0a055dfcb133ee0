// D01: the component arrays stay packed, and every entity keeps its own data, whatever is added, removed, enabled or disabled
//! assume: std::ceil in float arithmetic does not round (up to 2^24 components)
//! assume: the blocks of the base allocator are aligned on 16 bytes
//! assume: the map from entities to indices has the contract of a map (add, remove, look up)
//! assume: the copy constructor of Array copies the elements (property C01)
#include "containers.h"
#include <reactphysics3d/reactphysics3d.h>
#include <map>
#include <vector>
#include "mathematics/Vector2.cpp"
#include "mathematics/Vector3.cpp"
#include "mathematics/Quaternion.cpp"
#include "mathematics/Matrix2x2.cpp"
#include "mathematics/Matrix3x3.cpp"
#include "mathematics/Transform.cpp"
#include "memory/MemoryAllocator.cpp"
#include "engine/Entity.cpp"
#include "engine/Material.cpp"
#include "collision/shapes/AABB.cpp"
#include "components/Components.cpp"
#include "components/TransformComponents.cpp"
#include "components/BodyComponents.cpp"
#include "components/RigidBodyComponents.cpp"
#include "components/ColliderComponents.cpp"
#include "components/JointComponents.cpp"
#include "components/BallAndSocketJointComponents.cpp"
#include "components/FixedJointComponents.cpp"
#include "components/HingeJointComponents.cpp"
#include "components/SliderJointComponents.cpp"
Logger* PhysicsCommon::mLogger = nullptr;
// the fields of each class, in the order of their arrays in the buffer; the first one is the entity
#define FIELDS_Transform(F) F(mBodies) F(mTransforms)
#define FIELDS_Body(F) F(mBodiesEntities) F(mBodies) F(mColliders) F(mIsActive) F(mUserData) F(mHasSimulationCollider)
#define FIELDS_RigidBody(F) F(mBodiesEntities) F(mRigidBodies) F(mIsAllowedToSleep) F(mIsSleeping) F(mSleepTimes) F(mBodyTypes) F(mLinearVelocities) F(mAngularVelocities) F(mExternalForces) F(mExternalTorques) F(mLinearDampings) F(mAngularDampings) F(mMasses) F(mInverseMasses) F(mLocalInertiaTensors) F(mInverseInertiaTensorsLocal) F(mInverseInertiaTensorsWorld) F(mConstrainedLinearVelocities) F(mConstrainedAngularVelocities) F(mSplitLinearVelocities) F(mSplitAngularVelocities) F(mConstrainedPositions) F(mConstrainedOrientations) F(mCentersOfMassLocal) F(mCentersOfMassWorld) F(mIsGravityEnabled) F(mIsAlreadyInIsland) F(mJoints) F(mContactPairs) F(mLinearLockAxisFactors) F(mAngularLockAxisFactors)
#define FIELDS_Collider(F) F(mCollidersEntities) F(mBodiesEntities) F(mColliders) F(mBroadPhaseIds) F(mLocalToBodyTransforms) F(mCollisionShapes) F(mCollisionCategoryBits) F(mCollideWithMaskBits) F(mLocalToWorldTransforms) F(mOverlappingPairs) F(mHasCollisionShapeChangedSize) F(mIsTrigger) F(mIsSimulationCollider) F(mIsWorldQueryCollider) F(mMaterials)
#define FIELDS_Joint(F) F(mJointEntities) F(mBody1Entities) F(mBody2Entities) F(mJoints) F(mTypes) F(mPositionCorrectionTechniques) F(mIsCollisionEnabled) F(mIsAlreadyInIsland)
#define FIELDS_BallAndSocketJoint(F) F(mJointEntities) F(mJoints) F(mLocalAnchorPointBody1) F(mLocalAnchorPointBody2) F(mR1World) F(mR2World) F(mI1) F(mI2) F(mBiasVector) F(mInverseMassMatrix) F(mImpulse) F(mIsConeLimitEnabled) F(mConeLimitImpulse) F(mConeLimitHalfAngle) F(mInverseMassMatrixConeLimit) F(mBConeLimit) F(mIsConeLimitViolated) F(mConeLimitACrossB)
#define FIELDS_FixedJoint(F) F(mJointEntities) F(mJoints) F(mLocalAnchorPointBody1) F(mLocalAnchorPointBody2) F(mR1World) F(mR2World) F(mI1) F(mI2) F(mImpulseTranslation) F(mImpulseRotation) F(mInverseMassMatrixTranslation) F(mInverseMassMatrixRotation) F(mBiasTranslation) F(mBiasRotation) F(mInitOrientationDifferenceInv)
#define FIELDS_HingeJoint(F) F(mJointEntities) F(mJoints) F(mLocalAnchorPointBody1) F(mLocalAnchorPointBody2) F(mR1World) F(mR2World) F(mI1) F(mI2) F(mImpulseTranslation) F(mImpulseRotation) F(mInverseMassMatrixTranslation) F(mInverseMassMatrixRotation) F(mBiasTranslation) F(mBiasRotation) F(mInitOrientationDifferenceInv) F(mHingeLocalAxisBody1) F(mHingeLocalAxisBody2) F(mA1) F(mB2CrossA1) F(mC2CrossA1) F(mImpulseLowerLimit) F(mImpulseUpperLimit) F(mImpulseMotor) F(mInverseMassMatrixLimitMotor) F(mInverseMassMatrixMotor) F(mBLowerLimit) F(mBUpperLimit) F(mIsLimitEnabled) F(mIsMotorEnabled) F(mLowerLimit) F(mUpperLimit) F(mIsLowerLimitViolated) F(mIsUpperLimitViolated) F(mMotorSpeed) F(mMaxMotorTorque)
#define FIELDS_SliderJoint(F) F(mJointEntities) F(mJoints) F(mLocalAnchorPointBody1) F(mLocalAnchorPointBody2) F(mI1) F(mI2) F(mImpulseTranslation) F(mImpulseRotation) F(mInverseMassMatrixTranslation) F(mInverseMassMatrixRotation) F(mBiasTranslation) F(mBiasRotation) F(mInitOrientationDifferenceInv) F(mSliderAxisBody1) F(mSliderAxisWorld) F(mR1) F(mR2) F(mN1) F(mN2) F(mImpulseLowerLimit) F(mImpulseUpperLimit) F(mImpulseMotor) F(mInverseMassMatrixLimit) F(mInverseMassMatrixMotor) F(mBLowerLimit) F(mBUpperLimit) F(mIsLimitEnabled) F(mIsMotorEnabled) F(mLowerLimit) F(mUpperLimit) F(mIsLowerLimitViolated) F(mIsUpperLimitViolated) F(mMotorSpeed) F(mMaxMotorForce) F(mR2CrossN1) F(mR2CrossN2) F(mR2CrossSliderAxis) F(mR1PlusUCrossN1) F(mR1PlusUCrossN2) F(mR1PlusUCrossSliderAxis)
#define VISIT(m) f(c.m, "an entity keeps its " #m);
#define KIND(N) struct N { typedef N##Components C; template <class F> static void each(C& c, F f) { FIELDS_##N(VISIT) } };
namespace kind { KIND(Transform) KIND(Body) KIND(RigidBody) KIND(Collider) KIND(Joint) KIND(BallAndSocketJoint) KIND(FixedJoint) KIND(HingeJoint) KIND(SliderJoint) }
typedef Map<Entity, uint32> IndexMap;
// ---- memory: natively every block is recorded
struct Tracker : public MemoryAllocator {
    std::map<void*, size_t> live;
    void* allocate(size_t n) override { void* p = aligned_alloc(16, (n + 15) / 16 * 16); memset(p, 0x55, n); live[p] = n; return p; }
    void release(void* p, size_t) override { vc_assert(live.count(p) == 1, "only memory in use is released"); live.erase(p); free(p); }
};
// in the proofs the buffer is a sequence of arrays, one for each field; the sizes are added up
static void* gFresh[64]; static uint64_t gFreshBytes[64]; static uint32_t gFreshAt, gFreshCount; static uint64_t gBufferBytes, gUsed;
struct OneBuffer : public MemoryAllocator {
    void* allocate(size_t n) override { gBufferBytes = n; gFreshAt = 0; gUsed = gFreshBytes[0]; return gFresh[0]; }
    void release(void*, size_t) override { }
};
static OneBuffer gOne; static MemoryAllocator* gMem;
STUB("^reactphysics3d::MemoryAllocator::alignAddress\\(void\\*, unsigned char\\)") void* stub_align(void* p, uint8 alignment) {
    vc_assert(alignment == 16, "the arrays are aligned");
    vc_assert(p == (char*)gFresh[gFreshAt] + gFreshBytes[gFreshAt], "each array begins behind the end of the one before");
    gFreshAt++;
    gUsed += 16 + gFreshBytes[gFreshAt];
    vc_assume((uint64_t)gFresh[gFreshAt] <= (uint64_t)p + 16);
    return gFresh[gFreshAt];
}
// ---- the map
static uint32_t* gIdx; static bool* gHas; static uint64_t gSize; static uint32_t* gKeys;
STUB("^reactphysics3d::Map<reactphysics3d::Entity, unsigned int, [^(]*>::operator\\[\\]\\(") uint32_t* stub_look(const IndexMap*, const Entity* e) { vc_assert(gHas[e->id], "only entities in the map are looked up"); return &gIdx[e->id]; }
STUB("^reactphysics3d::Map<reactphysics3d::Entity, unsigned int, [^(]*>::containsKey\\(") bool stub_has(const IndexMap*, const Entity* e) { return gHas[e->id]; }
STUB("^reactphysics3d::Map<reactphysics3d::Entity, unsigned int, [^(]*>::size\\(") uint64_t stub_size(const IndexMap*) { return gSize; }
STUB("^reactphysics3d::Map<reactphysics3d::Entity, unsigned int, [^(]*>::add\\(") bool stub_add(IndexMap*, const Pair<Entity, uint32>* kv, bool) {
    vc_assert(!gHas[kv->first.id], "an entity is added to the map once");
    gHas[kv->first.id] = true; gIdx[kv->first.id] = kv->second; gSize++;
    return true;
}
STUB("^reactphysics3d::Map<reactphysics3d::Entity, unsigned int, [^(]*>::remove\\(reactphysics3d::Entity const&") void stub_remove(void*, IndexMap*, const Entity* e) {
    vc_assert(gHas[e->id], "only entities in the map are removed");
    gHas[e->id] = false; gSize--;
}
struct ArrayView { void* b; uint64_t n, c; };
STUB("^reactphysics3d::Array<[^>]*>::Array\\(reactphysics3d::Array<[^>]*> const&\\)") void stub_copy(ArrayView* d, const ArrayView* s) { d->b = s->b; d->n = s->n; d->c = s->c; }
STUB("^reactphysics3d::Array<[^>]*>::~Array\\(\\)") void stub_destroy(ArrayView*) { }
static uint64_t gRoom;
STUB("^reactphysics3d::[A-Za-z]*Components::allocate\\(") void stub_allocate(Components* c, uint32 n) {
    vc_assert(n > c->mNbAllocatedComponents, "the arrays grow");
    c->mNbAllocatedComponents = n;                    // contract: there is more room and the data stay the same (harness grow_*)
}
// ---- arrays of arbitrary values
template <class T> inline T* plain(T* p, const char* kind) { vc_field(p, 0, kind); return p; }
inline Entity* makeArray(Entity**, uint64_t n, const char* s) { return plain((Entity*)vc_array<uint32_t>(n, s), "i32"); }
inline BodyType* makeArray(BodyType**, uint64_t n, const char* s) { return plain((BodyType*)vc_array<uint32_t>(n, s), "i32"); }
inline JointType* makeArray(JointType**, uint64_t n, const char* s) { return plain((JointType*)vc_array<uint32_t>(n, s), "i32"); }
inline JointsPositionCorrectionTechnique* makeArray(JointsPositionCorrectionTechnique**, uint64_t n, const char* s) { return plain((JointsPositionCorrectionTechnique*)vc_array<uint32_t>(n, s), "i32"); }
inline bool* makeArray(bool**, uint64_t n, const char* s) { return plain(vc_array<bool>(n, s), "i8"); }
inline double* makeArray(double**, uint64_t n, const char* s) { return plain(vc_array<double>(n, s), "f64"); }
inline int32* makeArray(int32**, uint64_t n, const char* s) { return plain(vc_array<int32>(n, s), "i32"); }
inline unsigned short* makeArray(unsigned short**, uint64_t n, const char* s) { return plain(vc_array<unsigned short>(n, s), "i16"); }
template <class T> inline T** makeArray(T***, uint64_t n, const char* s) { return plain(vc_array<T*>(n, s), "ptr"); }
template <class T> inline Array<T>* makeArray(Array<T>**, uint64_t n, const char* s) { Array<T>* p = vc_array<Array<T>>(n, s); Array<T> t(*gMem); vc_layout_like(p, &t); return p; }
inline Material* makeArray(Material**, uint64_t n, const char* s) { Material* p = vc_array<Material>(n, s); Material t(1, 1, 1); vc_layout_like(p, &t); return p; }
template <class T> inline T* makeArray(T**, uint64_t n, const char* s) { T* p = vc_array<T>(n, s); T t; vc_layout_like(p, &t); return p; }
// ---- equality of values
template <int N> inline bool sameReals(const double* a, const double* b) { return vc_and(a[0] == b[0], sameReals<N - 1>(a + 1, b + 1)); }
template <> inline bool sameReals<0>(const double*, const double*) { return true; }
template <class T> struct Same { static bool as(const T& a, const T& b) { return sameReals<sizeof(T) / 8>((const double*)&a, (const double*)&b); } };
#define PLAIN(T) template <> struct Same<T> { static bool as(const T& a, const T& b) { return a == b; } };
PLAIN(bool) PLAIN(int32) PLAIN(unsigned short) PLAIN(BodyType) PLAIN(JointType) PLAIN(JointsPositionCorrectionTechnique)
template <> struct Same<Entity> { static bool as(const Entity& a, const Entity& b) { return a.id == b.id; } };
template <class T> struct Same<T*> { static bool as(T* const& a, T* const& b) { return a == b; } };
template <class T> struct Same<Array<T>> { static bool as(const Array<T>& a, const Array<T>& b) { return vc_and(a.mBuffer == b.mBuffer, a.mSize == b.mSize); } };
// ---- natively: a copy of the data of every entity
template <class T> struct Image { static std::vector<char> of(const T& x) { return std::vector<char>((const char*)&x, (const char*)&x + sizeof(T)); } static void fill(T& x) { for (size_t i = 0; i < sizeof(T); i++) ((char*)&x)[i] = (char)vc_any_u32("data"); } };
template <> struct Image<bool> { static std::vector<char> of(const bool& x) { return std::vector<char>(1, x); } static void fill(bool& x) { x = vc_any_bool("data"); } };
template <class T> struct Image<Array<T>> {
    static std::vector<char> of(const Array<T>& x) { return std::vector<char>((const char*)x.mBuffer, (const char*)(x.mBuffer + x.mSize)); }
    static void fill(Array<T>& x) { for (uint32_t k = vc_any_u32("n") % 4; k > 0; k--) { std::vector<char> v(sizeof(T), (char)vc_any_u32("data")); x.add(*(T*)v.data()); } }
};
template <class K> static std::vector<std::vector<char>> image(typename K::C& c, uint32_t k) {
    std::vector<std::vector<char>> r;
    K::each(c, [&](auto* a, const char* what) { r.push_back(Image<typename std::remove_reference<decltype(*a)>::type>::of(a[k])); });
    return r;
}
template <class K> static void fillSlot(typename K::C& c, uint32_t k) {
    bool first = true;
    K::each(c, [&](auto* a, const char* what) { if (!first) Image<typename std::remove_reference<decltype(*a)>::type>::fill(a[k]); first = false; });
}
// ---- the components that are added, with arbitrary data
static RigidBody* gRB; static Body* gBd; static Collider* gCol; static Joint* gJt; static CollisionShape* gShape; static Vector3 gPos; static Transform gT1, gT2; static Material gMat(1, 1, 1);
static BallAndSocketJoint* gBJ; static FixedJoint* gFJ; static HingeJoint* gHJ; static SliderJoint* gSJ;
static uint32_t gBits1, gBits2, gBody1, gBody2; static uint32_t gEnum; static bool gFlag, gFlag2; static double gA, gB, gC, gD;
template <class T> static T* anyPtr(const char* n) { return vc_native() ? (T*)(uintptr_t)(16 * (1 + vc_any_u32(n) % 1000)) : (T*)vc_heapptr(n); }
static void anyData() {
    gRB = anyPtr<RigidBody>("rigid body"); gBd = anyPtr<Body>("body object"); gCol = anyPtr<Collider>("collider"); gJt = anyPtr<Joint>("joint"); gShape = anyPtr<CollisionShape>("shape");
    gBJ = anyPtr<BallAndSocketJoint>("joint"); gFJ = anyPtr<FixedJoint>("joint"); gHJ = anyPtr<HingeJoint>("joint"); gSJ = anyPtr<SliderJoint>("joint");
    gPos = anyVec("position"); gT1 = anyTransform("t1"); gT2 = anyTransform("t2");
    gBits1 = vc_any_u32("category"); gBits2 = vc_any_u32("mask"); gBody1 = vc_any_u32("body1"); gBody2 = vc_any_u32("body2"); gEnum = vc_any_u32("enum") & 1; gFlag = vc_any_bool("flag"); gFlag2 = vc_any_bool("flag2");
    gA = vc_any_real("a"); gB = vc_any_real("b"); gC = vc_any_real("c"); gD = vc_any_real("d");
}
static Entity entity(uint32_t id) { Entity e(0, 0); e.id = id; return e; }
template <class T> static bool is(const T& a, const T& b) { return Same<T>::as(a, b); }
static bool vec(const Vector3& v, double x, double y, double z) { return vc_and(v.x == x, vc_and(v.y == y, v.z == z)); }
static void addOne(TransformComponents& c, Entity e, bool d) { c.addComponent(e, d, TransformComponents::TransformComponent(gT1)); }
static void added(TransformComponents& c, uint64_t k) { vc_assert(is(c.mTransforms[k], gT1), "the transform is the given one"); }
static void addOne(BodyComponents& c, Entity e, bool d) { c.addComponent(e, d, BodyComponents::BodyComponent(gBd)); }
static void added(BodyComponents& c, uint64_t k) {
    vc_assert(c.mBodies[k] == gBd, "the body is the given one"); vc_assert(c.mIsActive[k], "a new body is active"); vc_assert(c.mUserData[k] == nullptr, "a new body has no user data");
    vc_assert(c.mColliders[k].mSize == 0, "a new body has no colliders"); vc_assert(!c.mHasSimulationCollider[k], "a new body has no collider for the simulation");
}
static void addOne(RigidBodyComponents& c, Entity e, bool d) { c.addComponent(e, d, RigidBodyComponents::RigidBodyComponent(gRB, (BodyType)(gEnum + 1), gPos)); }
static void added(RigidBodyComponents& c, uint64_t k) {
    vc_assert(c.mRigidBodies[k] == gRB, "the body is the given one"); vc_assert((uint32_t)c.mBodyTypes[k] == gEnum + 1, "the type is the given one");
    vc_assert(is(c.mCentersOfMassWorld[k], gPos), "the centre of mass is the given position"); vc_assert(vec(c.mCentersOfMassLocal[k], 0, 0, 0), "the local centre of mass is the origin");
    vc_assert(vec(c.mLinearVelocities[k], 0, 0, 0), "a new body has no velocity"); vc_assert(vec(c.mAngularVelocities[k], 0, 0, 0), "a new body has no angular velocity");
    vc_assert(vec(c.mExternalForces[k], 0, 0, 0), "a new body has no forces"); vc_assert(vec(c.mExternalTorques[k], 0, 0, 0), "a new body has no torques");
    vc_assert(vec(c.mSplitLinearVelocities[k], 0, 0, 0), "no split velocity"); vc_assert(vec(c.mSplitAngularVelocities[k], 0, 0, 0), "no split angular velocity");
    vc_assert(vc_and(c.mLinearDampings[k] == 0, c.mAngularDampings[k] == 0), "a new body has no damping"); vc_assert(vc_and(c.mMasses[k] == 1, c.mInverseMasses[k] == 1), "a new body has mass 1");
    vc_assert(vec(c.mLinearLockAxisFactors[k], 1, 1, 1), "no locked axes"); vc_assert(vec(c.mAngularLockAxisFactors[k], 1, 1, 1), "no locked rotation axes");
    vc_assert(c.mIsAllowedToSleep[k], "a new body may sleep"); vc_assert(!c.mIsSleeping[k], "a new body is awake"); vc_assert(c.mSleepTimes[k] == 0, "the time to sleep starts at 0");
    vc_assert(c.mIsGravityEnabled[k], "gravity acts on a new body"); vc_assert(!c.mIsAlreadyInIsland[k], "a new body is in no island");
    vc_assert(vc_and(c.mJoints[k].mSize == 0, c.mContactPairs[k].mSize == 0), "a new body has no joints and contacts");
}
static void addOne(ColliderComponents& c, Entity e, bool d) { c.addComponent(e, d, ColliderComponents::ColliderComponent(entity(gBody1), gCol, AABB(Vector3(0, 0, 0), Vector3(1, 1, 1)), gT1, gShape, (unsigned short)gBits1, (unsigned short)gBits2, gT2, gMat)); }
static void added(ColliderComponents& c, uint64_t k) {
    vc_assert(c.mBodiesEntities[k].id == gBody1, "the body is the given one"); vc_assert(c.mColliders[k] == gCol, "the collider is the given one"); vc_assert(c.mCollisionShapes[k] == gShape, "the shape is the given one");
    vc_assert(c.mBroadPhaseIds[k] == -1, "a new collider is not in the broad phase"); vc_assert(is(c.mLocalToBodyTransforms[k], gT1), "the local pose is the given one"); vc_assert(is(c.mLocalToWorldTransforms[k], gT2), "the pose is the given one");
    vc_assert(c.mCollisionCategoryBits[k] == (unsigned short)gBits1, "the category bits are the given ones"); vc_assert(c.mCollideWithMaskBits[k] == (unsigned short)gBits2, "the mask bits are the given ones");
    vc_assert(c.mOverlappingPairs[k].mSize == 0, "a new collider has no pairs"); vc_assert(!c.mIsTrigger[k], "a new collider is not a trigger"); vc_assert(c.mIsSimulationCollider[k], "a new collider is part of the simulation");
    vc_assert(c.mIsWorldQueryCollider[k], "a new collider is part of queries"); vc_assert(!c.mHasCollisionShapeChangedSize[k], "the shape of a new collider has not changed");
    vc_assert(is(c.mMaterials[k], gMat), "the material is the given one");
}
static void addOne(JointComponents& c, Entity e, bool d) { c.addComponent(e, d, JointComponents::JointComponent(entity(gBody1), entity(gBody2), gJt, (JointType)gEnum, (JointsPositionCorrectionTechnique)gEnum, gFlag)); }
static void added(JointComponents& c, uint64_t k) {
    vc_assert(c.mBody1Entities[k].id == gBody1, "the first body is the given one"); vc_assert(c.mBody2Entities[k].id == gBody2, "the second body is the given one"); vc_assert(c.mJoints[k] == gJt, "the joint is the given one");
    vc_assert((uint32_t)c.mTypes[k] == gEnum, "the type is the given one"); vc_assert((uint32_t)c.mPositionCorrectionTechniques[k] == gEnum, "the technique is the given one");
    vc_assert(c.mIsCollisionEnabled[k] == gFlag, "the collision flag is the given one"); vc_assert(!c.mIsAlreadyInIsland[k], "a new joint is in no island");
}
static void addOne(BallAndSocketJointComponents& c, Entity e, bool d) { c.addComponent(e, d, BallAndSocketJointComponents::BallAndSocketJointComponent(gFlag, gA)); }
static void added(BallAndSocketJointComponents& c, uint64_t k) {
    vc_assert(vec(c.mImpulse[k], 0, 0, 0), "a new joint has no impulse"); vc_assert(c.mConeLimitImpulse[k] == 0, "a new joint has no limit impulse");
    vc_assert(c.mIsConeLimitEnabled[k] == gFlag, "the limit flag is the given one"); vc_assert(c.mConeLimitHalfAngle[k] == gA, "the limit is the given one");
}
static void addOne(FixedJointComponents& c, Entity e, bool d) { c.addComponent(e, d, FixedJointComponents::FixedJointComponent()); }
static void added(FixedJointComponents& c, uint64_t k) { vc_assert(vec(c.mImpulseTranslation[k], 0, 0, 0), "a new joint has no impulse"); vc_assert(vec(c.mImpulseRotation[k], 0, 0, 0), "a new joint has no rotation impulse"); }
static void addOne(HingeJointComponents& c, Entity e, bool d) { c.addComponent(e, d, HingeJointComponents::HingeJointComponent(gFlag, gFlag2, gA, gB, gC, gD)); }
static void limits(bool l, bool m, double lo, double hi, double speed, double force) {
    vc_assert(l == gFlag, "the limit flag is the given one"); vc_assert(m == gFlag2, "the motor flag is the given one"); vc_assert(vc_and(lo == gA, hi == gB), "the limits are the given ones"); vc_assert(vc_and(speed == gC, force == gD), "the motor is the given one");
}
static void added(HingeJointComponents& c, uint64_t k) {
    vc_assert(vec(c.mImpulseTranslation[k], 0, 0, 0), "a new joint has no impulse"); vc_assert(vc_and(c.mImpulseRotation[k].x == 0, c.mImpulseRotation[k].y == 0), "a new joint has no rotation impulse");
    vc_assert(vc_and(c.mImpulseLowerLimit[k] == 0, vc_and(c.mImpulseUpperLimit[k] == 0, c.mImpulseMotor[k] == 0)), "a new joint has no limit impulses");
    limits(c.mIsLimitEnabled[k], c.mIsMotorEnabled[k], c.mLowerLimit[k], c.mUpperLimit[k], c.mMotorSpeed[k], c.mMaxMotorTorque[k]);
}
static void addOne(SliderJointComponents& c, Entity e, bool d) { c.addComponent(e, d, SliderJointComponents::SliderJointComponent(gFlag, gFlag2, gA, gB, gC, gD)); }
static void added(SliderJointComponents& c, uint64_t k) {
    vc_assert(vec(c.mImpulseRotation[k], 0, 0, 0), "a new joint has no rotation impulse"); vc_assert(vc_and(c.mImpulseTranslation[k].x == 0, c.mImpulseTranslation[k].y == 0), "a new joint has no impulse");
    vc_assert(vc_and(c.mImpulseLowerLimit[k] == 0, vc_and(c.mImpulseUpperLimit[k] == 0, c.mImpulseMotor[k] == 0)), "a new joint has no limit impulses");
    limits(c.mIsLimitEnabled[k], c.mIsMotorEnabled[k], c.mLowerLimit[k], c.mUpperLimit[k], c.mMotorSpeed[k], c.mMaxMotorForce[k]);
}
// ---- natively: a random history, compared with a copy of the data
static bool mapHas(Components& c, Entity e) { return c.mMapEntityToComponentIndex.containsKey(e); }
template <class K> static void history(uint32_t kind) {
    Tracker t; gMem = &t;
    {
        typename K::C c(t); c.init();
        std::map<uint32_t, std::pair<bool, std::vector<std::vector<char>>>> model;
        const uint32_t steps = 1 + vc_any_u32("steps") % 24; bool many = vc_any_u32("many") % 8 == 0;
        for (uint32_t s = 0; s < (many ? 200 : steps); s++) {
            uint32_t op = s + 1 == steps ? kind : vc_any_u32("op") % 3; if (model.empty() || (many && s < 120)) op = 0;
            uint32_t pick = vc_any_u32("pick"), id = 0;
            if (op == 0) {
                do id = vc_any_u32("id") % 4096; while (model.count(id));
                bool d = vc_any_bool("disabled"); anyData();
                addOne(c, entity(id), d);
                vc_assert(mapHas(c, entity(id)), "the new entity is in the map");
                uint32_t k = c.getEntityIndex(entity(id));
                vc_assert(k < c.mNbComponents, "its index is in range");
                added(c, k); fillSlot<K>(c, k);
                model[id] = std::make_pair(d, image<K>(c, k));
            }
            else {
                auto it = model.begin(); std::advance(it, pick % model.size()); id = it->first;
                if (op == 1) { c.removeComponent(entity(id)); model.erase(id); vc_assert(!mapHas(c, entity(id)), "the entity that is removed is gone"); }
                else { bool d = vc_any_bool("disabled"); c.setIsEntityDisabled(entity(id), d); it->second.first = d; }
            }
            vc_assert(c.mNbComponents == model.size(), "the number of components is right");
            uint32_t enabled = 0;
            for (auto& m : model) {
                Entity e = entity(m.first); if (!m.second.first) enabled++;
                vc_assert(mapHas(c, e), "the other entities stay"); uint32_t k = c.getEntityIndex(e);
                vc_assert(k < c.mNbComponents, "the index of an entity is in range"); vc_assert((k < c.mDisabledStartIndex) == !m.second.first, "an entity is enabled or disabled as before");
                vc_assert(image<K>(c, k) == m.second.second, "an entity keeps its data");
            }
            vc_assert(c.mDisabledStartIndex == enabled, "the enabled components come first");
        }
        for (auto& m : model) c.removeComponent(entity(m.first));
    }
    vc_assert(t.live.empty(), "all memory is released");
}
// ---- the proofs
static void* gOld[64]; static uint64_t gN, gDis, gCap, gU, gK;
template <class K> struct Box { alignas(16) unsigned char bytes[sizeof(typename K::C)]; };
template <class K> static typename K::C& any(Box<K>& box) {
    gMem = &gOne;
    typename K::C& c = *new (box.bytes) typename K::C(gOne);
    gN = vc_any_u64("components"); gDis = vc_any_u64("enabled"); gCap = vc_any_u64("capacity");
    vc_assume(gN < 1ull << 24); vc_assume(gDis <= gN); vc_assume(gCap >= gN); vc_assume(gCap >= 1); vc_assume(gCap < 1ull << 24);
    c.mNbComponents = (uint32_t)gN; c.mDisabledStartIndex = (uint32_t)gDis; c.mNbAllocatedComponents = (uint32_t)gCap;
    gRoom = 2 * gCap; gSize = gN;
    int i = 0;
    K::each(c, [&](auto*& a, const char* what) { a = makeArray(&a, gRoom, "field"); if (i == 0) gKeys = (uint32_t*)a; i++; });
    gHas = vc_array<bool>(1ull << 32, "in the map"); gIdx = vc_array<uint32_t>(1ull << 32, "index");
    ASSUME(vc_forall(0, gN, [&](uint64_t j) { return vc_and(gHas[gKeys[j]], gIdx[gKeys[j]] == j); }));
    return c;
}
static void anyMember(uint32_t id) { vc_assume(gHas[id]); vc_assume(gIdx[id] < gN); vc_assume(gKeys[gIdx[id]] == id); }
// follow an arbitrary entity U of the arrays
template <class K> static void follow(typename K::C& c) {
    gU = vc_any_u32("another entity"); anyMember((uint32_t)gU); gK = gIdx[gU];
    int i = 0;
    K::each(c, [&](auto* a, const char* what) { gOld[i] = vc_snapshot(a); i++; });
}
template <class K> static void kept(typename K::C& c, bool enabled) {
    vc_assert(gHas[gU], "the other entities stay"); const uint64_t k = gIdx[gU];
    vc_assert(k < c.mNbComponents, "the index of an entity is in range"); vc_assert((k < c.mDisabledStartIndex) == enabled, "an entity is enabled or disabled as before");
    int i = 0;
    K::each(c, [&](auto* a, const char* what) { typedef typename std::remove_reference<decltype(*a)>::type T; vc_assert(Same<T>::as(a[k], ((T*)gOld[i])[gK]), what); i++; });
}
template <class K> static void packed(typename K::C& c) {
    const uint64_t j = vc_any_u64("slot"); vc_assume(j < c.mNbComponents);
    const uint32_t id = gKeys[j];
    vc_assert(gHas[id], "every place holds an entity of the map"); vc_assert(gIdx[id] == j, "the map knows its place");
    vc_assert(c.mDisabledStartIndex <= c.mNbComponents, "the enabled components come first"); vc_assert(gSize == c.mNbComponents, "the map has as many entities");
    vc_assert(c.mNbComponents <= c.mNbAllocatedComponents, "there is room for all components");
}
template <class K> static void removeProof() {
    if (vc_native()) { history<K>(1); return; }
    static Box<K> box; typename K::C& c = any<K>(box); follow<K>(c);
    const uint32_t e = vc_any_u32("entity"); anyMember(e);
    const bool was = gIdx[e] < gDis, uEnabled = gK < gDis;
    c.removeComponent(entity(e));
    vc_assert(c.mNbComponents == gN - 1, "there is one component less"); vc_assert(c.mDisabledStartIndex == gDis - (was ? 1 : 0), "the number of enabled components is right");
    vc_assert(!gHas[e], "the entity that is removed is gone");
    packed<K>(c);
    if (gU != e) kept<K>(c, uEnabled);
}
template <class K> static void disableProof() {
    if (vc_native()) { history<K>(2); return; }
    static Box<K> box; typename K::C& c = any<K>(box); follow<K>(c);
    const uint32_t e = vc_any_u32("entity"); anyMember(e);
    const bool was = gIdx[e] < gDis, uEnabled = gK < gDis, d = vc_split(vc_any_bool("disabled"));
    c.setIsEntityDisabled(entity(e), d);
    vc_assert(c.mNbComponents == gN, "the number of components stays"); vc_assert(c.mDisabledStartIndex == gDis - (was && d ? 1 : 0) + (!was && !d ? 1 : 0), "the number of enabled components is right");
    packed<K>(c);
    kept<K>(c, gU == e ? !d : uEnabled);
}
template <class K> static void addProof() {
    if (vc_native()) { history<K>(0); return; }
    static Box<K> box; typename K::C& c = any<K>(box); follow<K>(c);
    anyData();
    const uint32_t e = vc_any_u32("entity"); vc_assume(!gHas[e]);
    const bool uEnabled = gK < gDis, d = vc_split(vc_any_bool("disabled"));
    addOne(c, entity(e), d);
    vc_assert(c.mNbComponents == gN + 1, "there is one component more"); vc_assert(c.mDisabledStartIndex == gDis + (d ? 0 : 1), "the number of enabled components is right");
    vc_assert(gHas[e], "the new entity is in the map"); const uint64_t k = gIdx[e];
    vc_assert(k < c.mNbComponents, "its index is in range"); vc_assert(gKeys[k] == e, "its place is its own"); vc_assert((k < c.mDisabledStartIndex) == !d, "it is enabled or disabled as asked for");
    added(c, k);
    packed<K>(c);
    kept<K>(c, uEnabled);
}
template <class K> static void growProof() {
    if (vc_native()) { history<K>(0); return; }
    static Box<K> box; typename K::C& c = any<K>(box); follow<K>(c);
    const uint32_t want = vc_any_u32("wanted"); vc_assume(want > gCap); vc_assume(want < 1u << 24);
    const uint64_t room = (uint64_t)((want + 15) / 16) * 16;
    int i = 0;
    K::each(c, [&](auto* a, const char* what) { auto* f = makeArray(&a, room, "new field"); gFresh[i] = f; gFreshBytes[i] = room * sizeof(*a); i++; });
    gFreshCount = i;
    c.allocate(want);
    vc_assert(c.mNbAllocatedComponents >= want, "there is room for as many components as asked for");
    vc_assert(c.mNbAllocatedComponents <= room, "there is no more room than the arrays have");
    vc_assert(gFreshAt + 1 == gFreshCount, "every field has its array"); vc_assert(gUsed <= gBufferBytes, "the arrays fit into the buffer");
    vc_assert(c.mNbComponents == gN, "the number of components stays"); vc_assert(c.mDisabledStartIndex == gDis, "the number of enabled components stays");
    kept<K>(c, gK < gDis);
}
#define MAP "stubs=stub_look,stub_has,stub_size,stub_add,stub_remove,stub_copy,stub_destroy"
#define PROOFS(n, K) \
HARNESS(add_##n, MAP ",stub_allocate") { addProof<kind::K>(); } \
HARNESS(remove_##n, MAP) { removeProof<kind::K>(); } \
HARNESS(disable_##n, MAP) { disableProof<kind::K>(); } \
HARNESS(grow_##n, MAP ",stub_align") { growProof<kind::K>(); }
PROOFS(transform, Transform) PROOFS(body, Body) PROOFS(rigid_body, RigidBody) PROOFS(collider, Collider) PROOFS(joint, Joint)
PROOFS(ball_joint, BallAndSocketJoint) PROOFS(fixed_joint, FixedJoint) PROOFS(hinge_joint, HingeJoint) PROOFS(slider_joint, SliderJoint)
