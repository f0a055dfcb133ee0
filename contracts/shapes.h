// arbitrary collision shapes (their real constructors)
#ifndef SHAPES_CONTRACT_H
#define SHAPES_CONTRACT_H
#include "mesh.h"
#include "mathematics/Vector3.cpp"
#include "mathematics/Quaternion.cpp"
#include "mathematics/Matrix3x3.cpp"
#include "collision/shapes/AABB.cpp"
#include "collision/shapes/CollisionShape.cpp"
#include "collision/shapes/ConvexShape.cpp"
#include "collision/shapes/ConvexPolyhedronShape.cpp"
#include "collision/shapes/BoxShape.cpp"
#include "collision/shapes/SphereShape.cpp"
#include "collision/shapes/CapsuleShape.cpp"
#include "collision/shapes/TriangleShape.cpp"
#include "collision/shapes/ConvexMeshShape.cpp"
#include "collision/ConvexMesh.cpp"
Logger* PhysicsCommon::mLogger = nullptr;
static GhostAllocator gAlloc;
static VcRaw<PhysicsCommon> gCommon;
static VcRaw<HalfEdgeStructure> gHalf;
inline double lower(double a, double b) { return a < b ? a : b; }
inline double upper(double a, double b) { return a < b ? b : a; }
static double anyPositive(const char* n) { double d = vc_any_real(n); if (vc_native()) d = std::fabs(d) + 0.01; vc_assume(d > 0); return d; }
static BoxShape* anyBoxShape(VcRaw<BoxShape>& raw) {
    double x = anyPositive("hx"), y = anyPositive("hy"), z = anyPositive("hz");
    return new (raw.bytes) BoxShape(Vector3(x, y, z), gAlloc, gCommon.r());
}
static SphereShape* anySphere(VcRaw<SphereShape>& raw) { return new (raw.bytes) SphereShape(anyPositive("radius"), gAlloc); }
static CapsuleShape* anyCapsule(VcRaw<CapsuleShape>& raw) { double r = anyPositive("radius"), h = anyPositive("height"); return new (raw.bytes) CapsuleShape(r, h, gAlloc); }
static TriangleShape* anyTriangle(VcRaw<TriangleShape>& raw, Vector3* v) {
    v[0] = anyVec("v0"); v[1] = anyVec("v1"); v[2] = anyVec("v2");
    return new (raw.bytes) TriangleShape(v, 7, gHalf.r(), gAlloc);
}
#endif
