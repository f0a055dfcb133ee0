// Shared specification vocabulary for the contracts (pure mathematics, independent of the code under contract).
#ifndef COMMON_CONTRACT_H
#define COMMON_CONTRACT_H
#include "vc.h"
#include <reactphysics3d/mathematics/mathematics.h>
using namespace reactphysics3d;

// an arbitrary vector / quaternion / matrix, every component unconstrained
inline Vector3 anyVec(const char* n) { double a = vc_any_real(n), b = vc_any_real(n), c = vc_any_real(n); return Vector3(a, b, c); }
inline double sq(double x) { return x * x; }
// a name for the value of an expression
static double gNamedExpr[24], gNamedVal[24]; static int gNamedCount = 0;
inline double named(double e) {
    if (vc_native()) return e;
    for (int i = 0; i < gNamedCount; i++) if (vc_same(gNamedExpr[i], e)) return gNamedVal[i];
    double v = vc_any_real("named");
    vc_assume(v == e);
    if (gNamedCount < 24) { gNamedExpr[gNamedCount] = e; gNamedVal[gNamedCount++] = v; }
    return v;
}
// a name for the value of an expression whose definition is not made known (the proof may use lemmas about it instead); lookup gives the name if
// the expression has one
inline double opaque(double e) {
    if (vc_native()) return e;
    for (int i = 0; i < gNamedCount; i++) if (vc_same(gNamedExpr[i], e)) return gNamedVal[i];
    double v = vc_any_real("opaque");
    if (gNamedCount < 24) { gNamedExpr[gNamedCount] = e; gNamedVal[gNamedCount++] = v; }
    return v;
}
inline double lookup(double e) {
    if (vc_native()) return e;
    for (int i = 0; i < gNamedCount; i++) if (vc_same(gNamedExpr[i], e)) return gNamedVal[i];
    return e;
}
inline bool eqv(const Vector3& a, double x, double y, double z) { return vc_and(vc_eq(a.x, x), vc_and(vc_eq(a.y, y), vc_eq(a.z, z))); }
inline bool eqv(const Vector3& a, const Vector3& b) { return eqv(a, b.x, b.y, b.z); }
inline double dot3(const Vector3& a, const Vector3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline double norm2(const Vector3& a) { return a.x * a.x + a.y * a.y + a.z * a.z; }
inline double qnorm2(const Quaternion& q) { return q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w; }
// arbitrary unit quaternion (natively: a normalised random one)
inline Quaternion anyUnitQuat(const char* n) {
    double x = vc_any_real(n), y = vc_any_real(n), z = vc_any_real(n), w = vc_any_real(n);
    if (vc_native()) {
        double l = std::sqrt(x * x + y * y + z * z + w * w);
        vc_assume(l > 1e-3);
        x /= l; y /= l; z /= l; w /= l;
    }
    Quaternion q(x, y, z, w);
    vc_assume(vc_eq(x * x + y * y + z * z + w * w, 1.0));
    return q;
}
inline Vector3 anyUnitVec(const char* n) {
    double x = vc_any_real(n), y = vc_any_real(n), z = vc_any_real(n);
    if (vc_native()) {
        double l = std::sqrt(x * x + y * y + z * z);
        vc_assume(l > 1e-3);
        x /= l; y /= l; z /= l;
    }
    vc_assume(vc_eq(x * x + y * y + z * z, 1.0));
    return Vector3(x, y, z);
}
inline Transform anyTransform(const char* n) { Vector3 p = anyVec(n); Quaternion q = anyUnitQuat(n); return Transform(p, q); }
// the rotation of v by the unit quaternion q, written as the rotation matrix of q (Euler-Rodrigues)
struct Rot { double m[3][3]; };
inline Rot rotOf(const Quaternion& q) {
    Rot r;
    r.m[0][0] = 1 - 2 * (q.y * q.y + q.z * q.z); r.m[0][1] = 2 * (q.x * q.y - q.w * q.z); r.m[0][2] = 2 * (q.x * q.z + q.w * q.y);
    r.m[1][0] = 2 * (q.x * q.y + q.w * q.z); r.m[1][1] = 1 - 2 * (q.x * q.x + q.z * q.z); r.m[1][2] = 2 * (q.y * q.z - q.w * q.x);
    r.m[2][0] = 2 * (q.x * q.z - q.w * q.y); r.m[2][1] = 2 * (q.y * q.z + q.w * q.x); r.m[2][2] = 1 - 2 * (q.x * q.x + q.y * q.y);
    return r;
}
inline Vector3 mul(const Rot& r, const Vector3& v) {
    return Vector3(r.m[0][0] * v.x + r.m[0][1] * v.y + r.m[0][2] * v.z, r.m[1][0] * v.x + r.m[1][1] * v.y + r.m[1][2] * v.z,
                   r.m[2][0] * v.x + r.m[2][1] * v.y + r.m[2][2] * v.z);
}
inline Vector3 mulT(const Rot& r, const Vector3& v) {
    return Vector3(r.m[0][0] * v.x + r.m[1][0] * v.y + r.m[2][0] * v.z, r.m[0][1] * v.x + r.m[1][1] * v.y + r.m[2][1] * v.z,
                   r.m[0][2] * v.x + r.m[1][2] * v.y + r.m[2][2] * v.z);
}
// equal up to the rounding of constants such as 1/3
inline bool about(double a, double b) { return vc_native() ? std::fabs(a - b) <= 1e-6 * (1 + std::fabs(b)) : std::fabs(a - b) <= std::fabs(b) * 1e-12; }
// no-op memory manager access for code that wants an allocator: blocks come from the contract's ghost heap
struct GhostAllocator : public MemoryAllocator {
    void* allocate(size_t size) override { return vc_alloc(size, "block"); }
    void release(void* p, size_t size) override { vc_release(p, size); }
};
#endif
