// M02: geometric helper functions equal their geometric definition
//! opts: nl
//! assume: nothing beyond real arithmetic
#include "common.h"
#include <reactphysics3d/mathematics/mathematics_functions.h>
#include "mathematics/Vector3.cpp"

// exact contract of the dot product, with a name for the value (helps the nonlinear arithmetic)
STUB("^reactphysics3d::Vector3::dot") double stub_dot(const Vector3* a, const Vector3& b) { return named(a->x * b.x + a->y * b.y + a->z * b.z); }
STUB("^reactphysics3d::Vector3::lengthSquare") double stub_len2(const Vector3* a) { return named(a->x * a->x + a->y * a->y + a->z * a->z); }

HARNESS(clamp_numbers, "") {
    double v = vc_any_real("v"), lo = vc_any_real("lo"), hi = vc_any_real("hi");
    vc_assume(lo <= hi);
    double r = clamp(v, lo, hi);
    vc_assert(r >= lo && r <= hi && (r == v || (r == lo && v < lo) || (r == hi && v > hi)), "clamping a number");
    int vi = vc_any_i32("vi"), li = vc_any_i32("li"), ui = vc_any_i32("ui");
    vc_assume(li <= ui);
    int ri = clamp(vi, li, ui);
    vc_assert(ri >= li && ri <= ui && (ri == vi || (ri == li && vi < li) || (ri == ui && vi > ui)), "clamping an integer");
    double a = vc_any_real("a"), b = vc_any_real("b"), c = vc_any_real("c");
    double m = min3(a, b, c), x = max3(a, b, c);
    vc_assert(m <= a && m <= b && m <= c && (m == a || m == b || m == c), "minimum of three");
    vc_assert(x >= a && x >= b && x >= c && (x == a || x == b || x == c), "maximum of three");
    vc_assert(sameSign(a, b) == ((a >= 0 && b >= 0) || (a <= 0 && b <= 0)), "same sign");
}
HARNESS(clamp_vector, "") {
    Vector3 v = anyVec("v"); double m = vc_any_real("max");
    if (vc_native()) m = std::fabs(m) + 0.01;
    vc_assume(m > 0.001);
    double l = v.length();
    Vector3 r = clamp(v, m);
    if (l <= m) vc_assert(eqv(r, v), "a short vector is kept");
    else { vc_assert(eqv(r * l, v * m), "a long vector is scaled down to the maximum"); }
    vc_assert(vc_le(norm2(r), m * m), "the result is not longer than the maximum");
}
HARNESS(closest_on_segment, "") {
    Vector3 a = anyVec("a"), b = anyVec("b"), c = anyVec("c");
    Vector3 ab = b - a;
    double l2 = norm2(ab);
    vc_assume(l2 > 1e-6);
    Vector3 r = computeClosestPointOnSegment(a, b, c);
    // r = a + t ab with t in [0, 1], and no point of the segment is closer: variational inequality at both ends
    double t = dot3(r - a, ab) / l2;
    vc_assert(vc_le(0, t) && vc_le(t, 1), "the closest point is on the segment");
    vc_assert(eqv(r, a + t * ab), "the closest point is on the line of the segment");
    vc_assert(vc_le(dot3(c - r, a - r), 0) && vc_le(dot3(c - r, b - r), 0), "no other point of the segment is closer");
}
// Two segments: the scalar products the function needs are given names (their Gram matrix), so that the argument is about
// five numbers; a product the contract does not know by name is computed.
static Vector3 gD1, gD2, gR; static double gA, gB, gC, gE, gF; static bool gNamed;
inline bool same(const Vector3& a, const Vector3& b) { return vc_same(a.x, b.x) && vc_same(a.y, b.y) && vc_same(a.z, b.z); }
static double gram(const Vector3& u, const Vector3& v) {
    if (same(u, gD1) && same(v, gD1)) return gA;
    if (same(u, gD2) && same(v, gD2)) return gE;
    if ((same(u, gD1) && same(v, gD2)) || (same(u, gD2) && same(v, gD1))) return gB;
    if ((same(u, gD1) && same(v, gR)) || (same(u, gR) && same(v, gD1))) return gC;
    if ((same(u, gD2) && same(v, gR)) || (same(u, gR) && same(v, gD2))) return gF;
    return u.x * v.x + u.y * v.y + u.z * v.z;
}
STUB("^reactphysics3d::Vector3::dot") double gram_dot(const Vector3* a, const Vector3& b) { return gram(*a, b); }
STUB("^reactphysics3d::Vector3::lengthSquare") double gram_len2(const Vector3* a) { return gram(*a, *a); }
static double pick(const Vector3& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
static double coordinate(const Vector3& a, const Vector3& d, const Vector3& p) {   // the s with p = a + s d
    if (vc_native()) return dot3(p - a, d) / norm2(d);
    double s = vc_any_real("coordinate");
    vc_assume(eqv(p, a + s * d));
    return s;
}
HARNESS(closest_segments, "stubs=gram_dot,gram_len2;cost=6;nl") {
    Vector3 a1 = anyVec("a1"), a2 = anyVec("a2");
    gD1 = anyVec("d1"); gD2 = anyVec("d2");
    if (vc_native() && vc_any_bool("parallel")) { gD2 = gD1 * vc_any_real("factor"); }
    gR = a1 - a2;
    Vector3 b1 = a1 + gD1, b2 = a2 + gD2;
    if (vc_native()) { gD1 = b1 - a1; gD2 = b2 - a2; gR = a1 - a2; gA = norm2(gD1); gE = norm2(gD2); gB = dot3(gD1, gD2); gC = dot3(gD1, gR); gF = dot3(gD2, gR); }
    else { gA = vc_any_real("A"); gB = vc_any_real("B"); gC = vc_any_real("C"); gE = vc_any_real("E"); gF = vc_any_real("F"); }
    vc_assume(gA > 1e-6); vc_assume(gE > 1e-6);
    if (!vc_native()) { vc_assume(gB * gB <= gA * gE); vc_assume(vc_implies(gB * gB == gA * gE, gA * gF == gB * gC)); }   // facts about any Gram matrix (Cauchy-Schwarz and its equality case)
    if (!vc_native()) { vc_assume(VC(gD1.x != 0 || gD1.y != 0 || gD1.z != 0)); vc_assume(VC(gD2.x != 0 || gD2.y != 0 || gD2.z != 0)); }
    Vector3 p, q;
    computeClosestPointBetweenTwoSegments(a1, b1, a2, b2, p, q);
    vc_assert(eqv((p - a1).cross(gD1), 0, 0, 0), "the first point is on the line of the first segment");
    vc_assert(eqv((q - a2).cross(gD2), 0, 0, 0), "the second point is on the line of the second segment");
    double s = coordinate(a1, gD1, p), t = coordinate(a2, gD2, q);   // they exist: collinear with a non-zero direction
    vc_assert(vc_le(0, s) && vc_le(s, 1), "the first point is on the first segment");
    vc_assert(vc_le(0, t) && vc_le(t, 1), "the second point is on the second segment");
    // optimality of a convex problem: the derivative along each segment vanishes, or points outwards at an end
    double k1 = gC + gA * s - gB * t, k2 = gF + gB * s - gE * t;
    double e = vc_native() ? 1e-4 : 0;
    ENSURE("no point nearer to the start of the first segment is closer", s <= e || vc_le(k1, e));
    ENSURE("no point nearer to the end of the first segment is closer", s >= 1 - e || vc_le(-e, k1));
    ENSURE("no point nearer to the start of the second segment is closer", t <= e || vc_le(-e, k2));
    ENSURE("no point nearer to the end of the second segment is closer", t >= 1 - e || vc_le(k2, e));
}
// segments that have shrunk to a point (squared length at most the machine epsilon)
HARNESS(closest_segments_degenerate, "nl") {
    Vector3 a1 = anyVec("a1"), b1 = anyVec("b1"), a2 = anyVec("a2"), b2 = anyVec("b2");
    bool d1 = vc_any_bool("point1"), d2 = vc_any_bool("point2");
    if (vc_native()) { if (d1) b1 = a1; if (d2) b2 = a2; }
    if (d1) vc_assume(norm2(b1 - a1) <= MACHINE_EPSILON); else vc_assume(norm2(b1 - a1) > 1e-6);
    if (d2) vc_assume(norm2(b2 - a2) <= MACHINE_EPSILON); else vc_assume(norm2(b2 - a2) > 1e-6);
    vc_assume(d1 || d2);
    Vector3 p, q;
    computeClosestPointBetweenTwoSegments(a1, b1, a2, b2, p, q);
    if (d1) vc_assert(eqv(p, a1), "a degenerate first segment is a point");
    if (d2) vc_assert(eqv(q, a2), "a degenerate second segment is a point");
    Vector3 r = d2 ? p : q, a = d2 ? a1 : a2, b = d2 ? b1 : b2, c = d2 ? a2 : a1;
    if (d1 && d2) return;
    double t = dot3(r - a, b - a) / norm2(b - a);
    vc_assert(vc_le(0, t) && vc_le(t, 1) && eqv(r, a + t * (b - a)), "the other point is on its segment");
    vc_assert(vc_le(dot3(c - r, a - r), 0) && vc_le(dot3(c - r, b - r), 0), "no other point of the segment is closer");
}
HARNESS(barycentric, "") {
    Vector3 a = anyVec("a"), b = anyVec("b"), c = anyVec("c");
    double v0 = vc_any_real("v"), w0 = vc_any_real("w");
    Vector3 n = (b - a).cross(c - a);
    vc_assume(norm2(n) > 1e-3);
    Vector3 p = a + v0 * (b - a) + w0 * (c - a);
    double u, v, w;
    computeBarycentricCoordinatesInTriangle(a, b, c, p, u, v, w);
    vc_assert(vc_eq(v, v0) && vc_eq(w, w0) && vc_eq(u, 1 - v0 - w0), "barycentric coordinates of a point of the plane reproduce it");
}
HARNESS(plane_helpers, "") {
    Vector3 a = anyVec("a"), b = anyVec("b"), n = anyVec("n");
    double d = vc_any_real("d");
    double t = computePlaneSegmentIntersection(a, b, d, n);
    double k = dot3(n, b - a);
    if (std::fabs(k) > 0.0001) vc_assert(vc_eq(dot3(n, a + t * (b - a)), d), "the intersection is on the plane");
    else vc_assert(t < 0, "a segment parallel to the plane has no intersection");
    Vector3 u = anyUnitVec("u"), p = anyVec("p"), x = anyVec("x");
    double h = computePointToPlaneDistance(x, u, p);
    vc_assert(vc_eq(h, dot3(u, x - p)), "signed distance to a plane");
    Vector3 y = projectPointOntoPlane(x, u, p);
    vc_assert(vc_eq(dot3(u, y - p), 0), "the projection is on the plane");
    vc_assert(eqv(x - y, h * u), "the projection moves along the normal");
}
// the length of a vector is the non-negative root of its squared length (contract of Vector3::length, M01), by name
static Vector3 gLen[2]; static double gLenV[2];
STUB("^reactphysics3d::Vector3::length\\(") double named_length(const Vector3* a) {
    for (int i = 0; i < 2; i++) if (same(*a, gLen[i])) return gLenV[i];
    double l = vc_any_real("length");
    vc_assume(l >= 0); vc_assume(l * l == norm2(*a));
    return l;
}
HARNESS(point_line_distance, "stubs=named_length") {
    Vector3 a = anyVec("a"), b = anyVec("b"), c = anyVec("c");
    gLen[0] = b - a; gLen[1] = (c - a).cross(c - b);
    for (int i = 0; i < 2; i++) {
        gLenV[i] = vc_native() ? std::sqrt(norm2(gLen[i])) : vc_any_real("length");
        vc_assume(gLenV[i] >= 0); vc_assume(vc_eq(gLenV[i] * gLenV[i], norm2(gLen[i])));
    }
    vc_assume(gLenV[0] > 0.01);
    double d = computePointToLineDistance(a, b, c);
    // the area of the parallelogram over its base
    vc_assert(vc_eq(d * gLenV[0], gLenV[1]), "distance to a line: area of the parallelogram over its base");
    vc_assert(eqv(gLen[1], (c - a).cross(a - b)), "the area is the length of the cross product of the direction");
    vc_assert(vc_le(0, d), "a distance is not negative");
}
HARNESS(parallel_orthogonal, "") {
    Vector3 a = anyVec("a"), b = anyVec("b");
    double c = norm2(Vector3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x));
    const bool parallel = areParallelVectors(a, b);
    if (vc_native() && (std::fabs(c - 0.00001) < 1e-9 || std::fabs(c - 0.00001 * norm2(a) * norm2(b)) < 1e-9)) return;   // rounding decides
    if (c > 0.00001 * norm2(a) * norm2(b)) vc_assert(!parallel, "vectors at an angle are not parallel, however short they are");
    else vc_assert(parallel == (c < 0.00001), "parallel vectors");
    vc_assert(areOrthogonalVectors(a, b) == (std::fabs(dot3(a, b)) < 0.001), "orthogonal vectors");
}
// ------------------------------------------------------------------ integers
HARNESS(powers_of_two, "bv") {
    uint64_t n = vc_any_u64("n");
    bool p = isPowerOfTwo(n);
    // n is a power of two when it has exactly one bit
    uint64_t k = vc_any_u64("k");
    vc_assume(k < 64);
    if (n == (1ull << k)) vc_assert(p, "a power of two is recognised");
    uint64_t j = vc_any_u64("j");
    vc_assume(j < 64);
    if (p && k != j) vc_assert(!((n >> k & 1) && (n >> j & 1)), "a number with two bits is no power of two");
    if (p) vc_assert(n != 0, "zero is no power of two");
}
HARNESS(next_power, "bv") {
    uint64_t n = vc_any_u64("n");
    vc_assume(n >= 1); vc_assume(n <= (1ull << 63));
    uint64_t r = nextPowerOfTwo64Bits(n);
    vc_assert(r >= n, "the next power of two is not smaller");
    vc_assert(r != 0 && (r & (r - 1)) == 0, "the next power of two is a power of two");
    vc_assert((r >> 1) < n, "the next power of two is the smallest one");
}
// (unordered) pairs of different numbers get different codes
HARNESS(pair_numbers, "") {
    uint32_t a = vc_any_u32("a"), b = vc_any_u32("b"), c = vc_any_u32("c"), d = vc_any_u32("d");
    vc_assume(a >= b); vc_assume(c >= d);
    uint64_t x = pairNumbers(a, b), y = pairNumbers(c, d);
    if (x == y) vc_assert(a == c && b == d, "the code of a pair determines the pair");
}
