// M01: quaternions, matrices and rigid transforms form the rigid-motion group
#include "common.h"
#include "mathematics/Quaternion.cpp"
#include "mathematics/Transform.cpp"
#include "mathematics/Matrix3x3.cpp"
#include "mathematics/Vector3.cpp"
#include "mathematics/Vector2.cpp"
#include "mathematics/Matrix2x2.cpp"

HARNESS(quat_rotates_like_matrix, "") {
    Quaternion q = anyUnitQuat("q");
    Vector3 v = anyVec("v");
    Vector3 r = q * v;
    Vector3 s = mul(rotOf(q), v);
    vc_assert(eqv(r, s), "quaternion times vector is the rotation by that quaternion");
    Matrix3x3 m = q.getMatrix();
    Vector3 t = m * v;
    vc_assert(eqv(t, s), "the matrix of a quaternion is its rotation");
    vc_assert(vc_eq(norm2(r), norm2(v)), "a rotation preserves length");
    Vector3 b = q.getInverse() * r;
    vc_assert(eqv(b, v), "the inverse rotation undoes the rotation");
}
HARNESS(transform_inverse, "") {
    Transform t = anyTransform("t");
    Vector3 v = anyVec("v");
    Vector3 r = t.getInverse() * (t * v);
    vc_assert(eqv(r, v), "inverse transform undoes the transform");
    Vector3 r2 = t * (t.getInverse() * v);
    vc_assert(eqv(r2, v), "transform undoes its inverse");
}
HARNESS(transform_compose, "") {
    Transform a = anyTransform("a"), b = anyTransform("b");
    Vector3 v = anyVec("v");
    Vector3 r = (a * b) * v;
    Vector3 s = a * (b * v);
    vc_assert(eqv(r, s), "composition of transforms is applied right to left");
    Quaternion q = (a * b).getOrientation();
    vc_assert(vc_eq(qnorm2(q), 1.0), "composition keeps unit orientation");
}
// ------------------------------------------------------------------ quaternions
static Quaternion hamilton(const Quaternion& a, const Quaternion& b) {
    return Quaternion(a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x,
                      a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z);
}
inline Quaternion anyQuat(const char* n) { double x = vc_any_real(n), y = vc_any_real(n), z = vc_any_real(n), w = vc_any_real(n); return Quaternion(x, y, z, w); }
inline bool eqq(const Quaternion& a, const Quaternion& b) { return vc_and(vc_and(vc_eq(a.x, b.x), vc_eq(a.y, b.y)), vc_and(vc_eq(a.z, b.z), vc_eq(a.w, b.w))); }
HARNESS(quat_algebra, "") {
    Quaternion a = anyQuat("a"), b = anyQuat("b");
    vc_assert(eqq(a * b, hamilton(a, b)), "the product of quaternions is Hamilton's product");
    vc_assert(eqq(a.getConjugate(), Quaternion(-a.x, -a.y, -a.z, a.w)), "conjugate");
    vc_assert(eqq(a + b, Quaternion(a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w)) && eqq(a - b, Quaternion(a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w)), "sum and difference");
    Quaternion c = a; c += b;
    Quaternion d = a; d -= b;
    vc_assert(eqq(c, a + b) && eqq(d, a - b), "compound sum and difference");
    double k = vc_any_real("k");
    vc_assert(eqq(a * k, Quaternion(k * a.x, k * a.y, k * a.z, k * a.w)), "scaling");
    vc_assert(vc_eq(a.dot(b), a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w), "dot product");
    vc_assert(vc_eq(a.lengthSquare(), qnorm2(a)), "squared length");
    vc_assert(a.length() >= 0, "length is not negative");
    vc_assert(vc_eq(a.length() * a.length(), qnorm2(a)), "length");
    vc_assert(eqv(a.getVectorV(), a.x, a.y, a.z), "vector part");
    Quaternion e = a; e.setToIdentity();
    vc_assert(eqq(e, Quaternion(0, 0, 0, 1)) && eqq(Quaternion::identity(), e), "identity");
    Quaternion f = a; f.setAllValues(b.x, b.y, b.z, b.w);
    vc_assert(eqq(f, b), "setting all the values");
}
HARNESS(quat_normalize, "") {
    Quaternion a = anyQuat("a");
    vc_assume(a.length() > 1e-3);
    Quaternion u = a.getUnit();
    Quaternion n = a; n.normalize();
    vc_assert(eqq(u, n), "both forms of normalisation agree");
    vc_assert(vc_eq(qnorm2(u), 1.0), "the normalised quaternion has unit length");
    double l = a.length();
    vc_assert(vc_and(vc_and(vc_eq(u.x * l, a.x), vc_eq(u.y * l, a.y)), vc_and(vc_eq(u.z * l, a.z), vc_eq(u.w * l, a.w))), "the normalised quaternion keeps the direction");
}
HARNESS(quat_inverse, "") {
    Quaternion a = anyUnitQuat("a");
    Quaternion i = a.getInverse();
    Quaternion j = a; j.inverse();
    vc_assert(eqq(i, j), "both forms of inversion agree");
    vc_assert(eqq(hamilton(a, i), Quaternion(0, 0, 0, 1)), "a quaternion times its inverse is the identity");
}
HARNESS(quat_compose, "") {
    Quaternion a = anyUnitQuat("a"), b = anyUnitQuat("b");
    Vector3 v = anyVec("v");
    Vector3 bv = b * v;
    vc_assert(eqv((a * b) * v, a * bv), "the product of two rotations applies the right one first");
    vc_assert(vc_eq(qnorm2(a * b), 1.0), "the product of unit quaternions has unit length");
}
// a rotation matrix given by a unit quaternion is converted to a quaternion of the same rotation
HARNESS(quat_from_matrix, "cost=5") {
    Quaternion q = anyUnitQuat("q");
    if (vc_native()) { int k = vc_any_u32("small") % 16; double e = 1e-2; if (k & 1) q.w *= e; if (k & 2) q.x *= e; if (k & 4) q.y *= e; if (k & 8) q.z *= e; double l = std::sqrt(qnorm2(q)); vc_assume(l > 1e-3); q = Quaternion(q.x / l, q.y / l, q.z / l, q.w / l); }
    Rot r = rotOf(q);
    Matrix3x3 m(r.m[0][0], r.m[0][1], r.m[0][2], r.m[1][0], r.m[1][1], r.m[1][2], r.m[2][0], r.m[2][1], r.m[2][2]);
    Quaternion p(m);
    vc_assert(vc_and(vc_eq(p.x * p.x, q.x * q.x), vc_and(vc_eq(p.y * p.y, q.y * q.y), vc_and(vc_eq(p.z * p.z, q.z * q.z), vc_eq(p.w * p.w, q.w * q.w)))), "same magnitudes");
    vc_assert(vc_and(vc_eq(p.x * p.y, q.x * q.y), vc_and(vc_eq(p.y * p.z, q.y * q.z), vc_eq(p.z * p.x, q.z * q.x))), "same rotation (vector part)");
    vc_assert(vc_and(vc_eq(p.w * p.x, q.w * q.x), vc_and(vc_eq(p.w * p.y, q.w * q.y), vc_eq(p.w * p.z, q.w * q.z))), "same rotation (scalar part)");
    Transform t(Vector3(1, 2, 3), m);
    vc_assert(eqq(t.getOrientation(), p) && eqv(t.getPosition(), 1, 2, 3), "a transform can be built from a matrix");
}
static Quaternion axisQ(int k, double half) { double s = std::sin(half), c = std::cos(half); return Quaternion(k == 0 ? s : 0, k == 1 ? s : 0, k == 2 ? s : 0, c); }
HARNESS(quat_from_euler, "") {
    double a = vc_any_real("a"), b = vc_any_real("b"), c = vc_any_real("c");
    Quaternion s = hamilton(axisQ(2, c * 0.5), hamilton(axisQ(1, b * 0.5), axisQ(0, a * 0.5)));
    vc_assume(vc_eq(qnorm2(s), 1.0));
    Quaternion q = Quaternion::fromEulerAngles(a, b, c), p = Quaternion::fromEulerAngles(Vector3(a, b, c));
    vc_assert(eqq(q, s), "Euler angles: rotation about x, then y, then z");
    vc_assert(eqq(q, p), "both forms agree");
}
// lemma: d^2 + s = 1 and s >= 0 give -1 <= d <= 1 (proved in its own contract, then used)
HARNESS(lemma_square_bound, "native=no") {
    double d = vc_any_real("d"), s = vc_any_real("s");
    vc_assume(s >= 0); vc_assume(d * d + s == 1);
    vc_assert(d <= 1 && d >= -1, "bound");
}
inline void useSquareBound(double d, double s) {
    vc_assert(s >= 0 && vc_eq(d * d + s, 1), "premises of the lemma");
    vc_assume(vc_le(d, 1) && vc_le(-1, d));
}
HARNESS(quat_slerp_ends, "feas_ms=60;inproc_ms=100") {
    Quaternion a = anyUnitQuat("a"), b = anyUnitQuat("b");
    vc_assert(eqq(Quaternion::slerp(a, b, 0), a), "interpolation starts at the first orientation");
    double d = a.dot(b);
    // Cauchy-Schwarz for unit quaternions, through Lagrange's identity
    double l[6] = {a.x * b.y - a.y * b.x, a.x * b.z - a.z * b.x, a.x * b.w - a.w * b.x, a.y * b.z - a.z * b.y, a.y * b.w - a.w * b.y, a.z * b.w - a.w * b.z};
    double s = 0;
    for (int i = 0; i < 6; i++) { l[i] = named(l[i]); s += sq(l[i]); vc_assert(l[i] * l[i] >= 0, "square (lemma)"); }
    d = named(d);
    vc_assert(vc_eq(1 - d * d, s), "Lagrange's identity (lemma)");
    s = named(s);
    vc_assert(s >= 0, "sum of squares (lemma)");
    useSquareBound(d, s);
    Quaternion e = Quaternion::slerp(a, b, 1);
    vc_assert(eqq(e, d < 0 ? Quaternion(-b.x, -b.y, -b.z, -b.w) : b), "interpolation ends at the second orientation");
    Transform u0(anyVec("p"), a), t(anyVec("r"), b);
    Transform u = Transform::interpolateTransforms(u0, t, 0), v = Transform::interpolateTransforms(u0, t, 1);
    vc_assert(eqv(u.getPosition(), u0.getPosition()) && eqv(v.getPosition(), t.getPosition()), "interpolation of positions runs from the first to the second");
    vc_assert(eqq(u.getOrientation(), a) && eqq(v.getOrientation(), e), "interpolation of transforms interpolates the orientation");
    double k = vc_any_real("k");
    if (vc_native()) k = std::fabs(k) > 1 ? 0.3 : std::fabs(k);
    vc_assume(k >= 0); vc_assume(k <= 1);
    Vector3 m = Transform::interpolateTransforms(u0, t, k).getPosition(), x = u0.getPosition(), y = t.getPosition();
    vc_assert(eqv(m, x.x + k * (y.x - x.x), x.y + k * (y.y - x.y), x.z + k * (y.z - x.z)), "positions are interpolated linearly");
}
// ------------------------------------------------------------------ transforms
HARNESS(transform_misc, "") {
    Transform t = anyTransform("t");
    Vector3 v = anyVec("v");
    vc_assert(eqv(t * v, mul(rotOf(t.getOrientation()), v) + t.getPosition()), "a transform rotates, then translates");
    double m[16];
    t.getOpenGLMatrix(m);
    Vector3 w(m[0] * v.x + m[4] * v.y + m[8] * v.z + m[12], m[1] * v.x + m[5] * v.y + m[9] * v.z + m[13], m[2] * v.x + m[6] * v.y + m[10] * v.z + m[14]);
    vc_assert(eqv(w, t * v), "the column-major 4x4 matrix is the transform");
    vc_assert(vc_eq(m[3], 0) && vc_eq(m[7], 0) && vc_eq(m[11], 0) && vc_eq(m[15], 1), "last row of the 4x4 matrix");
    Transform i = Transform::identity();
    vc_assert(eqv(i * v, v), "identity transform");
    Transform u = t; u.setToIdentity();
    vc_assert(eqv(u * v, v), "resetting to identity");
    u.setPosition(v); u.setOrientation(t.getOrientation());
    vc_assert(eqv(u.getPosition(), v) && eqq(u.getOrientation(), t.getOrientation()), "setters");
    vc_assert((u == t) == (t == u) && t == t && !(t != t), "equality");
}
HARNESS(transform_from_opengl, "cost=3") {
    Transform t = anyTransform("t");
    double m[16];
    t.getOpenGLMatrix(m);
    Transform u = Transform::identity();
    u.setFromOpenGL(m);
    vc_assert(eqv(u.getPosition(), t.getPosition()), "the position survives the 4x4 matrix");
    Quaternion p = u.getOrientation(), q = t.getOrientation();
    vc_assert(vc_and(vc_eq(p.x * p.x, q.x * q.x), vc_and(vc_eq(p.y * p.y, q.y * q.y), vc_and(vc_eq(p.z * p.z, q.z * q.z), vc_eq(p.w * p.w, q.w * q.w)))), "same magnitudes");
    vc_assert(vc_and(vc_eq(p.x * p.y, q.x * q.y), vc_and(vc_eq(p.y * p.z, q.y * q.z), vc_eq(p.z * p.x, q.z * q.x))), "same rotation (vector part)");
    vc_assert(vc_and(vc_eq(p.w * p.x, q.w * q.x), vc_and(vc_eq(p.w * p.y, q.w * q.y), vc_eq(p.w * p.z, q.w * q.z))), "same rotation (scalar part)");
}
// ------------------------------------------------------------------ matrices
struct M3 { double m[3][3]; };
inline Matrix3x3 anyMat(M3& a, const char* n) {
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a.m[i][j] = vc_any_real(n);
    return Matrix3x3(a.m[0][0], a.m[0][1], a.m[0][2], a.m[1][0], a.m[1][1], a.m[1][2], a.m[2][0], a.m[2][1], a.m[2][2]);
}
inline bool eqm(const Matrix3x3& x, const M3& a) {
    bool r = true;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r = vc_and(r, vc_eq(x[i][j], a.m[i][j]));
    return r;
}
static double det(const M3& a) {
    return a.m[0][0] * (a.m[1][1] * a.m[2][2] - a.m[1][2] * a.m[2][1]) - a.m[0][1] * (a.m[1][0] * a.m[2][2] - a.m[1][2] * a.m[2][0]) + a.m[0][2] * (a.m[1][0] * a.m[2][1] - a.m[1][1] * a.m[2][0]);
}
HARNESS(matrix_algebra, "") {
    M3 a, b, r; Matrix3x3 x = anyMat(a, "a"), y = anyMat(b, "b");
    double k = vc_any_real("k");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = a.m[i][0] * b.m[0][j] + a.m[i][1] * b.m[1][j] + a.m[i][2] * b.m[2][j];
    vc_assert(eqm(x * y, r), "matrix product");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = a.m[j][i];
    vc_assert(eqm(x.getTranspose(), r), "transpose");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = a.m[i][j] + b.m[i][j];
    vc_assert(eqm(x + y, r), "sum");
    Matrix3x3 z = x; z += y;
    vc_assert(eqm(z, r), "compound sum");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = a.m[i][j] - b.m[i][j];
    vc_assert(eqm(x - y, r), "difference");
    z = x; z -= y;
    vc_assert(eqm(z, r), "compound difference");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = k * a.m[i][j];
    vc_assert(eqm(x * k, r) && eqm(k * x, r), "scaling");
    z = x; z *= k;
    vc_assert(eqm(z, r), "compound scaling");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = -a.m[i][j];
    vc_assert(eqm(-x, r), "negation");
    vc_assert(vc_eq(x.getTrace(), a.m[0][0] + a.m[1][1] + a.m[2][2]), "trace");
    vc_assert(vc_eq(x.getDeterminant(), det(a)), "determinant");
    Vector3 v = anyVec("v");
    vc_assert(eqv(x * v, a.m[0][0] * v.x + a.m[0][1] * v.y + a.m[0][2] * v.z, a.m[1][0] * v.x + a.m[1][1] * v.y + a.m[1][2] * v.z, a.m[2][0] * v.x + a.m[2][1] * v.y + a.m[2][2] * v.z), "matrix times vector");
    vc_assert(eqv(x.getRow(1), a.m[1][0], a.m[1][1], a.m[1][2]) && eqv(x.getColumn(2), a.m[0][2], a.m[1][2], a.m[2][2]) && eqv(x.getRow(0), a.m[0][0], a.m[0][1], a.m[0][2]) && eqv(x.getColumn(0), a.m[0][0], a.m[1][0], a.m[2][0]), "rows and columns");
    Vector3 w = anyVec("w");
    vc_assert(eqv(Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(v) * w, v.y * w.z - v.z * w.y, v.z * w.x - v.x * w.z, v.x * w.y - v.y * w.x), "the skew-symmetric matrix of a vector is its cross product");
    M3 id; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) id.m[i][j] = i == j;
    vc_assert(eqm(Matrix3x3::identity(), id), "identity matrix");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = std::fabs(a.m[i][j]);
    vc_assert(eqm(x.getAbsoluteMatrix(), r), "absolute values");
}
HARNESS(matrix_inverse, "cost=3") {
    M3 a; Matrix3x3 x = anyMat(a, "a");
    double d = det(a);
    vc_assume(std::fabs(d) > 1e-2);
    Matrix3x3 y = x.getInverse();
    M3 id; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) id.m[i][j] = i == j;
    vc_assert(eqm(x * y, id), "a matrix times its inverse is the identity");
    vc_assert(eqm(y * x, id), "the inverse times the matrix is the identity");
    Matrix3x3 z = x.getInverse(x.getDeterminant());
    M3 ym; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ym.m[i][j] = y[i][j];
    vc_assert(eqm(z, ym), "inverse with a given determinant");
}
HARNESS(matrix2_algebra, "") {
    double a = vc_any_real("a"), b = vc_any_real("b"), c = vc_any_real("c"), d = vc_any_real("d");
    Matrix2x2 m(a, b, c, d);
    vc_assert(vc_eq(m.getDeterminant(), a * d - b * c), "determinant of a 2x2 matrix");
    double x = vc_any_real("x"), y = vc_any_real("y");
    Vector2 r = m * Vector2(x, y);
    vc_assert(vc_and(vc_eq(r.x, a * x + b * y), vc_eq(r.y, c * x + d * y)), "2x2 matrix times vector");
    vc_assume(std::fabs(a * d - b * c) > 1e-2);
    Vector2 s = m.getInverse() * r;
    vc_assert(vc_and(vc_eq(s.x, x), vc_eq(s.y, y)), "the inverse of a 2x2 matrix undoes it");
    Vector2 s2 = m.getInverse(m.getDeterminant()) * r;
    vc_assert(vc_and(vc_eq(s2.x, x), vc_eq(s2.y, y)), "inverse with a given determinant");
    Matrix2x2 t = m.getTranspose();
    vc_assert(vc_eq(t[0][0], a) && vc_eq(t[0][1], c) && vc_eq(t[1][0], b) && vc_eq(t[1][1], d), "transpose of a 2x2 matrix");
    double e = vc_any_real("e"), f = vc_any_real("f"), g = vc_any_real("g"), h = vc_any_real("h");
    Matrix2x2 n(e, f, g, h), p = m * n;
    vc_assert(vc_and(vc_and(vc_eq(p[0][0], a * e + b * g), vc_eq(p[0][1], a * f + b * h)), vc_and(vc_eq(p[1][0], c * e + d * g), vc_eq(p[1][1], c * f + d * h))), "product of 2x2 matrices");
}
// ------------------------------------------------------------------ vectors
HARNESS(vector_algebra, "") {
    Vector3 a = anyVec("a"), b = anyVec("b");
    double k = vc_any_real("k");
    vc_assert(vc_eq(a.dot(b), dot3(a, b)), "dot product");
    vc_assert(eqv(a.cross(b), a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x), "cross product");
    vc_assert(eqv(a + b, a.x + b.x, a.y + b.y, a.z + b.z) && eqv(a - b, a.x - b.x, a.y - b.y, a.z - b.z), "sum and difference");
    vc_assert(eqv(a * k, a.x * k, a.y * k, a.z * k) && eqv(k * a, a.x * k, a.y * k, a.z * k) && eqv(a * b, a.x * b.x, a.y * b.y, a.z * b.z), "products");
    vc_assert(eqv(-a, -a.x, -a.y, -a.z), "negation");
    Vector3 c = a; c += b; Vector3 d = a; d -= b; Vector3 e = a; e *= k;
    vc_assert(eqv(c, a + b) && eqv(d, a - b) && eqv(e, a * k), "compound operations");
    vc_assert(vc_eq(a.lengthSquare(), norm2(a)) && a.length() >= 0, "squared length");
    vc_assert(vc_eq(a.length() * a.length(), norm2(a)), "length");
    Vector3 mn = Vector3::min(a, b), mx = Vector3::max(a, b);
    vc_assert(eqv(mn, a.x < b.x ? a.x : b.x, a.y < b.y ? a.y : b.y, a.z < b.z ? a.z : b.z) && eqv(mx, a.x > b.x ? a.x : b.x, a.y > b.y ? a.y : b.y, a.z > b.z ? a.z : b.z), "componentwise minimum and maximum");
    vc_assert(eqv(a.getAbsoluteVector(), std::fabs(a.x), std::fabs(a.y), std::fabs(a.z)), "absolute values");
    int i = a.getMinAxis(), j = a.getMaxAxis();
    vc_assert(i >= 0 && i < 3 && a[i] <= a.x && a[i] <= a.y && a[i] <= a.z, "smallest component");
    vc_assert(j >= 0 && j < 3 && a[j] >= a.x && a[j] >= a.y && a[j] >= a.z, "largest component");
    vc_assert(vc_eq(a.getMinValue(), a[i]) && vc_eq(a.getMaxValue(), a[j]), "smallest and largest value");
    if (k != 0) { vc_assume(k > 1e-3); Vector3 q = a / k; vc_assert(eqv(q * k, a), "division by a number"); Vector3 q2 = a; q2 /= k; vc_assert(eqv(q2, q), "compound division"); }
}
HARNESS(vector_unit, "") {
    Vector3 a = anyVec("a");
    vc_assume(a.length() > 1e-3);
    double l = a.length();
    Vector3 u = a.getUnit(), n = a; n.normalize();
    vc_assert(eqv(u, n), "both forms of normalisation agree");
    vc_assert(vc_eq(norm2(u), 1.0) && eqv(u * l, a), "the unit vector has length one and the same direction");
    Vector3 o = a.getOneUnitOrthogonalVector();
    vc_assert(vc_eq(dot3(o, a), 0), "the orthogonal vector is orthogonal");
    vc_assert(vc_eq(norm2(o), 1.0), "the orthogonal vector has length one");
}
