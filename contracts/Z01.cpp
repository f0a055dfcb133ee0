// Z01: collision shapes describe one and the same set of points through all their functions
//! opts: nl
//! assume: sizes of shapes are positive (documented precondition of their constructors); scale factors of convex meshes are positive
#include "shapes.h"
// ------------------------------------------------------------------ box
HARNESS(box_support, "") {
    VcRaw<BoxShape> raw; BoxShape* b = anyBoxShape(raw); Vector3 h = b->getHalfExtents();
    Vector3 d = anyVec("d"), q = anyVec("q");
    const ConvexShape* c = b;
    Vector3 p = c->getLocalSupportPointWithMargin(d);
    ENSURE("the support point is in the box", std::fabs(p.x) <= h.x && std::fabs(p.y) <= h.y && std::fabs(p.z) <= h.z);
    // for each axis the support maximises the coordinate along the direction, hence the scalar product
    if (vc_native()) { q.x = std::fmod(q.x, h.x); q.y = std::fmod(q.y, h.y); q.z = std::fmod(q.z, h.z); }
    ASSUME(std::fabs(q.x) <= h.x && std::fabs(q.y) <= h.y && std::fabs(q.z) <= h.z);
    vc_assert(vc_le(d.x * q.x, d.x * p.x) && vc_le(d.y * q.y, d.y * p.y) && vc_le(d.z * q.z, d.z * p.z), "no point of the box is further in the direction");
}
HARNESS(box_numbers, "") {
    VcRaw<BoxShape> raw; BoxShape* b = anyBoxShape(raw); Vector3 h = b->getHalfExtents();
    Vector3 q = anyVec("q");
    double m = anyPositive("mass");
    AABB l = b->getLocalBounds();
    vc_assert(eqv(l.getMin(), -h.x, -h.y, -h.z) && eqv(l.getMax(), h), "the bounds are the box");
    ENSURE("points strictly inside", b->testPointInside(q, nullptr) == (-h.x < q.x && q.x < h.x && -h.y < q.y && q.y < h.y && -h.z < q.z && q.z < h.z));
    vc_assert(vc_eq(b->getVolume(), 8 * h.x * h.y * h.z), "volume");
    Vector3 i = b->getLocalInertiaTensor(m);
    vc_assert(about(i.x * 3, m * (sq(h.y) + sq(h.z))) && about(i.y * 3, m * (sq(h.x) + sq(h.z))) && about(i.z * 3, m * (sq(h.x) + sq(h.y))), "inertia of a solid box");
    vc_assert(eqv(b->getCentroid(), 0, 0, 0), "the centroid is the origin");
    vc_assert(b->isPolyhedron() && b->isConvex(), "a box is a convex polyhedron");
}
HARNESS(box_vertices, "") {
    VcRaw<BoxShape> raw; BoxShape* b = anyBoxShape(raw); Vector3 h = b->getHalfExtents();
    vc_assert(b->getNbVertices() == 8 && b->getNbFaces() == 6 && b->getNbHalfEdges() == 24, "numbers of vertices, faces and edges");
    for (uint32_t i = 0; i < 8; i++) {
        Vector3 v = b->getVertexPosition(i);
        vc_assert(std::fabs(v.x) == h.x && std::fabs(v.y) == h.y && std::fabs(v.z) == h.z, "vertices are corners of the box");
        for (uint32_t j = 0; j < i; j++) {
            Vector3 w = b->getVertexPosition(j);
            ENSURE("vertices are different", v.x != w.x || v.y != w.y || v.z != w.z);
        }
    }
    for (uint32_t f = 0; f < 6; f++) {
        Vector3 n = b->getFaceNormal(f);
        vc_assert(vc_eq(norm2(n), 1) && std::fabs(n.x) + std::fabs(n.y) + std::fabs(n.z) == 1, "face normals are axes");
        for (uint32_t g = 0; g < f; g++) { Vector3 k = b->getFaceNormal(g); ENSURE("face normals are different", n.x != k.x || n.y != k.y || n.z != k.z); }
    }
}
// the half-edge structure every box shares is the one of the box: faces of four vertices, numbered like the vertex positions, all in the plane
// of the face's normal (see H01 for its construction)
// ------------------------------------------------------------------ sphere
HARNESS(sphere_support, "") {
    VcRaw<SphereShape> raw; SphereShape* s = anySphere(raw); double r = s->getRadius();
    Vector3 d = anyVec("d"), q = anyVec("q");
    const ConvexShape* c = s;
    vc_assume(norm2(d) > 1e-6);
    Vector3 p = c->getLocalSupportPointWithMargin(d);
    vc_assert(vc_eq(norm2(p), r * r), "the support point is on the sphere");
    vc_assert(eqv(p.cross(d), 0, 0, 0), "the support point is in the direction");
    vc_assert(vc_lt(0, dot3(p, d)), "the support point is on the side of the direction");
}
HARNESS(sphere_numbers, "") {
    VcRaw<SphereShape> raw; SphereShape* s = anySphere(raw); double r = s->getRadius();
    Vector3 q = anyVec("q"), p = anyVec("p");
    double m = anyPositive("mass");
    AABB l = s->getLocalBounds();
    vc_assert(eqv(l.getMin(), -r, -r, -r) && eqv(l.getMax(), r, r, r), "the bounds are those of the ball");
    ENSURE("points strictly inside", s->testPointInside(q, nullptr) == (norm2(q) < r * r));
    vc_assert(about(s->getVolume() * 3, 4 * PI_RP3D * r * r * r), "volume");
    Vector3 i = s->getLocalInertiaTensor(m);
    vc_assert(about(i.x * 5, 2 * m * r * r) && i.y == i.x && i.z == i.x, "inertia of a solid ball");
    Transform t(p, anyUnitQuat("q"));
    const CollisionShape* cs = s;
    AABB w = cs->computeTransformedAABB(t);
    vc_assert(eqv(w.getMin(), p.x - r, p.y - r, p.z - r) && eqv(w.getMax(), p.x + r, p.y + r, p.z + r), "the world bounds are those of the moved ball");
    vc_assert(!s->isPolyhedron() && s->isConvex(), "a sphere is convex and no polyhedron");
    double k = anyPositive("new");
    s->setRadius(k);
    vc_assert(s->getRadius() == k, "the radius can be changed");
}
// ------------------------------------------------------------------ capsule
HARNESS(capsule_support, "") {
    VcRaw<CapsuleShape> raw; CapsuleShape* s = anyCapsule(raw); double r = s->getRadius(), h = s->getHeight() / 2;
    Vector3 d = anyVec("d");
    const ConvexShape* c = s;
    vc_assume(norm2(d) > 1e-6);
    double y = vc_any_real("y");
    if (vc_native()) y = std::fmod(y, h);
    vc_assume(-h <= y); vc_assume(y <= h);
    Vector3 p = c->getLocalSupportPointWithMargin(d);
    Vector3 e = c->getLocalSupportPointWithoutMargin(d), u = p - e;   // support of the axis, and of a ball around it
    vc_assert(e.x == 0 && e.z == 0 && (e.y == h || e.y == -h), "the support point of the axis is an end of it");
    vc_assert(vc_le(d.y * y, d.y * e.y), "no point of the axis is further in the direction");
    vc_assert(vc_eq(norm2(u), r * r) && eqv(u.cross(d), 0, 0, 0) && vc_lt(0, dot3(u, d)), "from there the support point is a radius away in the direction");
}
HARNESS(capsule_inside, "") {
    VcRaw<CapsuleShape> raw; CapsuleShape* s = anyCapsule(raw); double r = s->getRadius(), h = s->getHeight() / 2;
    Vector3 q = anyVec("q");
    double y = q.y < -h ? -h : q.y > h ? h : q.y;   // closest point of the axis
    ENSURE("points closer to the axis than the radius are inside", s->testPointInside(q, nullptr) == (sq(q.x) + sq(q.y - y) + sq(q.z) < r * r));
}
HARNESS(capsule_numbers, "") {
    VcRaw<CapsuleShape> raw; CapsuleShape* s = anyCapsule(raw); double r = s->getRadius(), H = s->getHeight();
    double m = anyPositive("mass");
    AABB l = s->getLocalBounds();
    vc_assert(eqv(l.getMin() * 2, -2 * r, -H - 2 * r, -2 * r) && eqv(l.getMax() * 2, 2 * r, H + 2 * r, 2 * r), "the bounds are those of the two end balls");
    vc_assert(vc_eq(s->getVolume() * 3, PI_RP3D * r * r * (3 * H + 4 * r)), "volume");
    // inertia: cylinder and two half balls, masses in proportion to the volumes
    double mc = m * 3 * H / (4 * r + 3 * H), mb = m * 4 * r / (4 * r + 3 * H);
    Vector3 i = s->getLocalInertiaTensor(m);
    double iy = mc * r * r / 2 + mb * r * r * 2 / 5;
    double ix = mc * (H * H / 12 + r * r / 4) + mb * (r * r * 2 / 5 + H * H / 4 + 3 * H * r / 8);
    vc_assert(about(i.x, ix), "inertia across the axis");
    vc_assert(vc_eq(i.x, i.z), "the inertia is symmetric");
    vc_assert(about(i.y, iy), "inertia around the axis");
    double k = anyPositive("new");
    s->setRadius(k);
    vc_assert(s->getRadius() == k && vc_eq(s->getHeight(), H), "the radius can be changed");
    s->setHeight(r);
    vc_assert(s->getRadius() == k && vc_eq(s->getHeight(), r), "the height can be changed");
}
// ------------------------------------------------------------------ triangle
STUB("^reactphysics3d::Vector3::getMinValue\\(") double stub_min_value(const Vector3* v) { return lower(lower(v->x, v->y), v->z); }
STUB("^reactphysics3d::Vector3::getMaxValue\\(") double stub_max_value(const Vector3* v) { return upper(upper(v->x, v->y), v->z); }
HARNESS(extreme_components, "") {
    Vector3 v = anyVec("v");
    vc_assert(v.getMinValue() == lower(lower(v.x, v.y), v.z), "smallest component");
    vc_assert(v.getMaxValue() == upper(upper(v.x, v.y), v.z), "largest component");
    vc_assert(v[v.getMaxAxis()] == v.getMaxValue() && v[v.getMinAxis()] == v.getMinValue(), "axis of the extreme components");
}
HARNESS(triangle_support, "") {
    VcRaw<TriangleShape> raw; Vector3 v[3]; TriangleShape* s = anyTriangle(raw, v);
    Vector3 d = anyVec("d");
    const ConvexShape* c = s;
    Vector3 p = c->getLocalSupportPointWithMargin(d);
    bool is0 = p.x == v[0].x && p.y == v[0].y && p.z == v[0].z, is1 = p.x == v[1].x && p.y == v[1].y && p.z == v[1].z, is2 = p.x == v[2].x && p.y == v[2].y && p.z == v[2].z;
    ENSURE("the support point is a vertex", is0 || is1 || is2);
    vc_assert(vc_le(dot3(d, v[0]), dot3(d, p)) && vc_le(dot3(d, v[1]), dot3(d, p)) && vc_le(dot3(d, v[2]), dot3(d, p)), "no vertex is further in the direction");
}
HARNESS(triangle_bounds, "stubs=stub_min_value,stub_max_value") {
    VcRaw<TriangleShape> raw; Vector3 v[3]; TriangleShape* s = anyTriangle(raw, v);
    AABB l = s->getLocalBounds();
    for (int a = 0; a < 3; a++) {
        vc_assert(l.getMin()[a] == lower(lower(v[0][a], v[1][a]), v[2][a]), "lower bounds of the triangle");
        vc_assert(l.getMax()[a] == upper(upper(v[0][a], v[1][a]), v[2][a]), "upper bounds of the triangle");
    }
    vc_assert(eqv(s->getCentroid() * 3, v[0] + v[1] + v[2]), "the centroid is the mean of the vertices");
    for (uint32_t i = 0; i < 3; i++) vc_assert(eqv(s->getVertexPosition(i), v[i]), "vertex positions");
    vc_assert(s->getNbVertices() == 3 && s->getNbFaces() == 2, "two faces and three vertices");
}
HARNESS(triangle_world_bounds, "stubs=stub_min_value,stub_max_value") {
    VcRaw<TriangleShape> raw; Vector3 v[3]; TriangleShape* s = anyTriangle(raw, v);
    Transform t = anyTransform("t");
    Rot r = rotOf(t.getOrientation());
    Vector3 w[3];
    for (int i = 0; i < 3; i++) w[i] = mul(r, v[i]) + t.getPosition();
    AABB b = s->computeTransformedAABB(t);
    for (int a = 0; a < 3; a++) {
        vc_assert(vc_eq(b.getMin()[a], lower(lower(w[0][a], w[1][a]), w[2][a])), "lower world bounds of the triangle");
        vc_assert(vc_eq(b.getMax()[a], upper(upper(w[0][a], w[1][a]), w[2][a])), "upper world bounds of the triangle");
    }
}
HARNESS(triangle_normal, "") {
    VcRaw<TriangleShape> raw;
    Vector3 v[3] = { anyVec("v0"), anyVec("v1"), anyVec("v2") }, n[3] = { anyVec("n0"), anyVec("n1"), anyVec("n2") };
    Vector3 c = (v[1] - v[0]).cross(v[2] - v[0]);
    vc_assume(norm2(c) > 1e-6);
    TriangleShape* s = new (raw.bytes) TriangleShape(v, n, 7, gHalf.r(), gAlloc);
    Vector3 a = s->getFaceNormal(0), b = s->getFaceNormal(1);
    double l = c.length();
    vc_assert(vc_lt(0, l) && vc_eq(l * l, norm2(c)) && eqv(a * l, c), "the face normal is the unit vector of the cross product of the edges");
    vc_assert(eqv(a, -b), "the second face is the other side");
}
// ------------------------------------------------------------------ world bounds of any shape with local bounds
struct AnyShape : public BoxShape {
    AABB bounds;
    AnyShape(const AABB& b) : BoxShape(Vector3(1, 1, 1), gAlloc, gCommon.r()), bounds(b) {}
    AABB getLocalBounds() const override { return bounds; }
};
// the matrix of the orientation (that it is the rotation matrix is proved for M01): named entries, any matrix
static Rot gM;
STUB("^reactphysics3d::Quaternion::getMatrix\\(") Matrix3x3 stub_matrix(const Quaternion*) {
    return Matrix3x3(gM.m[0][0], gM.m[0][1], gM.m[0][2], gM.m[1][0], gM.m[1][1], gM.m[1][2], gM.m[2][0], gM.m[2][1], gM.m[2][2]);
}
HARNESS(world_bounds, "stubs=stub_matrix") {
    Vector3 lo = anyVec("lo"), hi = anyVec("hi"), p = anyVec("p");
    if (vc_native()) { for (int i = 0; i < 3; i++) { hi[i] = lo[i] + std::fabs(hi[i]); p[i] = vc_any_bool("end") ? lo[i] : vc_any_bool("mid") ? (lo[i] + hi[i]) / 2 : hi[i]; } }
    for (int i = 0; i < 3; i++) { vc_assume(lo[i] <= hi[i]); vc_assume(lo[i] <= p[i]); vc_assume(p[i] <= hi[i]); }
    VcRaw<AnyShape> raw; AnyShape* s = new (raw.bytes) AnyShape(AABB(lo, hi));
    Transform t = anyTransform("t");
    gM = rotOf(t.getOrientation());
    if (!vc_native()) for (int i = 0; i < 9; i++) gM.m[i / 3][i % 3] = vc_any_real("matrix");
    const CollisionShape* cs = s;
    AABB w = cs->computeTransformedAABB(t);
    int i = vc_split(vc_any_bool("row1")) ? 1 : vc_split(vc_any_bool("row2")) ? 2 : 0;
    double pos = t.getPosition()[i], mn = pos, mx = pos;
    for (int j = 0; j < 3; j++) {
        double m = gM.m[i][j], a = m * lo[j], b = m * hi[j];
        mn += lower(a, b); mx += upper(a, b);
    }
    // the extremes of the sum are those of its independent parts (extreme_lemma): the bounds are the smallest around the rotated box
    vc_assert(vc_eq(w.getMin()[i], mn), "lower world bound");
    vc_assert(vc_eq(w.getMax()[i], mx), "upper world bound");
}
HARNESS(extreme_lemma, "") {
    double m = vc_any_real("m"), lo = vc_any_real("lo"), hi = vc_any_real("hi"), p = vc_any_real("p");
    if (vc_native()) { hi = lo + std::fabs(hi); p = vc_any_bool("end") ? lo : (lo + hi) / 2; }
    vc_assume(lo <= p); vc_assume(p <= hi);
    vc_assert(vc_le(lower(m * lo, m * hi), m * p) && vc_le(m * p, upper(m * lo, m * hi)), "a coordinate of a point of the local box contributes between the extremes");
}
// ------------------------------------------------------------------ convex mesh
static Vector3 gDir; static double gMax; static Vector3 gS;
SPEC double along(uint64_t j) { return gDir.x * (gV[j].x * gS.x) + gDir.y * (gV[j].y * gS.y) + gDir.z * (gV[j].z * gS.z); }
INV bool support_inv(uint64_t best, uint64_t i, double mx) {
    return i <= gNV && vc_forall(0, i, [&](uint64_t j) { return along(j) <= mx; }) && (i == 0 ? mx == DECIMAL_SMALLEST && best == 0 : best < i && along(best) == mx);
}
HARNESS(mesh_support, "stubs=stub_face,stub_vertex;invs=support_inv") {
    ConvexMesh* m = anyMesh(false); ConvexMeshShape* s = anyMeshShape(m);
    gDir = anyVec("d"); gS = s->getScale();
    if (!vc_native()) ASSUME(vc_forall(0, gNV, [&](uint64_t j) { return along(j) > DECIMAL_SMALLEST; }));
    const ConvexShape* c = s;
    Vector3 p = c->getLocalSupportPointWithMargin(gDir);
    double top = dot3(gDir, p);
    if (vc_native()) {
        bool isVertex = false;
        for (uint64_t j = 0; j < gNV; j++) { if (eqv(p, gV[j] * gS)) isVertex = true; vc_assert(vc_le(along(j), top), "no vertex is further in the direction"); }
        vc_assert(isVertex, "the support point is a vertex");
        return;
    }
    ENSURE("no vertex is further in the direction", vc_forall(0, gNV, [&](uint64_t j) { return along(j) <= top; }));
    ENSURE("the support point is a vertex", vc_exists(0, gNV, [&](uint64_t j) { return p.x == gV[j].x * gS.x && p.y == gV[j].y * gS.y && p.z == gV[j].z * gS.z; }));
}
SPEC double beyond(uint64_t f) {   // signed distance of gDir to the plane of a face
    uint64_t v = firstVertex(f);
    return gN[f].x * (gDir.x - gV[v].x * gS.x) + gN[f].y * (gDir.y - gV[v].y * gS.y) + gN[f].z * (gDir.z - gV[v].z * gS.z);
}
INV bool inside_inv(uint64_t i) { return i <= gNF && vc_forall(0, i, [&](uint64_t j) { return beyond(j) <= 0; }); }
HARNESS(mesh_inside, "stubs=stub_face,stub_vertex;invs=inside_inv") {
    ConvexMesh* m = anyMesh(true); ConvexMeshShape* s = anyMeshShape(m);
    gDir = anyVec("point"); gS = s->getScale();
    if (vc_native() && vc_any_bool("centre")) gDir = s->getLocalBounds().getCenter();
    if (!vc_native()) ASSUME(vc_forall(0, gNF, [&](uint64_t j) { return firstVertex(j) < gNV; }));
    bool r = s->testPointInside(gDir, nullptr);
    if (vc_native()) for (uint64_t f = 0; f < gNF; f++) if (std::fabs(beyond(f)) < 1e-6) return;
    ENSURE("a point is inside exactly when it is behind every face", r == vc_forall(0, gNF, [&](uint64_t j) { return beyond(j) <= 0; }));
}
HARNESS(mesh_numbers, "stubs=stub_face,stub_vertex") {
    ConvexMesh* m = anyMesh(false); ConvexMeshShape* s = anyMeshShape(m);
    Vector3 k = s->getScale(), lo = anyVec("lo"), hi = anyVec("hi");
    if (vc_native()) for (int i = 0; i < 3; i++) hi[i] = lo[i] + std::fabs(hi[i]) + 0.01;
    vc_assume(lo.x < hi.x); vc_assume(lo.y < hi.y); vc_assume(lo.z < hi.z);
    m->mBounds = AABB(lo, hi); m->mCentroid = anyVec("centroid"); m->mVolume = anyPositive("volume");
    AABB b = s->getLocalBounds();
    vc_assert(eqv(b.getMin(), lo * k) && eqv(b.getMax(), hi * k), "the bounds are the scaled bounds of the mesh");
    uint64_t i = vc_any_u64("i");
    if (vc_native()) i %= gNV;
    vc_assume(i < gNV);
    vc_assert(eqv(s->getVertexPosition((uint32_t)i), gV[i] * k), "vertex positions are scaled");
    vc_assert(eqv(s->getCentroid(), m->mCentroid * k), "the centroid is scaled");
    vc_assert(vc_eq(s->getVolume(), m->mVolume * k.x * k.y * k.z), "the volume is scaled");
    double mass = anyPositive("mass");
    Vector3 e = (hi - lo) * k, t = s->getLocalInertiaTensor(mass);
    vc_assert(about(t.x * 12, mass * (sq(e.y) + sq(e.z))) && about(t.y * 12, mass * (sq(e.x) + sq(e.z))) && about(t.z * 12, mass * (sq(e.x) + sq(e.y))), "inertia of the box around the mesh");
    vc_assert(s->getNbVertices() == gNV && s->getNbFaces() == gNF, "numbers of vertices and faces");
}
// normals of the scaled faces: the length of each normal is named
static double* gLens; static Vector3* gIn; static ConvexMeshShape* gShape; static ConvexMesh* gMesh;
STUB("^reactphysics3d::Vector3::length\\(") double face_length(const Vector3* a) {
    double l = vc_any_real("length");
    vc_assume(l > MACHINE_EPSILON);        // faces have an area (checked when the mesh is created)
    vc_assume(l * l == norm2(*a));
    gLens[gShape->mScaledFacesNormals.size()] = l;
    return l;
}
SPEC bool normalOk(uint64_t j) {
    const Vector3& o = gShape->mScaledFacesNormals.mBuffer[j];
    double l = gLens[j], x = gIn[j].x * (1.0 / gS.x), y = gIn[j].y * (1.0 / gS.y), z = gIn[j].z * (1.0 / gS.z);
    return vc_and(vc_and(l > 0, l * l == x * x + y * y + z * z), vc_and(o.x == x / l, vc_and(o.y == y / l, o.z == z / l)));
}
INV bool normals_inv(uint64_t i) {
    if (gLens == nullptr) return i == 0;      // construction of a mesh without faces
    return i <= gNF && gShape->mScaledFacesNormals.mSize == i && vc_forall(0, i, [&](uint64_t j) { return normalOk(j); });
}
HARNESS(mesh_normals, "stubs=stub_face,stub_vertex,face_length;invs=auto,normals_inv") {
    ConvexMesh* m = anyMesh(true);
    gLens = nullptr; gMesh = m; gShape = &gShapeRaw.r();
    ConvexMeshShape* s = anyMeshShape(m);
    if (!vc_native()) {
        m->mFacesNormals.mBuffer = vecArray(gNF, "mesh normal"); m->mFacesNormals.mSize = gNF;
        gLens = vc_array<double>(gNF, "lengths");
    }
    gIn = m->mFacesNormals.mBuffer;
    gS = anyScale();
    s->setScale(gS);
    vc_assert(s->mScaledFacesNormals.size() == gNF, "one normal for every face");
    if (vc_native()) {
        for (uint64_t f = 0; f < gNF; f++) {
            Vector3 e(gIn[f].x / gS.x, gIn[f].y / gS.y, gIn[f].z / gS.z), o = s->getFaceNormal(f);
            vc_assert(vc_eq(norm2(o), 1) && eqv(o * e.length(), e), "normals of the scaled faces");
        }
        return;
    }
    ENSURE("normals of the scaled faces", vc_forall(0, gNF, [&](uint64_t j) { return normalOk(j); }));
}
