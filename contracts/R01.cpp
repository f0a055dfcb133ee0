// R01: a ray cast against a shape reports the first point of the ray on the shape
//! opts: nl
//! assume: rays have a direction (squared length at least the machine epsilon for spheres and capsules), a fraction in [0, 1] for capsules, and direction components that are zero or at least the machine epsilon for boxes
#include "shapes.h"
#include "body/Body.cpp"
#include "collision/Collider.cpp"
static VcRaw<Collider> gCol; static VcRaw<Body> gBody;
static Collider* theCollider() { gCol.r().mBody = &gBody.r(); return &gCol.r(); }
static void whose(const RaycastInfo& i) { vc_assert(i.body == &gBody.r(), "body of the hit"); vc_assert(i.collider == &gCol.r(), "body and collider of the hit"); }
static double anyFraction() { double m = vc_any_real("max"); if (vc_native()) m = std::fabs(m); vc_assume(m >= 0); return m; }
static Ray anyRay(double maxF) {
    Vector3 o = anyVec("o"), e = anyVec("e");
    if (vc_native()) { if (vc_any_bool("zx")) e.x = o.x; if (vc_any_bool("zy")) e.y = o.y; if (vc_any_bool("zz")) e.z = o.z; }
    return Ray(o, e, maxF);
}
static void sameHit(const RaycastInfo& i, const Ray& r) {
    vc_assert(eqv(i.worldPoint, r.point1 + i.hitFraction * (r.point2 - r.point1)), "the hit point is the point of the ray at the hit fraction");
}
// ------------------------------------------------------------------ sphere
// square of the distance of the point of the ray at u to a centre, as a polynomial of u
struct Quad { double c, b, n; double at(double u) const { return c + 2 * b * u + n * (u * u); } };
STUB("^reactphysics3d::Vector3::dot\\(") double named_dot(const Vector3* a, const Vector3* b) { return named(dot3(*a, *b)); }
STUB("^reactphysics3d::Vector3::lengthSquare\\(") double named_square(const Vector3* a) { return named(norm2(*a)); }
HARNESS(raycast_sphere, "stubs=named_dot,named_square") {
    VcRaw<SphereShape> raw; SphereShape* s = anySphere(raw); double r = s->getRadius();
    double maxF = anyFraction(); Ray ray = anyRay(maxF);
    Vector3 o = ray.point1, d = ray.point2 - ray.point1;
    vc_assume(norm2(d) >= MACHINE_EPSILON);
    RaycastInfo info;
    const CollisionShape* cs = s;
    bool hit = cs->raycast(ray, info, theCollider(), gAlloc);
    double u = vc_any_real("u");
    if (vc_native()) u = std::fmod(std::fabs(u), maxF + 1);
    vc_assume(0 <= u); vc_assume(u < maxF);
    Quad q{named(norm2(o)) - named(r * r), named(dot3(o, d)), named(norm2(d))};
    vc_assert(vc_eq(norm2(o + u * d), q.at(u) + r * r), "distance to the centre along the ray");
    if (hit) {
        double t = info.hitFraction;
        vc_assert(vc_le(0, t) && vc_lt(t, maxF), "the hit is inside the range of the ray");
        vc_assert(vc_eq(q.at(t), 0), "the hit point is on the sphere");
        vc_assert(vc_implies(u < t, vc_native() ? vc_le(0, q.at(u)) : q.at(u) > 0), "no earlier point of the ray is on the sphere");
        sameHit(info, ray); whose(info);
        vc_assert(eqv(info.worldNormal, info.worldPoint), "the normal points outwards");
    } else {
        if (vc_native()) { vc_assert(q.c <= 1e-6 || vc_le(0, q.at(u)), "without a hit the ray is outside or starts inside"); return; }
        double lin = named(q.n * u + q.b);
        vc_assert(vc_eq(q.n * q.at(u), lin * lin + q.n * q.c - q.b * q.b), "completed square");
        vc_assert(vc_implies(q.c > 0, q.at(u) > 0), "without a hit the ray is outside or starts inside");
    }
}
// ------------------------------------------------------------------ box
struct Slab { double lo, hi; };
static Slab slab(double o, double inv, double h) { double a = (-h - o) * inv, b = (h - o) * inv; return Slab{lower(a, b), upper(a, b)}; }
STUB("^(double const& )?std::min<double>\\(") const double& stub_min(const double& a, const double& b) { static double r[8]; static int n = 0; n = (n + 1) % 8; r[n] = lower(a, b); return r[n]; }
HARNESS(box_slab_lemma, "") {
    double o = vc_any_real("o"), d = vc_any_real("d"), h = anyPositive("h"), t = vc_any_real("t");
    if (vc_native()) { if (std::fabs(d) < 1e-3) d = 1; if (vc_any_bool("near")) t = (vc_any_bool("end") ? h : -h - o) / d; }
    vc_assume(d != 0);
    Slab s = slab(o, 1.0 / d, h);
    double p = o + t * d;
    if (vc_native()) { if (std::fabs(std::fabs(p) - h) < 1e-6) return; }
    vc_assert((-h <= p && p <= h) == (s.lo <= t && t <= s.hi), "slab parameters");
}
HARNESS(raycast_box, "stubs=stub_min") {
    VcRaw<BoxShape> raw; BoxShape* s = anyBoxShape(raw); Vector3 h = s->getHalfExtents();
    double maxF = anyFraction(); Ray ray = anyRay(maxF);
    Vector3 o = ray.point1, d = ray.point2 - ray.point1;
    bool par[3], inside = true; Slab sl[3];
    double in0 = DECIMAL_SMALLEST, out0 = DECIMAL_LARGEST;
    for (int i = 0; i < 3; i++) {
        par[i] = vc_any_bool("parallel");
        if (vc_native()) par[i] = d[i] == 0;
        if (par[i]) {
            vc_assume(d[i] == 0);
            inside = vc_and(inside, VC(-h[i] <= o[i] && o[i] <= h[i]));
        } else {
            vc_assume(std::fabs(d[i]) >= MACHINE_EPSILON);
            sl[i] = slab(o[i], 1.0 / d[i], h[i]);
            in0 = upper(in0, sl[i].lo); out0 = lower(out0, sl[i].hi);
        }
    }
    vc_assume(!(par[0] && par[1] && par[2]));
    RaycastInfo info;
    const CollisionShape* cs = s;
    bool hit = cs->raycast(ray, info, theCollider(), gAlloc);
    // with the lemma: the points of the ray inside the box are those at the parameters from in0 to out0
    if (vc_native() && (std::fabs(in0) < 1e-9 || std::fabs(in0 - maxF) < 1e-9 || std::fabs(in0 - out0) < 1e-9)) return;
    ENSURE("hit exactly when the ray starts outside and a point of it in range is in the box", hit == (inside && in0 <= out0 && 0 <= in0 && in0 <= maxF));
    if (hit) {
        vc_assert(vc_eq(info.hitFraction, in0), "the hit is the first point inside");
        sameHit(info, ray); whose(info);
        int zero = 0;
        for (int i = 0; i < 3; i++) {
            if (info.worldNormal[i] == 0) zero++;
            else {
                vc_assert(!par[i] && vc_eq(sl[i].lo, in0), "the normal is the one of the face that is hit");
                vc_assert(vc_lt(info.worldNormal[i] * d[i], 0), "the normal points against the ray");
            }
        }
        vc_assert(zero == 2, "the normal is an axis");
    }
}
// ------------------------------------------------------------------ convex mesh
static Vector3 gO, gD, gS; static double gMaxF, gU;
SPEC double denom(uint64_t f) { return gN[f].x * gD.x + gN[f].y * gD.y + gN[f].z * gD.z; }
SPEC double dist(uint64_t f) {
    uint64_t v = firstVertex(f);
    return gN[f].x * (gV[v].x * gS.x) + gN[f].y * (gV[v].y * gS.y) + gN[f].z * (gV[v].z * gS.z) - (gN[f].x * gO.x + gN[f].y * gO.y + gN[f].z * gO.z);
}
// parameters where the ray is behind the plane of a face: those after the crossing of a plane that faces the ray, before that of the others
SPEC bool behind(uint64_t f, double u) {
    double e = denom(f), t = dist(f) / e;
    return vc_and(vc_implies(e < 0, t <= u), vc_and(vc_implies(e > 0, u <= t), vc_implies(e == 0, dist(f) >= 0)));
}
SPEC bool crossing(uint64_t f, double t, const Vector3& n) {
    return vc_and(vc_and(denom(f) < 0, t == dist(f) / denom(f)), vc_and(n.x == gN[f].x, vc_and(n.y == gN[f].y, n.z == gN[f].z)));
}
HARNESS(mesh_plane_lemma, "") {
    double e = vc_any_real("denom"), k = vc_any_real("dist"), u = vc_any_real("u");
    if (vc_native() && vc_any_bool("zero")) e = 0;
    // the point at u is behind the plane: normal * (origin + u * direction) <= normal * face point
    bool b = e * u <= k;
    if (vc_native() && std::fabs(e * u - k) < 1e-6) return;
    vc_assert(b == (e == 0 ? k >= 0 : e < 0 ? k / e <= u : u <= k / e), "a point of the ray is behind a plane from or until the crossing");
}
INV bool clip_inv(double hi, double lo, uint8_t found, uint64_t i, const Vector3& n) {
    return i <= gNF && 0 <= lo && lo <= hi && hi <= gMaxF &&
        // the points at lo and hi (hence all between) are behind the planes seen so far
        vc_forall(0, i, [&](uint64_t j) { return vc_and(behind(j, lo), behind(j, hi)); }) &&
        // no other point of the ray is
        (vc_implies(0 <= gU && gU <= gMaxF && vc_forall(0, i, [&](uint64_t j) { return behind(j, gU); }), lo <= gU && gU <= hi)) &&
        ((found & 1) != 0 ? lo > 0 && vc_exists(0, i, [&](uint64_t j) { return crossing(j, lo, n); }) : lo == 0);
}
HARNESS(raycast_mesh, "stubs=stub_face,stub_vertex;invs=clip_inv(,,,,alloca=Vector3)") {
    ConvexMesh* m = anyMesh(true); ConvexMeshShape* s = anyMeshShape(m);
    gS = s->getScale(); gMaxF = anyFraction(); gU = vc_any_real("u");
    Ray ray = anyRay(gMaxF);
    if (vc_native() && vc_any_bool("centre")) ray.point2 = m->mVertices[0] * gS;
    gO = ray.point1; gD = ray.point2 - ray.point1;
    if (!vc_native()) ASSUME(vc_forall(0, gNF, [&](uint64_t j) { return firstVertex(j) < gNV; }));
    RaycastInfo info;
    const CollisionShape* cs = s;
    bool hit = cs->raycast(ray, info, theCollider(), gAlloc);
    if (vc_native()) {
        double lo = 0, hi = gMaxF, e = 1e-6; bool out = false;
        for (uint64_t j = 0; j < gNF; j++) {
            double k = denom(j), t = dist(j) / k;
            if (std::fabs(k) < 1e-9) { if (std::fabs(dist(j)) < e) return; if (dist(j) < 0) out = true; }
            else if (k < 0) lo = upper(lo, t); else hi = lower(hi, t);
        }
        if (std::fabs(lo - hi) < e || (lo > 0 && lo < e)) return;
        vc_assert(hit == (!out && 0 < lo && lo < hi), "hit exactly when the ray starts outside and a point of it in range is in the mesh");
        if (hit) {
            vc_assert(vc_eq(info.hitFraction, lo), "the hit is the first point inside");
            sameHit(info, ray); whose(info);
            bool ok = false;
            for (uint64_t j = 0; j < gNF; j++) if (denom(j) < 0 && std::fabs(dist(j) / denom(j) - lo) < e && eqv(gN[j], info.worldNormal)) ok = true;
            vc_assert(ok, "the normal is the one of the face that is hit, which faces the ray");
        }
        return;
    }
    if (hit) {
        double t = info.hitFraction; Vector3 n = info.worldNormal;
        vc_assert(vc_lt(0, t) && vc_le(t, gMaxF), "the hit is inside the range of the ray");
        ENSURE("the hit point is in the mesh", vc_forall(0, gNF, [&](uint64_t j) { return behind(j, t); }));
        ENSURE("no earlier point of the ray is in the mesh", vc_implies(0 <= gU && gU < t, !vc_forall(0, gNF, [&](uint64_t j) { return behind(j, gU); })));
        ENSURE("the normal is the one of the face that is hit, which faces the ray", vc_exists(0, gNF, [&](uint64_t j) { return crossing(j, t, n); }));
        sameHit(info, ray); whose(info);
    } else
        ENSURE("without a hit the ray is outside or starts inside", vc_implies(0 <= gU && gU <= gMaxF && vc_forall(0, gNF, [&](uint64_t j) { return behind(j, gU); }), vc_forall(0, gNF, [&](uint64_t j) { return behind(j, 0); })));
}
// ------------------------------------------------------------------ triangle
static double det3(const Vector3& a, const Vector3& b, const Vector3& c) { return a.x * (b.y * c.z - b.z * c.y) + a.y * (b.z * c.x - b.x * c.z) + a.z * (b.x * c.y - b.y * c.x); }
static Vector3 gNormIn, gNormOut;
// the unit vector of a vector that is not zero (contract proved for M01)
STUB("^reactphysics3d::Vector3::normalize\\(") void stub_normalize(Vector3* v) {
    double l = vc_any_real("length");
    Vector3 r = anyVec("unit");
    gNormIn = *v; gNormOut = r;
    vc_assume(l > 0); vc_assume(r.x * l == v->x); vc_assume(r.y * l == v->y); vc_assume(r.z * l == v->z); vc_assume(norm2(r) == 1);
    *v = r;
}
STUB("^reactphysics3d::Vector3::getUnit\\(") Vector3 stub_unit(const Vector3* v) { Vector3 r = *v; stub_normalize(&r); return r; }
HARNESS(triangle_sides, "") {
    Vector3 a = anyVec("a"), b = anyVec("b"), c = anyVec("c"), q = anyVec("q");
    double u = det3(b, q, c), v = -det3(a, q, c), w = det3(a, q, b), d = det3(a, b, c);
    vc_assert(eqv(u * a + v * b + w * c, (-d) * q), "the weighted corners lie on the line of the ray (Cramer)");
    vc_assert(vc_eq(u + v + w, -q.dot((b - a).cross(c - a))), "the sum of the weights is the projection of the ray on the normal");
    // a point of the triangle on the ray: its barycentric coordinates are proportional to the weights
    double x = vc_any_real("x"), y = vc_any_real("y"), z = vc_any_real("z"), s = vc_any_real("s");
    if (vc_native()) return;
    Vector3 r(named(x * a.x + y * b.x + z * c.x - s * q.x), named(x * a.y + y * b.y + z * c.y - s * q.y), named(x * a.z + y * b.z + z * c.z - s * q.z));
    vc_assert(x * v - y * u == -det3(r, q, c), "first and second");
    vc_assert(x * w - z * u == det3(r, q, b), "first and third");
    vc_assert(y * w - z * v == -det3(r, q, a), "second and third");
    vc_assert(x * d + s * u == det3(r, b, c) && y * d + s * v == det3(r, c, a) && z * d + s * w == det3(r, a, b), "determinants");
    // for a point of the triangle that is the point of the ray at s, r is zero and x + y + z = 1: hence u = x (u + v + w) and so on, d = -s (u + v + w)
}
HARNESS(triangle_weights, "") {
    double x = vc_any_real("x"), y = vc_any_real("y"), z = vc_any_real("z"), u = vc_any_real("u"), v = vc_any_real("v"), w = vc_any_real("w"), s = vc_any_real("s"), d = vc_any_real("d");
    if (vc_native()) return;
    vc_assume(x + y + z == 1); vc_assume(x * v == y * u); vc_assume(x * w == z * u); vc_assume(y * w == z * v);
    vc_assume(x * d == -s * u); vc_assume(y * d == -s * v); vc_assume(z * d == -s * w);
    double D = u + v + w;
    vc_assert(u * (x + y + z) == x * u + y * u + z * u, "expanded");
    vc_assert(u == x * D && v == y * D && w == z * D, "the weights are the barycentric coordinates times their sum");
    vc_assert(d == -s * D, "the ray parameter");
}
// scalar products with a name of their own are not unfolded; the others are over named components
STUB("^reactphysics3d::Vector3::dot\\(") double known_dot(const Vector3* a, const Vector3* b) {
    double e = dot3(*a, *b), k = lookup(e);
    if (!vc_same(k, e)) return k;
    return named(named(a->x) * named(b->x) + named(a->y) * named(b->y) + named(a->z) * named(b->z));
}
STUB("^reactphysics3d::Vector3::lengthSquare\\(") double known_square(const Vector3* a) { return lookup(norm2(*a)); }
HARNESS(raycast_triangle, "stubs=known_dot,known_square,stub_normalize") {
    VcRaw<TriangleShape> raw; Vector3 t[3];
    TriangleShape* s = anyTriangle(raw, t);
    double maxF = anyFraction(); Ray ray = anyRay(maxF);
    if (vc_native()) {   // small integers reach the edges and the corners
        maxF = 1;
        for (int j = 0; j < 3; j++) {
            for (int i = 0; i < 3; i++) s->mPoints[i][j] = t[i][j] = (int)(vc_any_u32("v") % 7) - 3;
            ray.point1[j] = (int)(vc_any_u32("o") % 9) - 4; ray.point2[j] = (int)(vc_any_u32("e") % 9) - 4;
        }
        ray.maxFraction = 1;
        if (norm2((t[1] - t[0]).cross(t[2] - t[0])) == 0 || norm2(ray.point2 - ray.point1) == 0) return;
    }
    uint32_t side = vc_any_u32("side");
    if (vc_native()) side %= 3;
    vc_assume(side < 3);
    s->setRaycastTestType(side == 0 ? TriangleRaycastSide::FRONT : side == 1 ? TriangleRaycastSide::BACK : TriangleRaycastSide::FRONT_AND_BACK);
    Vector3 o = ray.point1, q = ray.point2 - ray.point1, a = t[0] - o, b = t[1] - o, c = t[2] - o;
    double nn = opaque(norm2(q));
    Vector3 qn(named(q.x), named(q.y), named(q.z));
    vc_assume(nn > 0); vc_assume(vc_eq(nn, norm2(qn)));
    double u = opaque(det3(b, q, c)), v = -opaque(det3(a, q, c)), w = opaque(det3(a, q, b)), d = opaque(det3(a, b, c)), D = u + v + w;
    // triangle_sides; the sum is the projection of the ray on the normal, with the opposite sign
    vc_assume(vc_eq(u * a.x + v * b.x + w * c.x, -d * qn.x)); vc_assume(vc_eq(u * a.y + v * b.y + w * c.y, -d * qn.y)); vc_assume(vc_eq(u * a.z + v * b.z + w * c.z, -d * qn.z));
    // a ray in the plane of the triangle has no hit
    bool crosses = VC(std::fabs(u) >= MACHINE_EPSILON || std::fabs(v) >= MACHINE_EPSILON || std::fabs(w) >= MACHINE_EPSILON);
    RaycastInfo info;
    const CollisionShape* cs = s;
    bool hit = cs->raycast(ray, info, theCollider(), gAlloc);
    bool sideOk = VC((side != 0 || D > 0) && (side != 1 || D < 0));
    if (hit) {
        double f = info.hitFraction; Vector3 p = info.worldPoint, n = info.worldNormal;
        vc_assert(vc_and(vc_le(0, f), vc_le(f, maxF)), "the hit is inside the range of the ray");
        vc_assert(sideOk, "the triangle is hit on the side that is tested");
        vc_step(D != 0, "the ray crosses the plane");
        ENSURE("the hit point has barycentric coordinates that are not negative", D != 0 && 0 <= u * D && 0 <= v * D && 0 <= w * D); // "the hit point has barycentric coordinates that are not negative");
        Vector3 pn = p - o;
        pn = Vector3(named(pn.x), named(pn.y), named(pn.z));
        double k = named(1.0 / D);
        vc_step(k * D == 1, "inverse");
        double un = named(u * (1.0 / D)), vn = named(v * (1.0 / D)), wn = named(w * (1.0 / D));
        vc_by(un * D == u, "barycentric coordinate", un == u * k, k * D == 1);
        vc_by(vn * D == v, "barycentric coordinate", vn == v * k, k * D == 1);
        vc_by(wn * D == w, "barycentric coordinate", wn == w * k, k * D == 1);
        for (int i = 0; i < 3; i++) {
            vc_step(pn[i] == un * t[0][i] + vn * t[1][i] + wn * t[2][i] - o[i], "the hit point by its barycentric coordinates");
            vc_by(pn[i] * D == u * a[i] + v * b[i] + w * c[i], "the hit point is in the triangle", pn[i] == un * t[0][i] + vn * t[1][i] + wn * t[2][i] - o[i], un * D == u, vn * D == v, wn * D == w);
            vc_by(pn[i] * D == -d * qn[i], "on the line of the ray", pn[i] * D == u * a[i] + v * b[i] + w * c[i], u * a[i] + v * b[i] + w * c[i] == -d * qn[i]);
        }
        double h = named(pn.x * qn.x + pn.y * qn.y + pn.z * qn.z), fn = named(f);
        vc_by(h * D == -d * nn, "projection", pn.x * D == -d * qn.x, pn.y * D == -d * qn.y, pn.z * D == -d * qn.z, h == pn.x * qn.x + pn.y * qn.y + pn.z * qn.z, nn == norm2(qn));
        vc_step(fn * nn == h, "fraction of the projection");
        vc_by(fn * D == -d, "the hit fraction", fn * nn == h, h * D == -d * nn, nn > 0);
        for (int i = 0; i < 3; i++) vc_by(pn[i] == fn * qn[i], "the hit point is the point of the ray at the hit fraction", pn[i] * D == -d * qn[i], fn * D == -d, D != 0);
        if (vc_native()) vc_assert(eqv((p - o) * D, u * a + v * b + w * c), "the hit point is in the triangle");
        vc_assert(vc_eq(fn * D, -d), "the hit fraction");
        Vector3 N = (t[1] - t[0]).cross(t[2] - t[0]);
        if (vc_native()) vc_assert(eqv(n.cross(N), 0, 0, 0) && vc_eq(norm2(n), 1), "the normal is a unit vector perpendicular to the triangle");
        else {
            vc_assert(eqv(gNormIn, N), "the normal is perpendicular to the triangle");
            vc_assert(eqv(n, vc_same(n.x, gNormOut.x) ? gNormOut : -gNormOut), "the normal is a unit vector");
        }
        vc_assert(vc_le(named(n.x) * qn.x + named(n.y) * qn.y + named(n.z) * qn.z, 0), "the normal faces the ray");
        sameHit(info, ray);
        whose(info);
    } else if (!vc_native()) {
        double x = vc_any_real("x"), y = vc_any_real("y"), z = vc_any_real("z"), f = vc_any_real("f");
        vc_assume(x >= 0); vc_assume(y >= 0); vc_assume(z >= 0); vc_assume(x + y + z == 1); vc_assume(0 <= f); vc_assume(f <= maxF);
        vc_assume(x * a.x + y * b.x + z * c.x == f * qn.x); vc_assume(x * a.y + y * b.y + z * c.y == f * qn.y); vc_assume(x * a.z + y * b.z + z * c.z == f * qn.z);
        // triangle_weights
        vc_assume(u == x * D); vc_assume(v == y * D); vc_assume(w == z * D); vc_assume(d == -f * D);
        vc_assume(sideOk); vc_assume(crosses);
        vc_step(D != 0, "the ray crosses the plane");
        double k = named(1.0 / D);
        vc_step(k * D == 1, "inverse");
        double un = named(u * (1.0 / D)), vn = named(v * (1.0 / D)), wn = named(w * (1.0 / D));
        vc_by(un == x, "barycentric coordinate", un == u * k, u == x * D, k * D == 1);
        vc_by(vn == y, "barycentric coordinate", vn == v * k, v == y * D, k * D == 1);
        vc_by(wn == z, "barycentric coordinate", wn == w * k, w == z * D, k * D == 1);
        Vector3 p = ((u * (1.0 / D)) * t[0] + (v * (1.0 / D)) * t[1] + (w * (1.0 / D)) * t[2]) - o;
        p = Vector3(named(p.x), named(p.y), named(p.z));
        for (int i = 0; i < 3; i++)
            vc_by(p[i] == f * qn[i], "the point", p[i] == un * t[0][i] + vn * t[1][i] + wn * t[2][i] - o[i], x * a[i] + y * b[i] + z * c[i] == f * qn[i], un == x, vn == y, wn == z, x + y + z == 1);
        double h = named(p.x * qn.x + p.y * qn.y + p.z * qn.z);
        vc_by(h == f * nn, "its projection", h == p.x * qn.x + p.y * qn.y + p.z * qn.z, p.x == f * qn.x, p.y == f * qn.y, p.z == f * qn.z, nn == norm2(qn));
        double fn = named(h / nn);
        vc_by(fn == f, "its fraction", fn == h / nn, h == f * nn, nn > 0);
        vc_assert(false, "without a hit no point of the ray is in the triangle");
    } else if (crosses && sideOk && D != 0) vc_assert(!(u * D >= 0 && v * D >= 0 && w * D >= 0 && -d / D >= 1e-9 && -d / D <= 1 - 1e-9), "without a hit no point of the ray is in the triangle");
}
// ------------------------------------------------------------------ capsule
// the end cap test (same statement as for the sphere, around any centre)
HARNESS(raycast_cap, "stubs=named_dot,named_square") {
    VcRaw<CapsuleShape> raw; CapsuleShape* s = anyCapsule(raw); double r = s->getRadius();
    double maxF = anyFraction(); Ray ray = anyRay(maxF);
    Vector3 k = anyVec("centre"), o = ray.point1 - k, d = ray.point2 - ray.point1, at;
    vc_assume(norm2(d) >= MACHINE_EPSILON);
    double t;
    bool hit = s->raycastWithSphereEndCap(ray.point1, ray.point2, k, maxF, at, t);
    double u = vc_any_real("u");
    if (vc_native()) u = std::fmod(std::fabs(u), maxF + 1);
    vc_assume(0 <= u); vc_assume(u < maxF);
    Quad q{named(norm2(o)) - named(r * r), named(dot3(o, d)), named(norm2(d))};
    vc_assert(vc_eq(norm2(o + u * d), q.at(u) + r * r), "distance to the centre along the ray");
    if (hit) {
        vc_assert(vc_and(vc_le(0, t), vc_lt(t, maxF)), "the hit is inside the range of the ray");
        vc_assert(vc_eq(q.at(t), 0), "the hit point is on the sphere");
        vc_assert(vc_implies(u < t, vc_native() ? vc_le(0, q.at(u)) : q.at(u) > 0), "no earlier point of the ray is on the sphere");
        vc_assert(vc_and(vc_le(q.b, 0), vc_le(0, q.c)), "the ray starts outside and goes towards the centre");
        vc_assert(eqv(at, ray.point1 + t * (ray.point2 - ray.point1)), "the hit point is the point of the ray at the hit fraction");
    } else {
        if (vc_native()) { vc_assert(q.c <= 1e-6 || vc_le(0, q.at(u)), "without a hit the ray is outside or starts inside"); return; }
        double lin = named(q.n * u + q.b);
        vc_step(q.n * q.at(u) == lin * lin + q.n * q.c - q.b * q.b, "completed square");
        vc_assert(vc_implies(q.c > 0, q.at(u) > 0), "without a hit the ray is outside or starts inside");
    }
}
// a point of the ray at u is in the capsule when it is within the radius of the point of the axis at height s, for some s of the axis
static double H, R, oy, ny, qA, qB, qC, qN, gS1;    // square of the distance to the axis: qA u^2 + 2 qB u + qC + R^2
static Ray* gRay; static bool gGhost, gCapHit; static double gCapT, gWp, gWq; static Vector3 gCapCentre;
static double E_(double u) { return qC + 2 * qB * u + qA * (u * u); }
static double F_(double u, double y0, double v, double s) { return E_(u) + sq(y0 + u * v - s); }
STUB("^reactphysics3d::CapsuleShape::raycastWithSphereEndCap\\(")
bool stub_cap(const CapsuleShape*, const Vector3& p1, const Vector3& p2, const Vector3& centre, double maxF, Vector3& at, double& t) {
    bool low = vc_same(centre.y, -H);
    vc_assert(low || vc_same(centre.y, H), "the centre is an end of the axis");
    vc_assert(centre.x == 0 && centre.z == 0, "the centre is on the axis");
    vc_assert(maxF == gRay->maxFraction && eqv(p1, gRay->point1) && eqv(p2, gRay->point2), "the same ray");
    double y0 = low ? oy + H : H - oy, v = low ? ny : -ny, w = low ? gWp : gWq;
    bool hit = vc_any_bool("cap hit");
    gCapCentre = centre; gCapHit = hit;
    if (hit) {
        gCapT = vc_any_real("cap t");
        vc_assume(0 <= gCapT); vc_assume(gCapT < maxF); vc_assume(F_(gCapT, y0, v, 0) == 0);
        vc_assume(qB + y0 * v <= 0); vc_assume(qC + y0 * y0 >= 0);
        t = gCapT; at = p1 + t * (p2 - p1);
    }
    if (gGhost) vc_assume(vc_implies(0 <= w && w < (hit ? gCapT : maxF), (!hit && qC + y0 * y0 <= 0) || F_(w, y0, v, 0) > 0));
    return hit;
}
struct CapRay { double md, nd, dd, nn, mn, mm, a, b, c; };
static CapRay gK;
static CapsuleShape* capsuleAndRay(VcRaw<CapsuleShape>& raw, Ray& ray) {
    CapsuleShape* s = anyCapsule(raw);
    H = anyPositive("half"); s->mHalfHeight = H; R = s->mMargin;
    if (vc_native()) {
        for (int i = 0; i < 3; i++) if (vc_any_bool("small")) { ray.point1[i] = (int)(vc_any_u32("o") % 5) - 2; ray.point2[i] = (int)(vc_any_u32("e") % 5) - 2; }
        ray.maxFraction = std::fmod(ray.maxFraction, 1.0);
    }
    vc_assume(ray.maxFraction <= 1);
    gRay = &ray;
    Vector3 o = ray.point1, e = ray.point2, n(named(e.x - o.x), named(e.y - o.y), named(e.z - o.z)), m(o.x, o.y + H, o.z), d(0, 2 * H, 0);
    oy = o.y; ny = n.y;
    qA = named(sq(n.x) + sq(n.z)); qB = named(o.x * n.x + o.z * n.z); qC = named(sq(o.x) + sq(o.z) - R * R); qN = named(qA + ny * ny);
    if (vc_native()) return s;
    CapRay& k = gK;
    // the scalar products of the code
    Vector3 rn = e - o;
    k.md = named(dot3(m, d)); k.nd = named(dot3(rn, d)); k.dd = named(dot3(d, d)); k.nn = named(dot3(rn, rn)); k.mn = named(dot3(m, rn)); k.mm = named(dot3(m, m));
    vc_step(k.md == 2 * H * (oy + H), "m.d"); vc_step(k.nd == 2 * H * ny, "n.d"); vc_step(k.dd == 4 * H * H, "d.d");
    vc_step(k.nn == qA + ny * ny, "n.n"); vc_step(k.mn == qB + (oy + H) * ny, "m.n"); vc_step(k.mm == qC + R * R + sq(oy + H), "m.m");
    k.a = named(k.dd * k.nn - k.nd * k.nd); k.c = named(k.dd * (k.mm - R * R) - k.md * k.md); k.b = named(k.dd * k.mn - k.nd * k.md);
    vc_by(k.a == 4 * H * H * qA, "a", k.a == k.dd * k.nn - k.nd * k.nd, k.nn == qA + ny * ny, k.nd == 2 * H * ny, k.dd == 4 * H * H);
    vc_by(k.c == 4 * H * H * qC, "c", k.c == k.dd * (k.mm - R * R) - k.md * k.md, k.mm == qC + R * R + sq(oy + H), k.md == 2 * H * (oy + H), k.dd == 4 * H * H);
    vc_by(k.b == 4 * H * H * qB, "b", k.b == k.dd * k.mn - k.nd * k.md, k.mn == qB + (oy + H) * ny, k.nd == 2 * H * ny, k.md == 2 * H * (oy + H), k.dd == 4 * H * H);
    // a ray is parallel to the axis or not within the tolerance of the test
    bool par = vc_any_bool("parallel");
    if (par) vc_assume(qA == 0); else vc_assume(k.a > 10 * MACHINE_EPSILON * k.dd * k.nn);
    vc_assume(k.nn >= MACHINE_EPSILON);
    vc_step(qA >= 0, "a sum of squares");
    return s;
}
// clamped height: the nearest point of the axis
static double nearest(double y) { return y < -H ? -H : y > H ? H : y; }
HARNESS(capsule_hit, "stubs=named_dot,named_square,stub_cap,stub_normalize,stub_unit") {
    VcRaw<CapsuleShape> raw; Ray ray = anyRay(anyFraction());
    CapsuleShape* s = capsuleAndRay(raw, ray);
    gGhost = false; gCapHit = false;
    RaycastInfo info;
    const CollisionShape* cs = s;
    bool hit = cs->raycast(ray, info, theCollider(), gAlloc);
    if (!hit) return;
    double t = info.hitFraction;
    vc_assert(vc_and(vc_le(0, t), vc_le(t, ray.maxFraction)), "the hit is inside the range of the ray");
    sameHit(info, ray); whose(info);
    if (vc_native()) {
        double y = info.worldPoint.y, k = nearest(y);
        Vector3 r = info.worldPoint - Vector3(0, k, 0);
        vc_assert(vc_eq(norm2(r), R * R), "the hit point is on the capsule");
        Vector3 u = info.worldNormal.getUnit();
        vc_assert(eqv(u * R, r), "the normal points away from the axis");
        return;
    }
    if (gCapHit) {
        vc_assert(t == gCapT, "the hit on an end cap");
        vc_assert(eqv(info.worldNormal, info.worldPoint - gCapCentre), "the normal points away from the end of the axis");
        // stub_cap: the hit point is at the radius from the end of the axis
    } else {
        double rt = std::sqrt(gK.b * gK.b - gK.a * gK.c);
        vc_step(gK.a > 0, "not parallel");
        t = named(t);
        vc_step(gK.a * t == -gK.b - rt, "root");
        double l = named(qA * t + qB);
        vc_by(4 * H * H * l == -rt, "root of the quadratic", gK.a * t == -gK.b - rt, gK.a == 4 * H * H * qA, gK.b == 4 * H * H * qB, l == qA * t + qB);
        vc_by(l * l == qB * qB - qA * qC, "its square", 4 * H * H * l == -rt, rt * rt == gK.b * gK.b - gK.a * gK.c, gK.a == 4 * H * H * qA, gK.b == 4 * H * H * qB, gK.c == 4 * H * H * qC, H > 0);
        vc_by(E_(t) == 0, "the hit point is at the radius from the axis", l * l == qB * qB - qA * qC, l == qA * t + qB, gK.a == 4 * H * H * qA, gK.a > 0);
        vc_assert(-H <= oy + t * ny, "the hit point is above the lower end of the axis");
        vc_assert(oy + t * ny <= H, "the hit point is below the upper end of the axis");
        vc_assert(eqv(gNormIn, info.worldPoint.x, 0, info.worldPoint.z), "the normal points away from the axis");
        vc_assert(eqv(info.worldNormal, gNormOut), "the normal is a unit vector");
    }
}
