// An arbitrary convex mesh: any vertices, any faces (first vertex of a face: an uninterpreted function of its index)
#ifndef MESH_CONTRACT_H
#define MESH_CONTRACT_H
#include "containers.h"
#include <reactphysics3d/reactphysics3d.h>
static GhostAllocator gMeshAlloc;
static uint64_t gNF, gNV;          // numbers of faces and vertices
static Vector3* gV;                // vertices
static uint64_t firstVertex(uint64_t f);
struct GhostFace { alignas(HalfEdgeStructure::Face) unsigned char b[sizeof(HalfEdgeStructure::Face)]; };
static GhostFace gFaceBytes; static uint32_t gFaceVerts[1]; static uint64_t gVertexBytes[1];
STUB("^reactphysics3d::HalfEdgeStructure::getFace\\(") const HalfEdgeStructure::Face* stub_face(const HalfEdgeStructure*, uint32_t f) {
    vc_assert(f < gNF, "the face index is in range");
    HalfEdgeStructure::Face* r = (HalfEdgeStructure::Face*)gFaceBytes.b;
    uint64_t v = vc_uf("first vertex of a face", f, 0);
    vc_assume(v < gNV);
    gFaceVerts[0] = (uint32_t)v;
    r->faceVertices.mBuffer = gFaceVerts; r->faceVertices.mSize = 3;
    return r;
}
STUB("^reactphysics3d::HalfEdgeStructure::getVertex\\(") const HalfEdgeStructure::Vertex* stub_vertex(const HalfEdgeStructure*, uint32_t i) {
    vc_assert(i < gNV, "the vertex index is in range");
    HalfEdgeStructure::Vertex* r = (HalfEdgeStructure::Vertex*)gVertexBytes;
    r->vertexPointIndex = i;   // vertices of the half-edge structure are the vertices of the mesh (ConvexMesh::createHalfEdgeStructure)
    return r;
}
static Vector3* vecArray(uint64_t n, const char* name) { Vector3* p = vc_array<Vector3>(n, name); Vector3 t; vc_layout_like(p, &t); return p; }
static VcRaw<ConvexMesh> gMeshRaw; static VcRaw<ConvexMeshShape> gShapeRaw;
static ConvexMesh* anyMesh(bool symbolicFaces) {
    ConvexMesh* m = new (gMeshRaw.bytes) ConvexMesh(gMeshAlloc);
    if (vc_native()) {
        // a box, a tetrahedron or random triangles
        int kind = vc_any_u32("kind") % 3;
        static const uint32_t bx[6][4] = {{0,1,3,2},{4,6,7,5},{0,4,5,1},{2,3,7,6},{0,2,6,4},{1,5,7,3}}, tt[4][3] = {{0,2,1},{0,1,3},{0,3,2},{1,2,3}};
        Vector3 o = anyVec("o"), e = anyVec("e");
        gNV = kind == 0 ? 8 : kind == 1 ? 4 : 3 + vc_any_u32("nv") % 6;
        for (uint32_t i = 0; i < gNV; i++) {
            Vector3 v = kind == 0 ? o + Vector3((i & 1) * (std::fabs(e.x) + 0.1), (i >> 1 & 1) * (std::fabs(e.y) + 0.1), (i >> 2) * (std::fabs(e.z) + 0.1))
                      : kind == 1 ? o + Vector3(i == 1, i == 2, i == 3) * (std::fabs(e.x) + 0.1) : anyVec("v");
            m->mVertices.add(v); m->mHalfEdgeStructure.addVertex(i);
        }
        gNF = kind == 0 ? 6 : kind == 1 ? 4 : 1 + vc_any_u32("nf") % 6;
        for (uint32_t f = 0; f < gNF; f++) {
            Array<uint32> idx(gMeshAlloc, 4);
            for (int k = 0; k < (kind == 0 ? 4 : 3); k++) idx.add(kind == 0 ? bx[f][k] : kind == 1 ? tt[f][k] : vc_any_u32("i") % gNV);
            m->mHalfEdgeStructure.addFace(idx);
            Vector3 n = kind == 2 ? anyVec("n") : (m->mVertices[idx[1]] - m->mVertices[idx[0]]).cross(m->mVertices[idx[2]] - m->mVertices[idx[0]]);
            if (kind == 2 && n.length() < 0.01) n = Vector3(1, 0, 0);
            n.normalize();
            if (kind == 0 && n.dot(m->mVertices[idx[0]] - (o + 0.5 * (Vector3(std::fabs(e.x), std::fabs(e.y), std::fabs(e.z))))) < 0) n = -n;
            m->mFacesNormals.add(n);
        }
        gV = m->mVertices.mBuffer;
        return m;
    }
    gNV = vc_any_u64("vertices"); gNF = 0;
    vc_assume(gNV >= 1); vc_assume(gNV < 1u << 31);
    m->mVertices.mBuffer = gV = vecArray(gNV, "vertex"); m->mVertices.mSize = gNV; m->mVertices.mCapacity = gNV;
    m->mHalfEdgeStructure.mVertices.mSize = gNV; m->mHalfEdgeStructure.mVertices.mCapacity = gNV;
    m->mHalfEdgeStructure.mFaces.mSize = 0;
    return m;
}
static Vector3 anyScale() {
    double x = vc_any_real("sx"), y = vc_any_real("sy"), z = vc_any_real("sz");
    if (vc_native()) { x = std::fabs(x) + 0.1; y = std::fabs(y) + 0.1; z = std::fabs(z) + 0.1; if (vc_any_bool("unscaled")) x = y = z = 1; }
    vc_assume(x > 0); vc_assume(y > 0); vc_assume(z > 0);
    return Vector3(x, y, z);
}
static Vector3* gN;   // normals of the scaled faces
static ConvexMeshShape* anyMeshShape(ConvexMesh* m) {
    Vector3 s = anyScale();
    ConvexMeshShape* c = new (gShapeRaw.bytes) ConvexMeshShape(m, gMeshAlloc, s);
    if (vc_native()) { gN = c->mScaledFacesNormals.mBuffer; return c; }
    gNF = vc_any_u64("faces");
    vc_assume(gNF >= 1); vc_assume(gNF < 1u << 31);
    m->mHalfEdgeStructure.mFaces.mSize = gNF; m->mHalfEdgeStructure.mFaces.mCapacity = gNF;
    c->mScaledFacesNormals.mBuffer = gN = vecArray(gNF, "normal"); c->mScaledFacesNormals.mSize = gNF; c->mScaledFacesNormals.mCapacity = gNF;
    return c;
}
static uint64_t firstVertex(uint64_t f) { return vc_native() ? gMeshRaw.r().mHalfEdgeStructure.mFaces[f].faceVertices[0] : vc_uf("first vertex of a face", f, 0); }
#endif
