// Glue between the engine and the oracle: conversions, shape factories, random scenes.
#pragma once
#include <reactphysics3d/reactphysics3d.h>
#include "common.h"
#include "geom.h"
#include <memory>

namespace rp = reactphysics3d;
using og::V; using og::Q; using og::M; using og::Pose;
using rp::decimal;
// Allocator used by the harnesses. In hooked (sanitizer) builds each block has exactly the requested size and
// starts filled with 0xFF (NaNs, invalid booleans, huge integers), so that reads of uninitialised memory surface.
#ifdef RP3D_VERIF_HOOKS
struct BaseAlloc : rp::MemoryAllocator {
    void* allocate(size_t size) override { void* p = nullptr; if (posix_memalign(&p, 16, size ? size : 1)) return nullptr; memset(p, 0xFF, size); return p; }
    void release(void* p, size_t) override { free(p); }
};
#else
using BaseAlloc = rp::DefaultAllocator;
#endif
inline rp::MemoryAllocator& baseAlloc() { static BaseAlloc a; return a; }
struct PC : rp::PhysicsCommon { PC() : rp::PhysicsCommon(&baseAlloc()) {} };
constexpr bool DBL = sizeof(decimal) == 8;
constexpr double EPSD = DBL ? 2.3e-16 : 1.2e-7;

inline rp::Vector3 rv(V v) { return rp::Vector3(decimal(v.x), decimal(v.y), decimal(v.z)); }
inline V ov(const rp::Vector3& v) { return V(v.x, v.y, v.z); }
inline Q oq(const rp::Quaternion& q) { return Q(q.x, q.y, q.z, q.w); }
inline rp::Quaternion rq(Q q) { return rp::Quaternion(decimal(q.x), decimal(q.y), decimal(q.z), decimal(q.w)); }
inline M om(const rp::Matrix3x3& m) { return M(ov(m[0]), ov(m[1]), ov(m[2])); }
inline Pose op(const rp::Transform& t) { return Pose(ov(t.getPosition()), oq(t.getOrientation())); }
inline double rd(double x) { return double(decimal(x)); }            // what the engine sees
inline V rdv(V v) { return V(rd(v.x), rd(v.y), rd(v.z)); }
inline bool fin(const rp::Vector3& v) { return og::finite(ov(v)); }

inline V rndUnit(vh::Rng& r) { for (;;) { V v(r.normal(), r.normal(), r.normal()); if (og::len(v) > 1e-3) return og::unit(v); } }
inline V rndBox(vh::Rng& r, double s) { return V(r.uniform(-s, s), r.uniform(-s, s), r.uniform(-s, s)); }
inline Q rndQ(vh::Rng& r) { for (;;) { Q q(r.normal(), r.normal(), r.normal(), r.normal()); if (og::qlen(q) > 1e-3) return og::qunit(q); } }
// orientation: random, identity, axis aligned quarter turns, or slightly tilted
inline Q rndOrient(vh::Rng& r) {
    switch (r.below(6)) {
    case 0: return Q();
    case 1: { V a; a[int(r.below(3))] = 1; return og::axisAngle(a, 1.5707963267948966 * r.below(4)); }
    case 2: { return og::axisAngle(rndUnit(r), r.logUniform(1e-4, 0.3)); }
    default: return rndQ(r);
    }
}
inline rp::Transform rt(V p, Q q) { rp::Quaternion k = rq(q); k.normalize(); return rp::Transform(rv(p), k); }

enum class SK { Sphere, Capsule, Box, HullPoly, HullQuick, Mesh, Field };
inline const char* skname(SK k) { static const char* n[] = {"sphere", "capsule", "box", "polyhull", "quickhull", "mesh", "heightfield"}; return n[int(k)]; }

struct Sh {
    SK k = SK::Sphere;
    og::Shape o;                        // oracle shape, scaled, in collider space
    rp::CollisionShape* s = nullptr;
    rp::ConvexMesh* cm = nullptr; rp::TriangleMesh* tm = nullptr; rp::HeightField* hf = nullptr;
    V scale = V(1, 1, 1);
    double R = 1;                       // bounding radius around local origin
    double inR = 0;                     // rough inner size
    bool concave() const { return k == SK::Mesh || k == SK::Field; }
};
inline double boundR(const og::Shape& s) {
    double m = 0; for (V p : s.pts) m = std::max(m, og::len(p));
    for (auto& t : s.tris) for (V p : t) m = std::max(m, og::len(p));
    return m + s.r;
}
struct LocalBox { V lo, hi; };
inline LocalBox boundsOf(const og::Shape& s, const Pose& T) {
    V lo(1e300, 1e300, 1e300), hi(-1e300, -1e300, -1e300);
    auto add = [&](V p) { V w = T * p; lo = og::vmin(lo, w); hi = og::vmax(hi, w); };
    for (V p : s.pts) add(p);
    for (auto& t : s.tris) for (V p : t) add(p);
    return {lo - V(s.r, s.r, s.r), hi + V(s.r, s.r, s.r)};
}

inline Sh mkSphere(rp::PhysicsCommon& pc, double r) { Sh h; h.k = SK::Sphere; h.o = og::sphere(rd(r)); h.s = pc.createSphereShape(decimal(r)); h.R = rd(r); h.inR = r; return h; }
inline Sh mkCapsule(rp::PhysicsCommon& pc, double r, double ht) { Sh h; h.k = SK::Capsule; h.o = og::capsule(rd(r), rd(ht)); h.s = pc.createCapsuleShape(decimal(r), decimal(ht)); h.R = boundR(h.o); h.inR = r; return h; }
inline Sh mkBox(rp::PhysicsCommon& pc, V e) { Sh h; h.k = SK::Box; h.o = og::box(rdv(e)); h.s = pc.createBoxShape(rv(e)); h.R = boundR(h.o); h.inR = std::min(e.x, std::min(e.y, e.z)); return h; }

// Convex polyhedra given by faces. verts are scaled; faces are counter-clockwise seen from outside.
struct Poly { std::vector<V> v; std::vector<std::vector<int>> f; };
inline Poly polyPrism(int n, double r, double h, double topScale, double phase) {
    Poly p; for (int k = 0; k < 2; k++) for (int i = 0; i < n; i++) { double a = phase + 6.283185307179586 * i / n, s = k ? topScale : 1; p.v.push_back(V(r * s * std::cos(a), k ? h / 2 : -h / 2, r * s * std::sin(a))); }
    std::vector<int> bot, top; for (int i = 0; i < n; i++) { bot.push_back(i); top.push_back(n + n - 1 - i); }
    p.f.push_back(bot); p.f.push_back(top);
    for (int i = 0; i < n; i++) { int j = (i + 1) % n; p.f.push_back({j, i, n + i, n + j}); }
    return p;
}
inline Poly polyPyramid(int n, double r, double h, double phase) {
    Poly p; for (int i = 0; i < n; i++) { double a = phase + 6.283185307179586 * i / n; p.v.push_back(V(r * std::cos(a), -h / 3, r * std::sin(a))); }
    p.v.push_back(V(0, 2 * h / 3, 0)); std::vector<int> bot; for (int i = 0; i < n; i++) bot.push_back(i); p.f.push_back(bot);
    for (int i = 0; i < n; i++) { int j = (i + 1) % n; p.f.push_back({j, i, n}); }
    return p;
}
inline Poly polyBipyramid(int n, double r, double h1, double h2, double phase) {
    Poly p; for (int i = 0; i < n; i++) { double a = phase + 6.283185307179586 * i / n; p.v.push_back(V(r * std::cos(a), 0, r * std::sin(a))); }
    p.v.push_back(V(0, h1, 0)); p.v.push_back(V(0, -h2, 0));
    for (int i = 0; i < n; i++) { int j = (i + 1) % n; p.f.push_back({j, i, n}); p.f.push_back({i, j, n + 1}); }
    return p;
}
inline Poly rndPoly(vh::Rng& r, double size) {
    double h = size * r.uniform(0.5, 1.6), ph = r.uniform(0, 6);
    switch (r.below(3)) {
    case 0: return polyPrism(r.range(3, 8), size, h, r.chance(0.5) ? 1.0 : r.uniform(0.4, 1.5), ph);
    case 1: return polyPyramid(r.range(3, 7), size, h, ph);
    default: return polyBipyramid(r.range(3, 6), size, h, size * r.uniform(0.4, 1.2), ph);
    }
}
inline void orientOut(Poly& p) { // make face winding outward
    V c; for (V v : p.v) c += v; c = c / double(p.v.size());
    for (auto& f : p.f) { V n = og::cross(p.v[f[1]] - p.v[f[0]], p.v[f[2]] - p.v[f[0]]); if (og::dot(n, p.v[f[0]] - c) < 0) std::reverse(f.begin(), f.end()); }
}
struct PolyInput { std::vector<decimal> verts; std::vector<int> idx; std::vector<rp::PolygonVertexArray::PolygonFace> faces;
    rp::PolygonVertexArray arr() { return rp::PolygonVertexArray(uint32_t(verts.size() / 3), verts.data(), 3 * sizeof(decimal), idx.data(), sizeof(int), uint32_t(faces.size()), faces.data(),
        DBL ? rp::PolygonVertexArray::VertexDataType::VERTEX_DOUBLE_TYPE : rp::PolygonVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, rp::PolygonVertexArray::IndexDataType::INDEX_INTEGER_TYPE); } };
inline PolyInput polyInput(const Poly& p) { PolyInput in; for (V v : p.v) for (int a = 0; a < 3; a++) in.verts.push_back(decimal(v[a]));
    for (auto& f : p.f) { rp::PolygonVertexArray::PolygonFace pf; pf.indexBase = uint32_t(in.idx.size()); pf.nbVertices = uint32_t(f.size()); in.faces.push_back(pf); for (int i : f) in.idx.push_back(i); } return in; }

inline Sh mkHullPoly(rp::PhysicsCommon& pc, Poly p, V scale = V(1, 1, 1)) {
    Sh h; h.k = SK::HullPoly; h.scale = rdv(scale); orientOut(p);
    PolyInput in = polyInput(p); std::vector<rp::Message> msg; h.cm = pc.createConvexMesh(in.arr(), msg);
    std::vector<V> pts; for (V v : p.v) pts.push_back(og::had(rdv(v), h.scale)); h.o = og::hull(pts); h.R = boundR(h.o);
    if (h.cm) h.s = pc.createConvexMeshShape(h.cm, rv(scale));
    double m = 1e300; for (auto& f : h.o.faces) m = std::min(m, f.d); h.inR = m;
    return h;
}
inline Sh mkHullQuick(rp::PhysicsCommon& pc, const std::vector<V>& raw, V scale = V(1, 1, 1)) {
    Sh h; h.k = SK::HullQuick; h.scale = rdv(scale);
    std::vector<float> f; std::vector<V> pts; for (V v : raw) { for (int a = 0; a < 3; a++) f.push_back(float(v[a])); pts.push_back(og::had(V(float(v.x), float(v.y), float(v.z)), h.scale)); }
    rp::VertexArray va(f.data(), 3 * sizeof(float), uint32_t(raw.size()), rp::VertexArray::DataType::VERTEX_FLOAT_TYPE);
    std::vector<rp::Message> msg; h.cm = pc.createConvexMesh(va, msg);
    h.o = og::hull(pts); h.R = boundR(h.o);
    if (h.cm) h.s = pc.createConvexMeshShape(h.cm, rv(scale));
    double m = 1e300; for (auto& fc : h.o.faces) m = std::min(m, fc.d); h.inR = m;
    return h;
}
inline std::vector<V> rndHullPoints(vh::Rng& r, double size, int n) { // well spread points on an ellipsoid
    std::vector<V> p; V e(r.uniform(0.6, 1.2) * size, r.uniform(0.6, 1.2) * size, r.uniform(0.6, 1.2) * size);
    double minSep = 1.6 / std::sqrt(double(n)); int tries = 0;
    // start from a tetrahedron so that the origin is inside
    Q q = rndQ(r); V t[4] = {V(1, 1, 1), V(1, -1, -1), V(-1, 1, -1), V(-1, -1, 1)};
    std::vector<V> u; for (V v : t) u.push_back(og::rot(q, og::unit(v)));
    while (int(u.size()) < n && tries++ < 4000) { V c = rndUnit(r); bool ok = true; for (V w : u) if (og::len(w - c) < minSep) ok = false; if (ok) u.push_back(c); }
    for (V v : u) p.push_back(og::had(v, e));
    return p;
}
struct MeshInput { std::vector<decimal> verts; std::vector<int> idx;
    rp::TriangleVertexArray arr() { return rp::TriangleVertexArray(uint32_t(verts.size() / 3), verts.data(), 3 * sizeof(decimal), uint32_t(idx.size() / 3), idx.data(), 3 * sizeof(int),
        DBL ? rp::TriangleVertexArray::VertexDataType::VERTEX_DOUBLE_TYPE : rp::TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, rp::TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); } };
inline Sh mkMesh(rp::PhysicsCommon& pc, const std::vector<V>& v, const std::vector<int>& idx, V scale = V(1, 1, 1)) {
    Sh h; h.k = SK::Mesh; h.scale = rdv(scale); MeshInput in; for (V p : v) for (int a = 0; a < 3; a++) in.verts.push_back(decimal(p[a])); in.idx = idx;
    std::vector<rp::Message> msg; auto arr = in.arr(); h.tm = pc.createTriangleMesh(arr, msg);
    h.o.kind = og::Kind::Mesh; h.o.desc = "mesh tris=" + std::to_string(idx.size() / 3);
    for (size_t i = 0; i + 2 < idx.size(); i += 3) h.o.tris.push_back({og::had(rdv(v[idx[i]]), h.scale), og::had(rdv(v[idx[i + 1]]), h.scale), og::had(rdv(v[idx[i + 2]]), h.scale)});
    h.R = boundR(h.o); if (h.tm) h.s = pc.createConcaveMeshShape(h.tm, rv(scale)); return h;
}
// a bumpy sheet (nx x nz cells), normals mostly upward
inline void sheet(vh::Rng& r, int nx, int nz, double cell, double amp, std::vector<V>& v, std::vector<int>& idx, bool up = true) {
    for (int j = 0; j <= nz; j++) for (int i = 0; i <= nx; i++) v.push_back(V((i - nx / 2.0) * cell + r.uniform(-.15, .15) * cell, r.uniform(-amp, amp), (j - nz / 2.0) * cell + r.uniform(-.15, .15) * cell));
    for (int j = 0; j < nz; j++) for (int i = 0; i < nx; i++) { int a = j * (nx + 1) + i, b = a + 1, c = a + nx + 1, d = c + 1;
        if (up) { int t[] = {a, c, b, b, c, d}; idx.insert(idx.end(), t, t + 6); } else { int t[] = {a, b, c, b, d, c}; idx.insert(idx.end(), t, t + 6); } }
}
inline void polyToTris(const Poly& p, std::vector<V>& v, std::vector<int>& idx) { v = p.v; for (auto& f : p.f) for (size_t k = 1; k + 1 < f.size(); k++) { idx.push_back(f[0]); idx.push_back(f[k]); idx.push_back(f[k + 1]); } }

inline std::vector<std::vector<V>> fieldTris(const std::vector<double>& hts, int cols, int rows, V scale) {
    double mn = *std::min_element(hts.begin(), hts.end()), mx = *std::max_element(hts.begin(), hts.end()), org = -(mx - mn) * 0.5 - mn;
    auto P = [&](int x, int y) { return og::had(V(-(cols - 1) * 0.5 + x, org + hts[y * cols + x], -(rows - 1) * 0.5 + y), scale); };
    std::vector<std::vector<V>> out;
    for (int j = 0; j + 1 < rows; j++) for (int i = 0; i + 1 < cols; i++) { V a = P(i, j), b = P(i, j + 1), c = P(i + 1, j), d = P(i + 1, j + 1); out.push_back({a, b, c}); out.push_back({c, b, d}); }
    return out;
}
inline Sh mkField(rp::PhysicsCommon& pc, const std::vector<float>& hts, int cols, int rows, V scale = V(1, 1, 1)) {
    Sh h; h.k = SK::Field; h.scale = rdv(scale); std::vector<rp::Message> msg;
    h.hf = pc.createHeightField(cols, rows, hts.data(), rp::HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, msg);
    h.o.kind = og::Kind::Mesh; h.o.desc = "heightfield " + std::to_string(cols) + "x" + std::to_string(rows);
    h.o.tris = fieldTris(std::vector<double>(hts.begin(), hts.end()), cols, rows, h.scale); h.R = boundR(h.o);
    if (h.hf) h.s = pc.createHeightFieldShape(h.hf, rv(scale)); return h;
}
inline std::vector<float> rndHeights(vh::Rng& r, int cols, int rows, double amp) { std::vector<float> v; double off = r.chance(0.5) ? 0 : r.uniform(-5, 5); for (int i = 0; i < cols * rows; i++) v.push_back(float(off + r.uniform(-amp, amp))); return v; }

// Random shape of one of the allowed kinds with typical size about `size`
inline Sh rndShape(rp::PhysicsCommon& pc, vh::Rng& r, double size, const std::vector<SK>& kinds, bool scaled = true) {
    SK k = r.pick(kinds); V sc(1, 1, 1);
    if (scaled && r.chance(0.5)) sc = V(r.uniform(0.5, 2), r.uniform(0.5, 2), r.uniform(0.5, 2));
    switch (k) {
    case SK::Sphere: return mkSphere(pc, size * r.uniform(0.4, 1.2));
    case SK::Capsule: return mkCapsule(pc, size * r.uniform(0.25, 0.8), size * r.uniform(0.4, 2));
    case SK::Box: return mkBox(pc, V(size * r.uniform(0.4, 1.2), size * r.uniform(0.4, 1.2), size * r.uniform(0.4, 1.2)));
    case SK::HullPoly: return mkHullPoly(pc, rndPoly(r, size), sc);
    case SK::HullQuick: return mkHullQuick(pc, rndHullPoints(r, size, r.range(4, 14)), sc);
    case SK::Mesh: { std::vector<V> v; std::vector<int> idx;
        if (r.chance(0.6)) sheet(r, r.range(1, 5), r.range(1, 5), size * r.uniform(0.5, 1.5), size * r.uniform(0, 0.6), v, idx, r.chance(0.7));
        else { Poly p = rndPoly(r, size * 1.5); orientOut(p); polyToTris(p, v, idx); }
        return mkMesh(pc, v, idx, sc); }
    default: { int c = r.range(2, 6), w = r.range(2, 6); V s = V(size * r.uniform(0.5, 1.5), size * r.uniform(0.5, 1.5), size * r.uniform(0.5, 1.5)); return mkField(pc, rndHeights(r, c, w, r.uniform(0.05, 0.6)), c, w, s); }
    }
}
inline const std::vector<SK>& convexKinds() { static std::vector<SK> k = {SK::Sphere, SK::Capsule, SK::Box, SK::HullPoly, SK::HullQuick}; return k; }
inline const std::vector<SK>& allKinds() { static std::vector<SK> k = {SK::Sphere, SK::Capsule, SK::Box, SK::HullPoly, SK::HullQuick, SK::Mesh, SK::Field}; return k; }

inline std::string vs(V v) { char b[120]; snprintf(b, sizeof b, "(%.9g,%.9g,%.9g)", v.x, v.y, v.z); return b; }
inline std::string vs(const rp::Vector3& v) { return vs(ov(v)); }

// Signed gap between two placed shapes (mesh = union of triangles: minimum over triangles)
inline og::Gap gapAny(const og::Shape& A, const Pose& TA, const og::Shape& B, const Pose& TB) {
    if (A.convex() && B.convex()) return og::gap(A, TA, B, TB);
    og::Gap best{1e300, 1e300, V(0, 1, 0)};
    const og::Shape& Ms = A.convex() ? B : A; const Pose& TM = A.convex() ? TB : TA; const og::Shape& C = A.convex() ? A : B; const Pose& TC = A.convex() ? TA : TB;
    for (auto& t : Ms.tris) { og::Gap g = og::gap(og::tri(t[0], t[1], t[2]), TM, C, TC); if (!A.convex() ? false : true) g.dir = -g.dir; if (g.lo < best.lo) { best.lo = g.lo; best.dir = g.dir; } if (g.hi < best.hi) best.hi = g.hi; }
    return best;
}
