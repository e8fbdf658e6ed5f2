// C21 convex meshes, C22 (mode "data") copies of user data, C23 (mode "surface") meshes and height fields as unions of triangles
#include "rp.h"
#include <set>
using HE = rp::HalfEdgeStructure;
static std::string pl(const std::vector<V>& p) { std::string s = std::to_string(p.size()) + " points"; for (size_t i = 0; i < p.size() && i < 40; i++) s += " " + vs(p[i]); return s; }
// everything a convex mesh promises, judged on its own data; returns the volume
static double checkMesh(vh::Ctx& C, rp::ConvexMesh* m, const std::vector<V>& in, double size, double tol, const std::string& who) {
    const HE& h = m->getHalfEdgeStructure(); unsigned nv = m->getNbVertices(), nf = m->getNbFaces(), ne = h.getNbHalfEdges(); std::string say = who + ": " + pl(in);
    auto bad = [&](const char* key, const std::string& s) { C.fail(key, "%s in the hull (%u vertices, %u faces, %u half-edges) of %s", s.c_str(), nv, nf, ne, say.substr(0, 3000).c_str()); };
    if (h.getNbVertices() != nv || h.getNbFaces() != nf) { bad("counts", "counts differ"); return 0; }
    if (nv + nf != ne / 2 + 2 || ne % 2) { bad("euler", "Euler's formula does not hold"); return 0; }
    std::vector<V> P; for (unsigned i = 0; i < nv; i++) P.push_back(ov(m->getVertex(i)));
    for (unsigned i = 0; i < nv; i++) { bool is = false; for (V p : in) if (p.x == P[i].x && p.y == P[i].y && p.z == P[i].z) is = true; if (!is) bad("not-input", "vertex " + vs(P[i]) + " is not an input point"); for (unsigned j = 0; j < i; j++) if (og::len(P[i] - P[j]) == 0) bad("duplicate", "two equal vertices"); }
    std::vector<int> used(ne, 0), vdeg(nv, 0); std::map<std::pair<unsigned, unsigned>, int> dir; double vol = 0; V c; for (V p : P) c += p; c = c / double(nv);
    for (unsigned f = 0; f < nf; f++) {
        const auto& fc = h.getFace(f); unsigned k = unsigned(fc.faceVertices.size()); if (k < 3) { bad("face", "face of less than three vertices"); return 0; }
        if (fc.edgeIndex >= ne) { bad("structure", "edge index of a face out of range"); return 0; }
        std::set<unsigned> sv; for (unsigned i = 0; i < k; i++) { unsigned a = fc.faceVertices[i]; if (a >= nv) { bad("structure", "vertex index of a face out of range"); return 0; } sv.insert(a); vdeg[a]++; dir[{a, fc.faceVertices[(i + 1) % k]}]++; }
        if (sv.size() != k) bad("face", "a vertex appears twice in a face");
        // walk the half-edges of the face
        unsigned e = fc.edgeIndex; std::vector<unsigned> walk; do { const auto& E = h.getHalfEdge(e); if (E.faceIndex != f || E.twinEdgeIndex >= ne || E.nextEdgeIndex >= ne || E.vertexIndex >= nv) { bad("structure", "broken half-edge"); return 0; } if (used[e]++) { bad("structure", "half-edge used twice"); return 0; } const auto& T = h.getHalfEdge(E.twinEdgeIndex);
            if (T.twinEdgeIndex != e || T.vertexIndex != h.getHalfEdge(E.nextEdgeIndex).vertexIndex || h.getHalfEdge(T.nextEdgeIndex).vertexIndex != E.vertexIndex || E.twinEdgeIndex == e || T.faceIndex == f) bad("structure", "twin half-edges do not match"); walk.push_back(E.vertexIndex); e = E.nextEdgeIndex; } while (e != fc.edgeIndex && walk.size() <= k);
        bool rotOk = walk.size() == k; if (rotOk) { rotOk = false; for (unsigned s = 0; s < k && !rotOk; s++) { bool all = true; for (unsigned i = 0; i < k; i++) if (walk[i] != fc.faceVertices[(i + s) % k]) all = false; rotOk = all; } } if (!rotOk) bad("structure", "half-edges of a face do not follow its vertices");
        V n = ov(m->getFaceNormal(f)), nw; double ext = 0; for (unsigned i = 0; i < k; i++) { V a = P[fc.faceVertices[i]] - c, b = P[fc.faceVertices[(i + 1) % k]] - c; nw += og::cross(a, b); ext = std::max(ext, og::len(b - a)); if (i >= 1 && i + 1 < k) { V q = P[fc.faceVertices[0]] - c; vol += og::dot(q, og::cross(a, b)) / 6; } }
        if (!(std::fabs(og::len(n) - 1) < 1e-5)) bad("normal", "normal of length " + std::to_string(og::len(n)));
        double area = og::len(nw) / 2, wid = area / (ext > 0 ? ext : 1);
        if (wid > 3e-3 * size) { double off = og::len(n - og::unit(nw)); C.maxi("largest error of a face normal", off); if (!(off < tol / wid * 4 + 4e-4)) bad("normal", "normal " + vs(n) + " should be " + vs(og::unit(nw))); }
        V an = og::unit(nw); double d = 0; for (unsigned i = 0; i < k; i++) d += og::dot(an, P[fc.faceVertices[i]]) / k;
        for (unsigned i = 0; i < k; i++) { double o = std::fabs(og::dot(an, P[fc.faceVertices[i]]) - d); C.maxi("largest distance of a vertex from its face, share of the size", o / size); if (wid > 3e-3 * size && o > tol) bad("planar", "face not flat by " + std::to_string(o)); }
        if (wid > 1e-3 * size) for (V p : in) { double o = og::dot(an, p) - d; if (o > 0) C.maxi("largest distance of an input point outside of a face, share of the size", o / size); if (o > tol) { bad("contains", "input point " + vs(p) + " is outside by " + std::to_string(o)); break; } }
        C.count("faces"); C.eval();
    }
    for (unsigned e = 0; e < ne; e++) if (!used[e]) { bad("structure", "half-edge of no face"); break; }
    for (auto& d : dir) { auto o = dir.find({d.first.second, d.first.first}); if (d.second != 1 || o == dir.end() || o->second != 1) { bad("closed", "the surface is not closed"); break; } }
    for (unsigned i = 0; i < nv; i++) { const auto& v = h.getVertex(i); if (!vdeg[i]) bad("vertex-unused", "vertex of no face"); if (v.vertexPointIndex != i || v.edgeIndex >= ne || h.getHalfEdge(v.edgeIndex).vertexIndex != i) bad("structure", "the half-edge of a vertex does not start there"); }
    if (og::len(ov(m->getCentroid()) - c) > 1e-5 * size + 1e-5 * og::len(c)) bad("centroid", "centroid " + vs(m->getCentroid()) + " should be " + vs(c));
    V lo = P[0], hi = P[0]; for (V p : P) { lo = og::vmin(lo, p); hi = og::vmax(hi, p); } if (og::len(ov(m->getBounds().getMin()) - lo) != 0 || og::len(ov(m->getBounds().getMax()) - hi) != 0) bad("bounds", "wrong bounds");
    double off = std::fabs(double(m->getVolume()) - vol); C.maxi("largest error of a volume, share of the cube of the size", off / (size * size * size)); if (!(off <= 1e-4 * size * size * (size + og::len(c)))) bad("volume", "volume " + std::to_string(m->getVolume()) + " should be " + std::to_string(vol));
    if (!(vol > 0)) bad("volume", "negative volume");
    C.seen(vh::hashBytes(P.data(), P.size() * sizeof(V))); return vol;
}
static std::vector<V> cloud(vh::Rng& g, std::string& fam, int& expect, double& size) { // expect: 1 must succeed, 0 must be refused, -2 no ordinary cloud
    std::vector<V> p; size = g.logUniform(0.5, 10); V off = g.chance(0.5) ? V() : rndBox(g, 2 * size); int n = g.chance(0.8) ? g.range(4, 30) : g.range(30, 150); expect = 1; Q q = rndOrient(g); V s(g.uniform(0.3, 1), g.uniform(0.3, 1), g.uniform(0.3, 1));
    auto put = [&](V v) { p.push_back(off + og::rot(q, og::had(s, v)) * size); };
    switch (g.below(13)) {
    case 0: fam = "ball"; for (int i = 0; i < n; i++) put(rndUnit(g) * std::cbrt(g.unit())); expect = n >= 8 ? 1 : -1; break;
    case 1: fam = "sphere"; for (int i = 0; i < n; i++) put(rndUnit(g)); expect = n >= 8 ? 1 : -1; break;
    case 2: { fam = "grid"; int k = g.range(1, 4); for (int i = 0; i < n; i++) put(V(g.range(-k, k), g.range(-k, k), g.range(-k, k)) / double(k)); expect = -1; break; }
    case 3: { fam = "full grid"; int a = g.range(1, 3), b = g.range(1, 3), c = g.range(1, 3); for (int x = 0; x <= a; x++) for (int y = 0; y <= b; y++) for (int z = 0; z <= c; z++) put(V(x * 2.0 / a - 1, y * 2.0 / b - 1, z * 2.0 / c - 1)); if (g.chance(0.5)) for (int i = 0; i < n; i++) put(rndBox(g, 1)); break; }
    case 4: { fam = "prism"; Poly P = polyPrism(g.range(3, 24), 1, g.uniform(0.3, 2), g.chance(0.5) ? 1 : g.uniform(0.3, 1), g.uniform(0, 6)); for (V v : P.v) put(v); break; }
    case 5: { fam = "bipyramid"; Poly P = rndPoly(g, 1); for (V v : P.v) put(v); for (int i = g.below(10); i > 0; i--) put(rndBox(g, 0.05)); break; }
    case 6: { fam = "clusters"; int k = g.range(4, 7); std::vector<V> c; for (int i = 0; i < k; i++) c.push_back(rndUnit(g)); double r = g.logUniform(1e-8, 1e-6) / size; for (int i = 0; i < n; i++) put(g.pick(c) + rndBox(g, r)); expect = -1; break; }
    case 7: { fam = "duplicates"; std::vector<V> c = rndHullPoints(g, 1, g.range(4, 12)); for (V v : c) put(v); size_t m = p.size(); for (int i = 0; i < n; i++) p.push_back(p[g.below(uint32_t(m))]); break; }
    case 8: { fam = "near duplicates"; std::vector<V> c = rndHullPoints(g, 1, g.range(4, 12)); for (V v : c) { put(v); for (int i = g.below(3); i > 0; i--) put(v + rndBox(g, g.logUniform(1e-8, 1e-6) / size)); } break; }
    case 9: { fam = "flat"; double th = g.chance(0.3) ? 0 : g.uniform(0.06, 0.2); for (int i = 0; i < n; i++) { V v = rndBox(g, 1); v.y = th * g.uniform(-1, 1); put(v); } expect = -1; if (th == 0 && g.chance(0.5)) { fam = "exactly flat"; p.clear(); int ax = g.below(3); double h = g.range(-3, 3); for (int i = 0; i < n; i++) { V v(g.range(-8, 8), g.range(-8, 8), g.range(-8, 8)); v[ax] = h; p.push_back(v); } expect = 0; size = 8; } break; }
    case 10: { fam = "few or collinear"; V a = rndBox(g, 1), d = rndUnit(g); int k = g.below(3); if (k == 0) { for (int i = g.below(4); i > 0; i--) put(rndBox(g, 1)); expect = 0; } else if (k == 1) { for (int i = 0; i < n; i++) p.push_back(V(1, 2, 3)); expect = 0; size = 3; } else { int dx = g.range(-3, 3), dy = g.range(-3, 3), dz = g.range(-3, 3); for (int i = 0; i < n; i++) { int t = g.range(-9, 9); p.push_back(V(t * dx, t * dy, t * dz)); } expect = 0; size = 9; } (void)a; (void)d; break; }
    case 11: { fam = "hull"; for (V v : rndHullPoints(g, 1, g.range(4, 40))) put(v); break; }
    default: { fam = "cylinder and cone points"; int k = g.range(3, 40); for (int j = 0; j < 3; j++) for (int i = 0; i < k; i++) { double a = 6.283185307179586 * i / k, r = j == 0 ? 1 : j == 1 ? 1 : 0.3; put(V(r * std::cos(a), j - 1.0, r * std::sin(a))); } }
    }
    for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[g.below(uint32_t(i))]);
    // ordinary clouds: points are equal up to 1e-5 or a hundredth of the size apart, and the cloud is not almost flat
    std::vector<V> k; for (V v : p) { bool ok = true; for (V w : k) { double d = og::len(v - w); if (d > 4e-6 && d < 0.01 * size) ok = false; } if (ok) k.push_back(v); } p = k;
    if (expect == 0) return p;
    if (p.size() < 4) { expect = -2; return p; }
    double width = 1e300; size_t st = 1 + p.size() / 30; for (size_t a = 0; a < p.size(); a += st) for (size_t b = a + 1; b < p.size(); b += st) for (size_t c = b + 1; c < p.size(); c += st) { V n = og::cross(p[b] - p[a], p[c] - p[a]); if (og::len(n) < 1e-3 * size * size) continue; n = og::unit(n); double lo = 1e300, hi = -1e300; for (V v : p) { double d = og::dot(n, v); lo = std::min(lo, d); hi = std::max(hi, d); } width = std::min(width, hi - lo); }
    expect = width > 1e299 || width < 0.05 * size ? -2 : 1;
    return p;
}
static void hullCase(vh::Ctx& C) {
    vh::Rng& g = C.rng; PC pc;
    for (int rep = 0; rep < 6; rep++) {
        std::string fam; int expect; double size; std::vector<V> p = cloud(g, fam, expect, size), f; if (expect == -2) { C.count("clouds left out: almost flat"); continue; } bool dbl = g.chance(0.3); int pad = g.below(3); double scale = size; for (V v : p) scale = std::max(scale, og::maxabs(v));
        C.log("rep %d %s dbl %d %s", rep, fam.c_str(), dbl, pl(p).c_str());
        int st = 3 + pad; std::vector<float> vf; std::vector<double> vd; for (V v : p) { f.push_back(V(float(v.x), float(v.y), float(v.z))); for (int a = 0; a < st; a++) { double x = a < 3 ? v[a] : g.uniform(-1e6, 1e6); vf.push_back(float(x)); vd.push_back(x); } }
        std::vector<float> vf0 = vf; std::vector<double> vd0 = vd; vf.push_back(0); vd.push_back(0); vf0.push_back(0); vd0.push_back(0);
        rp::VertexArray va = dbl ? rp::VertexArray(vd.data(), uint32_t(st * sizeof(double)), uint32_t(p.size()), rp::VertexArray::DataType::VERTEX_DOUBLE_TYPE) : rp::VertexArray(vf.data(), uint32_t(st * sizeof(float)), uint32_t(p.size()), rp::VertexArray::DataType::VERTEX_FLOAT_TYPE);
        std::vector<rp::Message> msg; rp::ConvexMesh* m = pc.createConvexMesh(va, msg); C.eval(); C.count("hulls of " + fam);
        if (vf != vf0 || vd != vd0) C.fail("input-changed", "the user's array was changed");
        int errs = 0; for (auto& x : msg) if (x.type == rp::Message::Type::Error) errs++;
        if (!m) { C.count("refused: " + fam); if (!errs) C.fail("no-message", "refused without an error message: %s %s", fam.c_str(), pl(p).c_str()); if (expect == 1) C.fail("refused", "%s refused (%s): %s", fam.c_str(), msg.empty() ? "" : msg[0].text.c_str(), pl(p).c_str()); continue; }
        if (expect == 0) { C.fail("accepted", "%s accepted: %s", fam.c_str(), pl(p).c_str()); continue; }
        checkMesh(C, m, f, size, (2e-5) * (size + scale), fam);
        if (g.chance(0.5)) { auto* s = pc.createConvexMeshShape(m, rv(V(g.uniform(0.3, 3), g.uniform(0.3, 3), g.uniform(0.3, 3)))); if (s->getNbVertices() != m->getNbVertices()) C.fail("shape", "counts"); pc.destroyConvexMeshShape(s); } if (g.chance(0.7)) pc.destroyConvexMesh(m);
        C.sample("%s of %zu points", fam.c_str(), p.size());
    }
}
// convex meshes given by faces: valid ones are kept as given, invalid ones refused
static void polyCase(vh::Ctx& C) {
    vh::Rng& g = C.rng; PC pc;
    for (int rep = 0; rep < 6; rep++) {
        double size = g.logUniform(0.5, 8); Poly p = rndPoly(g, size); orientOut(p); V off = g.chance(0.5) ? V() : rndBox(g, 5); Q q = rndOrient(g); if (g.chance(0.3)) { p = Poly(); auto b = og::box(V(1, 1, 1) * size); p.v = b.pts; p.f = {{0, 1, 3, 2}, {4, 6, 7, 5}, {0, 4, 5, 1}, {2, 3, 7, 6}, {0, 2, 6, 4}, {1, 5, 7, 3}}; orientOut(p); }
        for (V& v : p.v) v = off + og::rot(q, v);
        // relabel vertices, reorder and rotate faces
        std::vector<int> perm; for (size_t i = 0; i < p.v.size(); i++) perm.push_back(int(i)); for (size_t i = perm.size(); i > 1; i--) std::swap(perm[i - 1], perm[g.below(uint32_t(i))]);
        Poly r; r.v.resize(p.v.size()); for (size_t i = 0; i < p.v.size(); i++) r.v[perm[i]] = p.v[i]; r.f = p.f; for (auto& f : r.f) { for (int& i : f) i = perm[i]; std::rotate(f.begin(), f.begin() + g.below(uint32_t(f.size())), f.end()); } for (size_t i = r.f.size(); i > 1; i--) std::swap(r.f[i - 1], r.f[g.below(uint32_t(i))]);
        int bad = g.chance(0.5) ? 0 : g.range(1, 9); size_t k = g.below(uint32_t(r.f.size())); const char* names[] = {"valid", "face missing", "face twice", "face of two vertices", "face of no area", "face turned around", "vertex duplicated", "vertex unused", "index out of range", "no faces", "no vertices"};
        switch (bad) { case 1: r.f.erase(r.f.begin() + k); break; case 2: r.f.push_back(r.f[k]); break; case 3: r.f[k].resize(2); break; case 4: { int a = r.f[k][0]; for (int& i : r.f[k]) r.v[i] = r.v[a]; break; } case 5: std::reverse(r.f[k].begin(), r.f[k].end()); break;
        case 6: r.v.push_back(r.v[r.f[k][0]]); r.f[k][0] = int(r.v.size()) - 1; break; case 7: r.v.push_back(r.v[0] * 1.1); break; case 8: r.f[k][1] = int(r.v.size()) + g.below(3) * 1000; break; case 9: if (g.chance(0.5)) r.f.clear(); else { r.f.clear(); r.v.clear(); bad = 10; } break; }
        bool dbl = g.chance(0.5), sh = g.chance(0.5); int st = 3 + g.below(3), ist = 1 + g.below(2); std::vector<float> vf; std::vector<double> vd; std::vector<unsigned> ii; std::vector<unsigned short> is; std::vector<rp::PolygonVertexArray::PolygonFace> fs; std::vector<V> in;
        for (V v : r.v) { in.push_back(dbl && DBL ? v : V(float(v.x), float(v.y), float(v.z))); for (int a = 0; a < st; a++) { vf.push_back(float(a < 3 ? v[a] : 1e9)); vd.push_back(a < 3 ? v[a] : 1e9); } }
        for (auto& f : r.f) { rp::PolygonVertexArray::PolygonFace pf; pf.nbVertices = uint32_t(f.size()); pf.indexBase = uint32_t(ii.size() / ist); fs.push_back(pf); for (int i : f) for (int z = 0; z < ist; z++) { ii.push_back(z ? 7777777 : i); is.push_back(z ? 55555 : (unsigned short)i); } }
        vf.push_back(0); vd.push_back(0); ii.push_back(0); is.push_back(0); fs.push_back({});
        auto av = vf; auto ad = vd; auto ai = ii; auto as = is;
        rp::PolygonVertexArray arr(uint32_t(r.v.size()), dbl ? (void*)vd.data() : (void*)vf.data(), uint32_t(st * (dbl ? 8 : 4)), sh ? (void*)is.data() : (void*)ii.data(), uint32_t(ist * (sh ? 2 : 4)), uint32_t(r.f.size()), fs.data(), dbl ? rp::PolygonVertexArray::VertexDataType::VERTEX_DOUBLE_TYPE : rp::PolygonVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, sh ? rp::PolygonVertexArray::IndexDataType::INDEX_SHORT_TYPE : rp::PolygonVertexArray::IndexDataType::INDEX_INTEGER_TYPE);
        C.log("rep %d %s %s", rep, names[bad], pl(r.v).c_str());
        std::vector<rp::Message> msg; rp::ConvexMesh* m = pc.createConvexMesh(arr, msg); C.eval(); C.count(std::string("face lists: ") + names[bad]); int errs = 0; for (auto& x : msg) if (x.type == rp::Message::Type::Error) errs++;
        if (vf != av || vd != ad || ii != ai || is != as) C.fail("input-changed", "the user's array was changed");
        if (bad) { if (m) C.fail("accepted", "face list accepted although: %s (%zu vertices, %zu faces)", names[bad], r.v.size(), r.f.size()); else if (!errs) C.fail("no-message", "refused without an error message: %s", names[bad]); continue; }
        if (!m) { C.fail("refused", "valid polyhedron refused (%s): %s", msg.empty() ? "" : msg[0].text.c_str(), pl(r.v).c_str()); continue; }
        for (size_t i = 0; i < in.size(); i++) if (!(m->getVertex(uint32_t(i)) == rv(in[i]))) C.fail("vertices", "vertex %zu is %s instead of %s", i, vs(m->getVertex(uint32_t(i))).c_str(), vs(in[i]).c_str());
        if (m->getNbFaces() != r.f.size()) C.fail("faces", "%u faces instead of %zu", m->getNbFaces(), r.f.size()); else for (size_t f = 0; f < r.f.size(); f++) { const auto& fc = m->getHalfEdgeStructure().getFace(uint32_t(f)); bool same = fc.faceVertices.size() == r.f[f].size(); for (size_t i = 0; same && i < r.f[f].size(); i++) if (int(fc.faceVertices[i]) != r.f[f][i]) same = false; if (!same) C.fail("faces", "face %zu changed", f); }
        checkMesh(C, m, in, size, 1e-5 * (size + 10), "face list");
        // the mesh is a copy
        std::fill(vf.begin(), vf.end(), 1e9f); std::fill(vd.begin(), vd.end(), 1e9); std::fill(ii.begin(), ii.end(), 0); std::fill(is.begin(), is.end(), 0); for (size_t i = 0; i < in.size(); i++) if (!(m->getVertex(uint32_t(i)) == rv(in[i]))) C.fail("copy", "the mesh changes with the user's array");
        if (g.chance(0.7)) pc.destroyConvexMesh(m);
    }
}

// ---- C22: triangle meshes and height fields hold their own faithful copy of the user's data
static void triCase(vh::Ctx& C) {
    vh::Rng& g = C.rng; PC pc;
    for (int rep = 0; rep < 4; rep++) {
        int nv = g.chance(0.7) ? g.range(3, 20) : g.range(20, 200), nt = g.range(1, 3 * nv); bool grid = g.chance(0.4), wantBad = g.chance(0.15), wantNormals = g.chance(0.4); double size = g.logUniform(0.5, 10); V off = g.chance(0.5) ? V() : rndBox(g, 10);
        std::vector<V> v, un; for (int i = 0; i < nv; i++) { v.push_back(grid ? V(g.range(-4, 4), g.range(-4, 4), g.range(-4, 4)) : off + rndBox(g, size)); un.push_back(rndUnit(g)); } double sz = grid ? 8 : size;
        bool dblV = g.chance(0.5), dblN = g.chance(0.5), sh = g.chance(0.5); bool exactD = dblV && DBL; for (V& x : v) if (!exactD) x = V(float(x.x), float(x.y), float(x.z));
        std::vector<std::array<unsigned, 3>> t; int oob = -1; bool allZero = false;
        for (int i = 0; i < nt; i++) { std::array<unsigned, 3> a = {g.below(nv), g.below(nv), g.below(nv)}; if (i && g.chance(0.1)) { a = t[g.below(i)]; if (g.chance(0.5)) std::swap(a[0], a[1]); } t.push_back(a); }
        if (g.chance(0.01)) { unsigned more = unsigned(g.range(20000, 60000)); V x = v[0]; v.insert(v.begin(), more, x); un.insert(un.begin(), more, V(0, 1, 0)); for (auto& a : t) for (auto& k : a) k += more; nv += int(more); C.count("meshes with very many vertices, most of them unused"); }
        int badKind = wantBad ? g.range(1, 5) : 0; const char* names[] = {"valid", "index out of range", "all triangles degenerate", "no triangles", "no vertices", "all vertices zero"};
        if (badKind == 1) { oob = g.below(nt); t[oob][g.below(3)] = nv + g.below(3) * 100; } if (badKind == 2) for (auto& a : t) a[2] = a[g.below(2)]; if (badKind == 3) t.clear(); if (badKind == 4) { t.clear(); v.clear(); } if (badKind == 5) { for (V& x : v) x = V(); allZero = true; }
        // expected triangles: decided unless nearly degenerate
        std::vector<std::array<V, 3>> want; std::vector<std::array<unsigned, 3>> wi; std::set<unsigned> used, normalsUsed; std::set<size_t> dropped; bool undecided = false;
        if (badKind != 1 && badKind != 4) for (size_t i = 0; i < t.size(); i++) { V a = v[t[i][0]], b = v[t[i][1]], c = v[t[i][2]]; V n = og::cross(c - a, b - a); double l = og::len(n), e = std::min(og::len(b - a), std::min(og::len(c - b), og::len(a - c))); bool deg = l == 0 || e == 0; if (!deg && (l < 1e-3 * sz * sz || e < 1e-2 * sz)) undecided = true; if (deg) dropped.insert(i); else { want.push_back({a, b, c}); wi.push_back(t[i]); for (unsigned k : t[i]) used.insert(k); } }
        if (undecided) { C.count("meshes left out: almost degenerate triangles"); continue; }
        bool bad = badKind || want.empty(); if (bad && !badKind) badKind = 2; (void)allZero;
        int st = 3 + g.below(4), stn = 3 + g.below(3), sti = 3 + g.below(3); std::vector<float> vf, nf; std::vector<double> vd, nd; std::vector<unsigned> ii; std::vector<unsigned short> is;
        for (size_t i = 0; i < v.size(); i++) { for (int a = 0; a < st; a++) { double x = a < 3 ? v[i][a] : 1e8; vf.push_back(float(x)); vd.push_back(x); } for (int a = 0; a < stn; a++) { double x = a < 3 ? un[i][a] : 1e8; nf.push_back(float(x)); nd.push_back(x); } }
        for (auto& a : t) for (int k = 0; k < sti; k++) { ii.push_back(k < 3 ? a[k] : 999999); is.push_back((unsigned short)(k < 3 ? a[k] : 65000)); }
        vf.push_back(0); vd.push_back(0); nf.push_back(0); nd.push_back(0); ii.push_back(0); is.push_back(0); auto av = vf, an = nf; auto ad = vd, and_ = nd; auto ai = ii; auto as = is;
        using TVA = rp::TriangleVertexArray; auto VT = dblV ? TVA::VertexDataType::VERTEX_DOUBLE_TYPE : TVA::VertexDataType::VERTEX_FLOAT_TYPE; auto NT = dblN ? TVA::NormalDataType::NORMAL_DOUBLE_TYPE : TVA::NormalDataType::NORMAL_FLOAT_TYPE; auto IT = sh ? TVA::IndexDataType::INDEX_SHORT_TYPE : TVA::IndexDataType::INDEX_INTEGER_TYPE;
        const void *pv = dblV ? (void*)vd.data() : (void*)vf.data(), *pn = dblN ? (void*)nd.data() : (void*)nf.data(), *pi = sh ? (void*)is.data() : (void*)ii.data(); uint32_t sv = uint32_t(st * (dblV ? 8 : 4)), sn = uint32_t(stn * (dblN ? 8 : 4)), si = uint32_t(sti * (sh ? 2 : 4));
        TVA arr = wantNormals ? TVA(uint32_t(v.size()), pv, sv, pn, sn, uint32_t(t.size()), pi, si, VT, NT, IT) : TVA(uint32_t(v.size()), pv, sv, uint32_t(t.size()), pi, si, VT, IT);
        C.log("rep %d %s vertices %zu triangles %zu dropped %zu used %zu", rep, names[badKind], v.size(), t.size(), dropped.size(), used.size());
        std::vector<rp::Message> msg; rp::TriangleMesh* m = pc.createTriangleMesh(arr, msg); C.eval(); C.count(std::string("meshes: ") + names[badKind]);
        if (vf != av || vd != ad || ii != ai || is != as || nf != an || nd != and_) C.fail("input-changed", "the user's array was changed");
        int errs = 0, warns = 0; for (auto& x : msg) { if (x.type == rp::Message::Type::Error) errs++; if (x.type == rp::Message::Type::Warning) warns++; }
        std::string who = std::to_string(v.size()) + " vertices, " + std::to_string(t.size()) + " triangles (" + std::to_string(dropped.size()) + " degenerate), " + (wantNormals ? "normals given" : "no normals");
        if (bad) { if (m) C.fail("accepted", "mesh accepted although: %s (%s)", names[badKind], who.c_str()); else if (!errs) C.fail("no-message", "refused without an error message: %s", names[badKind]); continue; }
        if (!m) { C.fail("refused", "valid mesh refused (%s): %s", msg.empty() ? "" : msg[0].text.c_str(), who.c_str()); continue; }
        if (errs) C.fail("error-message", "error message for a valid mesh: %s", msg[0].text.c_str());
        for (size_t d : dropped) { bool named = false; for (auto& x : msg) if (x.type == rp::Message::Type::Warning && x.text.find("index " + std::to_string(d) + " ") != std::string::npos) named = true; if (!named) C.fail("no-warning", "no warning for the dropped triangle %zu", d); } if (dropped.empty() && warns) C.fail("warning", "a warning without reason: %s", msg[0].text.c_str()); if (dropped.size()) C.count("meshes with dropped triangles");
        // expected normals
        std::map<unsigned, V> en; std::map<unsigned, double> ew; if (!wantNormals) for (auto& a : wi) for (int k = 0; k < 3; k++) { V p = v[a[k]], q = v[a[(k + 1) % 3]] - p, r = v[a[(k + 2) % 3]] - p; double ang = std::acos(std::max(-1.0, std::min(1.0, og::dot(og::unit(q), og::unit(r))))); en[a[k]] += og::unit(og::cross(q, r)) * ang; ew[a[k]] += ang; }
        V sc = g.chance(0.5) ? V(1, 1, 1) : V(g.uniform(0.3, 3), g.uniform(0.3, 3), g.uniform(0.3, 3)); rp::ConcaveMeshShape* s = g.chance(0.7) ? pc.createConcaveMeshShape(m, rv(sc)) : nullptr; if (s && g.chance(0.3)) { sc = V(g.uniform(0.3, 3), g.uniform(0.3, 3), g.uniform(0.3, 3)); s->setScale(rv(sc)); } sc = rdv(sc);
        for (int pass = 0; pass < 2; pass++) {
            if (m->getNbTriangles() != want.size()) { C.fail("triangles", "%u triangles instead of %zu (%s)", m->getNbTriangles(), want.size(), who.c_str()); break; } if (m->getNbVertices() != used.size()) C.fail("vertex-count", "%u vertices instead of %zu (%s)", m->getNbVertices(), used.size(), who.c_str());
            V lo(1e300, 1e300, 1e300), hi = -lo;
            for (uint32_t i = 0; i < want.size(); i++) {
                rp::Vector3 q[3], n[3]; m->getTriangleVertices(i, q[0], q[1], q[2]); m->getTriangleVerticesNormals(i, n[0], n[1], n[2]); uint32_t x[3]; m->getTriangleVerticesIndices(i, x[0], x[1], x[2]); C.eval();
                rp::Vector3 sq[3], snn[3]; if (s) { s->getTriangleVertices(i, sq[0], sq[1], sq[2]); s->getTriangleVerticesNormals(i, snn[0], snn[1], snn[2]); }
                for (int k = 0; k < 3; k++) { lo = og::vmin(lo, want[i][k]); hi = og::vmax(hi, want[i][k]); if (!(q[k] == rv(want[i][k]))) C.fail("vertex", "vertex %d of triangle %u is %s instead of %s (%s)", k, i, vs(q[k]).c_str(), vs(want[i][k]).c_str(), who.c_str()); if (x[k] >= m->getNbVertices() || !(m->getVertex(x[k]) == q[k]) || !(m->getVertexNormal(x[k]) == n[k])) C.fail("indices", "indices do not lead to the vertices");
                    if (s && !(sq[k] == rv(want[i][k]) * rv(sc))) C.fail("scaled-vertex", "vertex of the shape %s instead of %s", vs(sq[k]).c_str(), vs(og::had(want[i][k], sc)).c_str());
                    unsigned u = wi[i][k]; V wn = wantNormals ? un[u] : en[u]; double cond = wantNormals ? 1 : og::len(wn) / ew[u]; if (!(std::fabs(og::len(ov(n[k])) - 1) < 1e-4)) C.fail("normal-length", "normal of length %g (%s)", og::len(ov(n[k])), who.c_str());
                    if (cond > 0.02) { double e = og::len(ov(n[k]) - og::unit(wn)); C.maxi("largest error of a normal", e * cond); C.count("normals compared"); if (!(e < (DBL && (!wantNormals || dblN) ? 1e-7 : 2e-4) / cond + 1e-7)) C.fail("normal", "normal %s instead of %s (%s)", vs(n[k]).c_str(), vs(og::unit(wn)).c_str(), who.c_str());
                        if (s) { V ws = og::unit(V(ov(n[k]).x / sc.x, ov(n[k]).y / sc.y, ov(n[k]).z / sc.z)); if (!(og::len(ov(snn[k]) - ws) < 1e-5)) C.fail("scaled-normal", "normal of the shape %s instead of %s", vs(snn[k]).c_str(), vs(ws).c_str()); } }
                    C.seen(vh::hashBytes(&want[i][k], sizeof(V), i)); }
            }
            if (og::maxabs(ov(m->getBounds().getMin()) - lo) > 1e-6 * (1 + og::maxabs(lo)) || og::maxabs(ov(m->getBounds().getMax()) - hi) > 1e-6 * (1 + og::maxabs(hi))) C.fail("bounds", "bounds %s %s instead of %s %s", vs(m->getBounds().getMin()).c_str(), vs(m->getBounds().getMax()).c_str(), vs(lo).c_str(), vs(hi).c_str());
            std::fill(vf.begin(), vf.end(), 7.f); std::fill(vd.begin(), vd.end(), 7.0); std::fill(nf.begin(), nf.end(), 7.f); std::fill(nd.begin(), nd.end(), 7.0); std::fill(ii.begin(), ii.end(), 0u); std::fill(is.begin(), is.end(), (unsigned short)0);
        }
        C.sample("%s", who.c_str()); if (s) pc.destroyConcaveMeshShape(s); if (g.chance(0.7)) pc.destroyTriangleMesh(m);
    }
}
static void fieldCase(vh::Ctx& C) {
    vh::Rng& g = C.rng; PC pc; using HF = rp::HeightField;
    for (int rep = 0; rep < 6; rep++) {
        int nc = g.chance(0.1) ? g.range(-1, 1) : g.range(2, 20), nr = g.chance(0.1) ? g.range(-1, 1) : g.range(2, 20); if (g.chance(0.01)) (g.chance(0.5) ? nc : nr) = g.range(200, 400); int n = std::max(nc, 0) * std::max(nr, 0), ty = g.below(3); double isc = g.logUniform(1e-3, 0.1), amp = g.logUniform(0.01, 20), base = g.chance(0.5) ? 0 : g.uniform(-50, 50); bool flat = g.chance(0.08);
        std::vector<float> f; std::vector<double> d; std::vector<int> in; for (int i = 0; i < n + 1; i++) { double h = base + (flat ? 0 : g.uniform(-amp, amp)); f.push_back(float(h)); d.push_back(h); in.push_back(flat ? 5 : int(g.range(-1000, 1000))); }
        auto expect = [&](int i) { return ty == 0 ? double(decimal(f[i])) : ty == 1 ? double(decimal(d[i])) : double(decimal(in[i] * decimal(isc))); };
        std::vector<double> e; for (int i = 0; i < n; i++) e.push_back(expect(i)); std::vector<rp::Message> msg; const void* p = ty == 0 ? (void*)f.data() : ty == 1 ? (void*)d.data() : (void*)in.data(); auto T = ty == 0 ? HF::HeightDataType::HEIGHT_FLOAT_TYPE : ty == 1 ? HF::HeightDataType::HEIGHT_DOUBLE_TYPE : HF::HeightDataType::HEIGHT_INT_TYPE;
        C.log("field %d x %d type %d", nc, nr, ty); HF* h = ty == 2 ? pc.createHeightField(nc, nr, p, T, msg, decimal(isc)) : pc.createHeightField(nc, nr, p, T, msg); C.eval(); int errs = 0; for (auto& x : msg) if (x.type == rp::Message::Type::Error) errs++; bool bad = nc < 2 || nr < 2; C.count(bad ? "height fields refused" : "height fields");
        if (bad) { if (h) C.fail("accepted", "height field of %d x %d accepted", nc, nr); else if (!errs) C.fail("no-message", "height field refused without an error message"); continue; }
        if (!h) { C.fail("refused", "height field of %d x %d refused", nc, nr); continue; } if (!msg.empty()) C.fail("error-message", "message for a valid height field");
        double mn = *std::min_element(e.begin(), e.end()), mx = *std::max_element(e.begin(), e.end()), tol = 8 * EPSD * (std::fabs(mn) + std::fabs(mx) + nc + nr); V sc = g.chance(0.5) ? V(1, 1, 1) : V(g.uniform(0.3, 3), g.uniform(0.3, 3), g.uniform(0.3, 3)); rp::HeightFieldShape* s = pc.createHeightFieldShape(h, rv(sc)); if (g.chance(0.3)) { sc = V(g.uniform(0.3, 3), g.uniform(0.3, 3), g.uniform(0.3, 3)); s->setScale(rv(sc)); } sc = rdv(sc);
        for (int pass = 0; pass < 2; pass++) {
            if (int(h->getNbColumns()) != nc || int(h->getNbRows()) != nr || h->getHeightDataType() != T) C.fail("size", "%u x %u instead of %d x %d", h->getNbColumns(), h->getNbRows(), nc, nr);
            if (double(h->getMinHeight()) != mn || double(h->getMaxHeight()) != mx) C.fail("min-max", "heights from %g to %g instead of %g to %g", double(h->getMinHeight()), double(h->getMaxHeight()), mn, mx);
            for (int y = 0; y < nr; y++) for (int x = 0; x < nc; x++) { double hh = e[y * nc + x]; if (double(h->getHeightAt(x, y)) != hh) C.fail("height", "height at %d %d is %g instead of %g", x, y, double(h->getHeightAt(x, y)), hh); V w(x - (nc - 1) * 0.5, hh - (mn + mx) * 0.5, y - (nr - 1) * 0.5); if (og::maxabs(ov(h->getVertexAt(x, y)) - w) > tol) C.fail("vertex", "vertex at %d %d is %s instead of %s", x, y, vs(h->getVertexAt(x, y)).c_str(), vs(w).c_str()); if (og::maxabs(ov(s->getVertexAt(x, y)) - og::had(sc, w)) > 8 * tol) C.fail("scaled-vertex", "vertex of the shape at %d %d is %s instead of %s", x, y, vs(s->getVertexAt(x, y)).c_str(), vs(og::had(sc, w)).c_str()); C.eval(); C.seen(vh::hashBytes(&hh, 8, x * 100 + y)); }
            V hf((nc - 1) * 0.5, (mx - mn) * 0.5, (nr - 1) * 0.5); if (og::maxabs(ov(h->getBounds().getMin()) + hf) > tol || og::maxabs(ov(h->getBounds().getMax()) - hf) > tol) C.fail("bounds", "wrong bounds"); rp::AABB lb = s->getLocalBounds(); if (og::maxabs(ov(lb.getMin()) + og::had(hf, sc)) > 8 * tol || og::maxabs(ov(lb.getMax()) - og::had(hf, sc)) > 8 * tol) C.fail("bounds", "wrong bounds of the shape");
            std::fill(f.begin(), f.end(), -1e9f); std::fill(d.begin(), d.end(), -1e9); std::fill(in.begin(), in.end(), -100000);
        }
        pc.destroyHeightFieldShape(s); if (g.chance(0.7)) pc.destroyHeightField(h);
    }
}
int main(int c, char** v) { return vh::runMain(c, v, [](vh::Ctx& C) { if (C.mode == "data") { if (C.rng.chance(0.75)) triCase(C); else fieldCase(C); } else if (C.rng.chance(0.7)) hullCase(C); else polyCase(C); }); }
