// C29: the primitives of the debug renderer against what is in the world. Mode "": colliders far apart, judged one by one; "pile": crowded random worlds with contacts, with a twin that renders nothing.
#include "world.h"
#include <set>
typedef rp::DebugRenderer DR;
struct Seg { V a, b; rp::uint32 c; }; struct Tri { V p[3]; rp::uint32 c; };
static const DR::DebugItem IT[6] = {DR::DebugItem::COLLIDER_AABB, DR::DebugItem::COLLIDER_BROADPHASE_AABB, DR::DebugItem::COLLISION_SHAPE, DR::DebugItem::CONTACT_POINT, DR::DebugItem::CONTACT_NORMAL, DR::DebugItem::COLLISION_SHAPE_NORMAL};
static const char* NAME[6] = {"collider box", "broad-phase box", "shape", "contact point", "contact normal", "shape normal"};
static std::vector<Seg> segs(vh::Ctx& C, DR& d) { std::vector<Seg> v; if (d.getNbLines() != d.getLines().size()) C.fail("count", "number of lines"); for (rp::uint32 i = 0; i < d.getNbLines(); i++) { auto& l = d.getLinesArray()[i]; v.push_back({ov(l.point1), ov(l.point2), l.color1}); C.eval(); if (l.color1 != l.color2) C.fail("colour", "the ends of a line have different colours"); if (!og::finite(v.back().a) || !og::finite(v.back().b)) C.fail("finite", "a line is not finite"); } return v; }
static std::vector<Tri> tris(vh::Ctx& C, DR& d) { std::vector<Tri> v; if (d.getNbTriangles() != d.getTriangles().size()) C.fail("count", "number of triangles"); for (rp::uint32 i = 0; i < d.getNbTriangles(); i++) { auto& l = d.getTrianglesArray()[i]; v.push_back({{ov(l.point1), ov(l.point2), ov(l.point3)}, l.color1}); C.eval(); if (l.color1 != l.color2 || l.color1 != l.color3) C.fail("colour", "the corners of a triangle have different colours"); for (V p : v.back().p) if (!og::finite(p)) C.fail("finite", "a triangle is not finite"); } return v; }
static rp::uint32 gColor[6]; static bool gLearned = false;
static void learn(vh::Ctx& C) { // the colour of an item is the one it has when it is the only one
    if (gLearned) return; gLearned = true; for (int k = 0; k < 6; k++) { PC pc; auto* w = pc.createPhysicsWorld(); w->setGravity(rp::Vector3(0, 0, 0)); auto* a = w->createRigidBody(rt(V(0, 0, 0), Q())); a->addCollider(pc.createBoxShape(rv(V(1, 1, 1))), rp::Transform::identity()); auto* b = w->createRigidBody(rt(V(1.5, 0, 0), Q())); b->addCollider(pc.createBoxShape(rv(V(1, 1, 1))), rp::Transform::identity()); a->setIsDebugEnabled(true); b->setIsDebugEnabled(true); w->setIsDebugRenderingEnabled(true); w->getDebugRenderer().setIsDebugItemDisplayed(IT[k], true); w->update(decimal(1 / 60.0));
        auto& d = w->getDebugRenderer(); std::set<rp::uint32> cs; for (auto& s : segs(C, d)) cs.insert(s.c); for (auto& t : tris(C, d)) cs.insert(t.c); if (cs.size() != 1) C.fail("one-colour", "the item '%s' alone is drawn in %zu colours", NAME[k], cs.size()); gColor[k] = cs.empty() ? 0xffffffff : *cs.begin(); for (int j = 0; j < k; j++) if (gColor[j] == gColor[k]) C.fail("same-colour", "two items have the same colour"); if ((d.getNbLines() > 0) == (k == 2 || k == 3) || (d.getNbTriangles() > 0) != (k == 2 || k == 3)) C.fail("kind", "the item '%s' is drawn with %u lines and %u triangles", NAME[k], d.getNbLines(), d.getNbTriangles()); } }
static std::string matchSegs(std::vector<Seg>& got, std::vector<std::pair<V, V>> want, rp::uint32 color, double tol, bool directed) { // removes from `got` what matches
    for (auto& w : want) { double best = 1e300; size_t bi = 0; for (size_t i = 0; i < got.size(); i++) if (got[i].c == color) { double d = og::len(got[i].a - w.first) + og::len(got[i].b - w.second); if (!directed) d = std::min(d, og::len(got[i].a - w.second) + og::len(got[i].b - w.first)); if (d < best) { best = d; bi = i; } } if (best > tol * (1 + og::len(w.first))) { char b[200]; snprintf(b, sizeof b, "the segment %s to %s is missing, the nearest is %g off", vs(w.first).c_str(), vs(w.second).c_str(), best); return b; } got.erase(got.begin() + long(bi)); } return ""; }
static std::vector<std::pair<V, V>> boxEdges(const rp::AABB& a) { V lo = ov(a.getMin()), hi = ov(a.getMax()); std::vector<std::pair<V, V>> v; for (int k = 0; k < 3; k++) for (int i = 0; i < 4; i++) { int u = (k + 1) % 3, w = (k + 2) % 3; V p, q; p[k] = lo[k]; q[k] = hi[k]; p[u] = q[u] = i & 1 ? hi[u] : lo[u]; p[w] = q[w] = i & 2 ? hi[w] : lo[w]; v.push_back({p, q}); } return v; }
static std::string closed(const std::vector<Tri>& t, double weld) { // every edge belongs to exactly two triangles
    std::vector<V> pts; auto id = [&](V p) { for (size_t i = 0; i < pts.size(); i++) if (og::len(pts[i] - p) < weld) return int(i); pts.push_back(p); return int(pts.size()) - 1; }; std::map<std::pair<int, int>, int> e; int flat = 0; for (auto& x : t) { int v[3] = {id(x.p[0]), id(x.p[1]), id(x.p[2])}; if (v[0] == v[1] || v[1] == v[2] || v[0] == v[2]) { flat++; continue; } for (int k = 0; k < 3; k++) e[{std::min(v[k], v[(k + 1) % 3]), std::max(v[k], v[(k + 1) % 3])}]++; } char b[100]; if (flat) { snprintf(b, sizeof b, "%d triangles have no area", flat); return b; } for (auto& kv : e) if (kv.second != 2) { snprintf(b, sizeof b, "an edge from %s belongs to %d triangles", vs(pts[kv.first.first]).c_str(), kv.second); return b; } return ""; }
static double volume(const std::vector<Tri>& t, V c) { double v = 0; for (auto& x : t) v += std::fabs(og::dot(x.p[0] - c, og::cross(x.p[1] - c, x.p[2] - c))) / 6; return v; }
struct DSim : Sim { using Sim::Sim; std::vector<std::pair<V, V>> pts; bool lit = true;
    void onContact(const rp::CollisionCallback::CallbackData& d) override { Sim::onContact(d); for (rp::uint32 i = 0; i < d.getNbContactPairs(); i++) { auto p = d.getContactPair(i); if (p.getEventType() == rp::CollisionCallback::ContactPair::EventType::ContactExit) continue; for (rp::uint32 k = 0; k < p.getNbContactPoints(); k++) { auto c = p.getContactPoint(k); V x = op(p.getCollider1()->getLocalToWorldTransform()) * ov(c.getLocalPointOnCollider1()); pts.push_back({x, ov(c.getWorldNormal())}); } } } };
static void shape(vh::Ctx& C, const Sh& h, const rp::Transform& T0, std::vector<Tri>& t) {
    Pose T = op(T0); double tol = (DBL ? 1e-9 : 2e-5) * (1 + og::len(T.p) + h.R); C.count(std::string("shapes judged: ") + skname(h.k)); C.eval(4); auto bad = [&](const char* k, const std::string& m) { C.fail(std::string("shape-") + k, "%s at %s: %s", h.o.desc.c_str(), vs(T.p).c_str(), m.c_str()); }; char b[200];
    if (h.concave()) { auto want = h.o.tris; if (t.size() != want.size()) { snprintf(b, sizeof b, "%zu triangles are drawn, it has %zu", t.size(), want.size()); bad("mesh-count", b); return; } for (auto& w : want) { V q[3] = {T * w[0], T * w[1], T * w[2]}; double best = 1e300; size_t bi = 0; for (size_t i = 0; i < t.size(); i++) { double d = 0; for (V p : t[i].p) d = std::max(d, std::min(og::len(p - q[0]), std::min(og::len(p - q[1]), og::len(p - q[2])))); for (V z : q) d = std::max(d, std::min(og::len(z - t[i].p[0]), std::min(og::len(z - t[i].p[1]), og::len(z - t[i].p[2])))); if (d < best) { best = d; bi = i; } } C.maxi("mesh triangle off, share of the tolerance", best / tol); if (best > tol) { snprintf(b, sizeof b, "triangle at %s is drawn %g off", vs(q[0]).c_str(), best); bad("mesh", b); return; } t.erase(t.begin() + long(bi)); } return; }
    double off = 0; for (auto& x : t) for (V p : x.p) { V l = T.inv(p); double d; if (h.k == SK::Sphere) d = std::fabs(og::len(l) - h.o.r); else if (h.k == SK::Capsule) { V c(0, std::max(-h.o.halfH, std::min(h.o.halfH, l.y)), 0); d = std::fabs(og::len(l - c) - h.o.r); } else { d = 1e300; for (V q : h.o.pts) d = std::min(d, og::len(q - l)); } off = std::max(off, d); } C.maxi("drawn corner off the surface, share of the tolerance", off / tol); if (off > tol) { snprintf(b, sizeof b, "a corner is drawn %g off the surface", off); bad("off", b); }
    std::string m = closed(t, 1e-4 * h.inR); if (!m.empty()) bad("open", m); C.eval();
    if (h.k == SK::Sphere || h.k == SK::Capsule) { double v = volume(t, T.p), ex = 4 / 3.0 * M_PI * pow(h.o.r, 3) + (h.k == SK::Capsule ? M_PI * h.o.r * h.o.r * 2 * h.o.halfH : 0); C.maxi("volume of a drawn round shape, share of the exact one", v / ex); C.maxi("volume missing in a drawn round shape, share of the exact one", 1 - v / ex); if (v > ex * 1.001 || v < 0.85 * ex) { snprintf(b, sizeof b, "the volume drawn is %g of %g", v, ex); bad("volume", b); } }
    else { for (V q : h.o.pts) { double d = 1e300; for (auto& x : t) for (V p : x.p) d = std::min(d, og::len(p - T * q)); if (d > tol) { snprintf(b, sizeof b, "vertex %s is not drawn", vs(q).c_str()); bad("vertex", b); } } for (auto& x : t) { V c = T.inv((x.p[0] + x.p[1] + x.p[2]) * (1 / 3.0)); double d = -1e300; for (auto& f : h.o.faces) d = std::max(d, og::dot(f.n, c) - f.d); C.maxi("drawn triangle below the hull's faces", -d / h.R); if (d < -(5e-3) * h.R) { snprintf(b, sizeof b, "a triangle is drawn %g inside", -d); bad("inside", b); } } }
}
static void normals(vh::Ctx& C, const Sh& h, const rp::Transform& T0, std::vector<Seg>& s) { // lines of the shape normals: unit length, from the surface, outwards (convex)
    Pose T = op(T0); double tol = (DBL ? 1e-7 : 1e-4) * (1 + og::len(T.p) + h.R); if (h.k == SK::Sphere || h.k == SK::Capsule) { if (!s.empty()) C.fail("normals-round", "normals are drawn for a round shape"); return; } C.eval(); if (s.empty()) { C.fail("normals-none", "%s: no normals are drawn", h.o.desc.c_str()); return; } C.count("shape normals judged", double(s.size()));
    for (auto& x : s) { V a = T.inv(x.a), n = T.R.t() * (x.b - x.a); if (std::fabs(og::len(n) - 1) > tol) C.fail("normal-length", "%s: a shape normal is %g long", h.o.desc.c_str(), og::len(n)); if (h.concave()) { double d = 1e300; V tn; for (auto& t : h.o.tris) { double q = og::pointTri(a, t[0], t[1], t[2]); d = std::min(d, q); } if (d > tol) C.fail("normal-start", "%s: a shape normal starts %g off the surface", h.o.desc.c_str(), d); 
            if (h.k == SK::Mesh) { auto* cm = static_cast<rp::ConcaveMeshShape*>(h.s); double e = 1e300; for (rp::uint32 v = 0; v < cm->getNbVertices(); v++) if (og::len(ov(cm->getVertex(v)) - a) < 2 * tol) e = std::min(e, og::len(ov(cm->getVertexNormal(v)) - n)); C.count("vertex normals judged"); if (e > 0.01) C.fail("normal-vertex", "%s: a shape normal %s at %s is not that of the vertex (%g)", h.o.desc.c_str(), vs(n).c_str(), vs(a).c_str(), e); }
            else { double e = 1e300, reach = 0; for (auto& t : h.o.tris) reach = std::max(reach, std::max(og::len(t[0] - t[1]), std::max(og::len(t[1] - t[2]), og::len(t[2] - t[0])))); for (auto& t : h.o.tris) if (og::pointTri(a, t[0], t[1], t[2]) < reach) { V m = og::unit(og::cross(t[1] - t[0], t[2] - t[0])); if (m.y < 0) m = V() - m; e = std::min(e, og::len(m - n)); } C.count("normals of height fields judged"); if (e > 0.01) C.fail("normal-cell", "%s: a shape normal %s at %s stands on no triangle nearby (%g)", h.o.desc.c_str(), vs(n).c_str(), vs(a).c_str(), e); } }
        else { double best = 1e300; for (auto& f : h.o.faces) best = std::min(best, std::fabs(og::dot(f.n, a) - f.d) / h.R + og::len(f.n - n)); C.maxi("shape normal off a face", best); if (best > 0.03) C.fail("normal-face", "%s: a shape normal %s at %s belongs to no face (%g)", h.o.desc.c_str(), vs(n).c_str(), vs(a).c_str(), best); } }
    if (!h.concave()) for (auto& f : h.o.faces) { bool found = false; for (auto& x : s) { V a = T.inv(x.a), n = T.R.t() * (x.b - x.a); found |= std::fabs(og::dot(f.n, a) - f.d) / h.R + og::len(f.n - n) < 0.1; } if (!found) C.fail("normal-missing", "%s: a face has no normal", h.o.desc.c_str()); }
}
static void apartCase(vh::Ctx& C) {
    vh::Rng& g = C.rng; PC pc; auto* w = pc.createPhysicsWorld(); w->setGravity(rp::Vector3(0, 0, 0)); auto& d = w->getDebugRenderer(); struct K { Sh h; rp::Collider* c; int b; }; std::vector<rp::RigidBody*> bs; std::vector<K> ks; int n = g.range(1, 5);
    for (int i = 0; i < n; i++) { bool mov = g.chance(0.6); auto* b = w->createRigidBody(rt(V(i * 60.0, 0, 0) + rndBox(g, 3), rndOrient(g))); if (!mov) b->setType(rp::BodyType::STATIC); bs.push_back(b); int m = g.range(0, 3); for (int k = 0; k < m; k++) { Sh h = rndShape(pc, g, g.uniform(0.5, 1.5), mov ? convexKinds() : allKinds()); if (!h.s || h.R > 7) continue; auto* c = b->addCollider(h.s, rt(V(k * 16.0 - 16, 0, 0) + rndBox(g, 0.5), rndOrient(g))); ks.push_back({h, c, i}); } if (mov) { b->setLinearVelocity(rv(rndBox(g, 5))); b->setAngularVelocity(rv(rndBox(g, 2))); } }
    for (int step = 0; step < 4; step++) {
        bool on = g.chance(0.85); int mask = 0; w->setIsDebugRenderingEnabled(on); for (int k = 0; k < 6; k++) { bool s = g.chance(0.5); d.setIsDebugItemDisplayed(IT[k], s); mask |= s << k; } for (auto* b : bs) { b->setIsDebugEnabled(g.chance(0.8)); b->setIsActive(g.chance(0.85)); if (g.chance(0.2)) b->setTransform(rt(ov(b->getTransform().getPosition()) + rndBox(g, 1), rndOrient(g))); }
        for (auto& k : ks) { if (k.h.k == SK::Sphere && g.chance(0.3)) { double r = g.uniform(0.3, 2); static_cast<rp::SphereShape*>(k.h.s)->setRadius(decimal(r)); k.h.o = og::sphere(rd(r)); k.h.R = r; } if (k.h.k == SK::Box && g.chance(0.3)) { V e(g.uniform(0.3, 2), g.uniform(0.3, 2), g.uniform(0.3, 2)); static_cast<rp::BoxShape*>(k.h.s)->setHalfExtents(rv(e)); k.h.o = og::box(rdv(e)); k.h.R = boundR(k.h.o); } }
        auto l0 = d.getNbLines(), t0 = d.getNbTriangles(); w->update(decimal(1 / 60.0)); if (!on) { C.eval(); C.count("steps with rendering off"); if (d.getNbLines() > l0 || d.getNbTriangles() > t0) C.fail("off", "primitives are produced while rendering is disabled"); continue; }
        auto ls = segs(C, d); auto ts = tris(C, d); C.count("steps judged"); C.count("lines", double(ls.size())); C.count("triangles", double(ts.size()));
        for (auto& k : ks) { bool shown = bs[k.b]->isActive() && bs[k.b]->isDebugEnabled(); V at = ov(k.c->getLocalToWorldTransform().getPosition()); std::vector<Tri> mine; std::vector<Seg> nrm; for (size_t i = 0; i < ts.size();) { V c = (ts[i].p[0] + ts[i].p[1] + ts[i].p[2]) * (1 / 3.0); if (ts[i].c == gColor[2] && og::len(c - at) < 7.5) { mine.push_back(ts[i]); ts.erase(ts.begin() + long(i)); } else i++; } for (size_t i = 0; i < ls.size();) { if (ls[i].c == gColor[5] && og::len(ls[i].a - at) < 7.5) { nrm.push_back(ls[i]); ls.erase(ls.begin() + long(i)); } else i++; }
            bool sh = shown && (mask & 4), nr = shown && (mask & 32); C.eval(2); if (!sh && !mine.empty()) C.fail("shown", "%zu triangles of a shape are drawn that is not to be shown", mine.size()); if (sh) shape(C, k.h, k.c->getLocalToWorldTransform(), mine); if (!nr && !nrm.empty()) C.fail("shown-normals", "normals of a shape are drawn that are not to be shown"); if (nr) normals(C, k.h, k.c->getLocalToWorldTransform(), nrm);
            double tol = DBL ? 1e-11 : 1e-5; if (shown && (mask & 1)) { auto m = matchSegs(ls, boxEdges(k.c->getWorldAABB()), gColor[0], tol, false); C.eval(12); if (!m.empty()) C.fail("box", "%s", m.c_str()); } if (shown && (mask & 2)) { auto m = matchSegs(ls, boxEdges(w->getWorldAABB(k.c)), gColor[1], tol, false); C.eval(12); if (!m.empty()) C.fail("fat-box", "%s", m.c_str()); } C.seen(vh::mix(vh::hashBytes(&at, sizeof at), uint64_t(mask))); }
        if (!ls.empty()) C.fail("more-lines", "%zu lines belong to nothing enabled, the first from %s colour %x", ls.size(), vs(ls[0].a).c_str(), ls[0].c); if (!ts.empty()) C.fail("more-triangles", "%zu triangles belong to nothing enabled", ts.size());
    }
}
static void pileCase(vh::Ctx& C) {
    vh::Rng& g = C.rng; PC pa, pb; WOpt o; o.ext = 2; o.maxBodies = 8; o.maxJoints = 3; o.debug = false; o.strangeMass = o.zeroMass = o.staticJoints = false; uint64_t sd = g.next(); DSim A(pa, sd, o), B(pb, sd, o); A.start(); B.start(); int n = g.range(3, 7); A.populate(n); B.populate(n); bool listens = g.chance(0.5); if (!listens) B.w->setEventListener(nullptr); auto& d = B.w->getDebugRenderer(); double cr = 0.1, cl = 1;
    for (int step = 0; step < 15; step++) { if (g.chance(0.5)) { A.mutate(); B.mutate(); } bool on = g.chance(0.85); B.w->setIsDebugRenderingEnabled(on); int mask = 0; for (int k = 0; k < 6; k++) { bool s = k == 2 || k == 5 ? false : g.chance(0.6); d.setIsDebugItemDisplayed(IT[k], s); mask |= s << k; } if (g.chance(0.3)) { cr = rd(g.uniform(0.02, 0.5)); d.setContactPointSphereRadius(decimal(cr)); } if (g.chance(0.3)) { cl = rd(g.uniform(0.1, 3)); d.setContactNormalLength(decimal(cl)); } cr = double(d.getContactPointSphereRadius()); cl = double(d.getContactNormalLength()); for (int i : B.liveB()) if (g.chance(0.3)) B.bodies[i].b->setIsDebugEnabled(g.chance(0.7)); bool query = g.chance(0.2);
        A.pts.clear(); A.step(1 / 60.0); auto l0 = d.getNbLines(), t0 = d.getNbTriangles(); B.step(1 / 60.0); C.eval(); A.eh = B.eh = Hash(); if (A.digest() != B.digest()) { C.fail("changes", "debug rendering changes the simulation"); break; } (void)query;
        if (!on) { C.eval(); C.count("steps with rendering off"); if (d.getNbLines() > l0 || d.getNbTriangles() > t0) C.fail("off", "primitives are produced while rendering is disabled"); continue; }
        auto ls = segs(C, d); auto ts = tris(C, d); C.count("steps judged"); C.count("lines", double(ls.size())); C.count("triangles", double(ts.size())); double tol = DBL ? 1e-11 : 1e-5; C.seen(A.digest());
        for (auto& c : B.cols) if (c.alive && B.bodies[c.body].b->isActive() && B.bodies[c.body].b->isDebugEnabled()) { if (mask & 1) { auto m = matchSegs(ls, boxEdges(c.c->getWorldAABB()), gColor[0], tol, false); C.eval(12); if (!m.empty()) C.fail("box", "%s", m.c_str()); } if (mask & 2) { auto m = matchSegs(ls, boxEdges(B.w->getWorldAABB(c.c)), gColor[1], tol, false); C.eval(12); if (!m.empty()) C.fail("fat-box", "%s", m.c_str()); } }
        tol = DBL ? 1e-10 : 3e-5; if (mask & 16) { std::vector<std::pair<V, V>> want; for (auto& p : A.pts) want.push_back({p.first, p.first + p.second * cl}); auto m = matchSegs(ls, want, gColor[4], tol, true); C.eval(want.size()); C.count("contact normals judged", double(want.size())); if (!m.empty()) C.fail("contact-normal", "%s", m.c_str()); }
        if (!ls.empty()) C.fail("more-lines", "%zu lines belong to nothing enabled, the first from %s to %s colour %x", ls.size(), vs(ls[0].a).c_str(), vs(ls[0].b).c_str(), ls[0].c);
        if (mask & 8) { size_t np = A.pts.size(); C.eval(); C.count("contact points judged", double(np)); if (np == 0 ? !ts.empty() : ts.size() % np != 0 || ts.empty()) { C.fail("contact-spheres", "%zu triangles are drawn for %zu contact points", ts.size(), np); continue; } for (auto& p : A.pts) { std::vector<Tri> mine; for (auto& t : ts) { double off = 0; for (V q : t.p) off = std::max(off, std::fabs(og::len(q - p.first) - cr)); if (off < tol * (1 + og::len(p.first)) && t.c == gColor[3]) mine.push_back(t); } C.eval(); if (mine.size() < ts.size() / np) C.fail("contact-sphere", "the sphere of radius %g at contact point %s is not drawn: %zu of %zu triangles", cr, vs(p.first).c_str(), mine.size(), ts.size() / np); else if (mine.size() == ts.size() / np) { auto m = closed(mine, cr * 1e-3); double v = volume(mine, p.first) / (4 / 3.0 * M_PI * cr * cr * cr); if (!m.empty() || v < 0.85 || v > 1.01) C.fail("contact-sphere-open", "the sphere at a contact point: %s, volume %g", m.c_str(), v); } } }
        else if (!ts.empty()) C.fail("more-triangles", "%zu triangles belong to nothing enabled", ts.size());
    }
    A.stop(); B.stop();
}
int main(int c, char** v) { return vh::runMain(c, v, [](vh::Ctx& C) { learn(C); if (C.rng.chance(0.5)) apartCase(C); else pileCase(C); }); }
