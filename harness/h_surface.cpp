// C23: meshes and height fields behave as the union of their triangles (large surfaces, every scale and pose)
#include "rp.h"
static const double TOL = DBL ? 1e-3 : 4e-3;
struct Surf { Sh s; std::string desc; bool sheetLike = false; double cell = 1; };
static double smooth(const std::vector<V>& k, double x, double z) { double h = 0; for (V a : k) h += a.z * std::sin(a.x * x + a.y * z + a.x * 7); return h; }
static Surf mkSurf(PC& pc, vh::Rng& g, int fam, double steep, bool limits) {
    Surf S; std::vector<V> wave; for (int i = g.range(0, 3); i > 0; i--) wave.push_back(V(g.uniform(-1, 1), g.uniform(-1, 1), g.uniform(0, steep)));
    V sc = g.chance(0.4) ? V(1, 1, 1) : limits ? V(1, 1, 1) * g.uniform(0.5, 2) : V(g.uniform(0.4, 2.5), g.uniform(0.4, 2.5), g.uniform(0.4, 2.5)); double noise = g.chance(0.5) ? 0 : g.uniform(0, steep * 0.5);
    if (fam == 0) { int c = g.range(2, 40), r = g.range(2, 40); if (limits) c = g.range(10, 24), r = g.range(10, 24); bool steps = g.chance(0.2); double off = g.chance(0.5) ? 0 : g.uniform(-20, 20); std::vector<float> h; for (int j = 0; j < r; j++) for (int i = 0; i < c; i++) { double y = smooth(wave, i, j) + g.uniform(-noise, noise); if (steps) y = std::round(y * 2) / 2; h.push_back(float(off + y)); }
        double mn = *std::min_element(h.begin(), h.end()), mx = *std::max_element(h.begin(), h.end()); if (mx - mn < 0.05) h[g.below(uint32_t(h.size()))] += 0.3f; S.cell = std::min(sc.x, sc.z); S.s = mkField(pc, h, c, r, sc); S.desc = "height field " + std::to_string(c) + "x" + std::to_string(r); S.sheetLike = true; return S; }
    std::vector<V> v; std::vector<int> id;
    if (fam == 1) { int nx = g.range(1, 24), nz = g.range(1, 24); if (limits) nx = g.range(8, 20), nz = g.range(8, 20); double cell = limits ? g.uniform(0.8, 1.5) : g.uniform(0.3, 1.5); S.cell = cell * std::min(sc.x, sc.z) * 0.8; sheet(g, nx, nz, cell, 0, v, id); for (V& p : v) p.y = smooth(wave, p.x, p.z) + g.uniform(-noise, noise); S.sheetLike = true; S.desc = "sheet " + std::to_string(nx) + "x" + std::to_string(nz); }
    else if (fam == 2) { int n = g.range(20, 300); for (int i = 0; i < n; i++) { V c = rndBox(g, 5); for (;;) { V a = rndBox(g, 1), b = rndBox(g, 1), d = rndBox(g, 1); if (og::len(og::cross(b - a, d - a)) < 0.3) continue; int k = int(v.size()); v.push_back(c + a); v.push_back(c + b); v.push_back(c + d); int t[] = {k, k + 1, k + 2}; id.insert(id.end(), t, t + 3); break; } } S.desc = "soup of " + std::to_string(n); }
    else { Poly p = rndPoly(g, g.uniform(1.5, 4)); orientOut(p); polyToTris(p, v, id); for (int lv = g.range(1, 3); lv > 0; lv--) { std::vector<int> o; std::map<std::pair<int, int>, int> mid; auto M = [&](int a, int b) { auto k = std::make_pair(std::min(a, b), std::max(a, b)); auto it = mid.find(k); if (it != mid.end()) return it->second; v.push_back((v[a] + v[b]) * 0.5); return mid[k] = int(v.size()) - 1; }; for (size_t i = 0; i < id.size(); i += 3) { int a = id[i], b = id[i + 1], c = id[i + 2], x = M(a, b), y = M(b, c), z = M(c, a); int t[] = {a, x, z, x, b, y, z, y, c, x, y, z}; o.insert(o.end(), t, t + 12); } id = o; } S.desc = "closed surface of " + std::to_string(id.size() / 3); }
    if (g.chance(0.6)) for (size_t i = id.size() / 3; i > 1; i--) { size_t j = g.below(uint32_t(i)); for (int k = 0; k < 3; k++) std::swap(id[(i - 1) * 3 + k], id[j * 3 + k]); }
    S.s = mkMesh(pc, v, id, sc); return S;
}
static og::Gap nearGap(const Sh& s, const Pose& T, const Sh& p, const Pose& TP, double reach, long& seen) {
    V c = T.inv(TP.p); og::Gap best{reach, reach, V(0, 1, 0)}; for (auto& t : s.o.tris) { V lo = og::vmin(t[0], og::vmin(t[1], t[2])), hi = og::vmax(t[0], og::vmax(t[1], t[2])); bool far_ = false; for (int a = 0; a < 3; a++) if (lo[a] > c[a] + p.R + reach || hi[a] < c[a] - p.R - reach) far_ = true; if (far_) continue; og::Gap g = og::gap(og::tri(t[0], t[1], t[2]), T, p.o, TP); seen++; best.lo = std::min(best.lo, g.lo); best.hi = std::min(best.hi, g.hi); }
    return best;
}
struct OC : rp::OverlapCallback { int n = 0; void onOverlap(CallbackData& d) override { n += int(d.getNbOverlappingPairs()); } };
struct CC : rp::CollisionCallback { int points = 0; double deepest = -1; std::vector<V> onSurf, nrm; rp::Collider* s = nullptr; void onContact(const CallbackData& d) override { for (uint32_t i = 0; i < d.getNbContactPairs(); i++) { auto p = d.getContactPair(i); for (uint32_t k = 0; k < p.getNbContactPoints(); k++) { points++; deepest = std::max(deepest, double(p.getContactPoint(k).getPenetrationDepth())); bool one = p.getCollider1() == s; nrm.push_back(ov(p.getContactPoint(k).getWorldNormal())); onSurf.push_back(ov(one ? p.getContactPoint(k).getLocalPointOnCollider1() : p.getContactPoint(k).getLocalPointOnCollider2())); } } } };
static long gProbes = 0, gOff = 0, gFell = 0, gPolys = 0, gDeep = 0, gShallow = 0, gDeepFew = 0, gShallowFew = 0, gNrm = 0, gBadNrm = 0, gSmooth = 0, gRough = 0;     // the clipping of polyhedra is floating point: a misplaced point is judged by the share of probes it spoils
static void probes(vh::Ctx& C) {
    vh::Rng& g = C.rng; PC pc; auto* w = pc.createPhysicsWorld(); int fam = g.below(4); Surf S = mkSurf(pc, g, fam, g.uniform(0.1, 1.5), false); if (!S.s.s) { C.fail("refused", "%s", S.desc.c_str()); pc.destroyPhysicsWorld(w); return; }
    V P = g.chance(0.5) ? V() : rndBox(g, 20); Q q = rndOrient(g); V Lp = g.chance(0.5) ? V() : rndBox(g, 3); Q Lq = rndOrient(g); auto* b = w->createRigidBody(rt(P, q)); b->setType(rp::BodyType::STATIC); auto* c = b->addCollider(S.s.s, rt(Lp, Lq));
    Pose T = op(c->getLocalToWorldTransform()); std::string where = S.desc + " scale " + vs(S.s.scale);
    { rp::AABB bx = c->getWorldAABB(); double e = (DBL ? 1e-9 : 1e-4) * (S.s.R + og::len(T.p) + 1), out = 0; for (auto& t : S.s.o.tris) for (V p : t) { V x = T * p; for (int a = 0; a < 3; a++) out = std::max(out, std::max(double(bx.getMin()[a]) - x[a], x[a] - double(bx.getMax()[a]))); } C.eval(); C.maxi("farthest corner outside of the world box", out); if (out > e) C.fail("box", "%s: a corner is %g outside of the world box of the collider", where.c_str(), out); }
    int n = C.thorough ? 24 : 10; for (int k = 0; k < n; k++) {
        bool ball = fam == 2 && g.chance(0.4); double psize = ball ? g.uniform(0.6, 2) : g.logUniform(0.3, 2); Sh p = rndShape(pc, g, psize, ball ? std::vector<SK>{SK::Sphere} : convexKinds()); if (!p.s) continue; auto* pb = w->createRigidBody(rp::Transform::identity()); auto* pcol = pb->addCollider(p.s, rp::Transform::identity()); bool after = g.chance(0.5); (void)pcol;
        auto& t = S.s.o.tris[g.below(uint32_t(S.s.o.tris.size()))]; double u = g.unit(), v = g.unit(); if (u + v > 1) u = 1 - u, v = 1 - v; V at = T * (t[0] + (t[1] - t[0]) * u + (t[2] - t[0]) * v + rndUnit(g) * (g.unit() * 2 * p.R)); Q pq = rndOrient(g);
        auto place = [&](V x) { pb->setTransform(rt(x, pq)); }; place(at); if (after && k == 0) w->update(decimal(1e-6)); Pose TP = op(pcol->getLocalToWorldTransform()); long seen = 0; double tol = TOL * std::max(1.0, p.R) * (1 + 0.01 * (og::len(TP.p) + og::len(T.p)) + 0.02 * S.s.R); og::Gap G = nearGap(S.s, T, p, TP, 4 * tol, seen); int st = G.lo > tol ? 0 : G.hi < -tol ? 1 : 2; C.count(st == 0 ? "probes apart" : st == 1 ? "probes overlapping" : "probes undecided"); C.count("triangles measured", seen);
        gProbes++; CC cc; cc.s = c; w->testCollision(pb, b, cc); bool ov1 = w->testOverlap(pb, b), ov2 = w->testOverlap(b, pb); OC oc; w->testOverlap(pb, oc); C.eval(4); C.seen(vh::hashBytes(&at, sizeof at, uint64_t(p.k)));
        std::string ctx = p.o.desc + " at " + vs(at) + " against " + where + " (gap " + std::to_string(G.lo) + ")";
        if (p.k == SK::Sphere && st == 1 && cc.points > 0) { // the deepest contact is always among those reported
            double dist = 1e300; V cen = T.inv(TP.p); int touching = 0; for (auto& tr : S.s.o.tris) { double d = og::pointTri(cen, tr[0], tr[1], tr[2]); dist = std::min(dist, d); touching += d < p.o.r; } double deep = p.o.r - dist, e = std::fabs(cc.deepest - deep); C.eval(); gDeep++; if (fam == 2 || touching <= 4) { C.count(touching > 4 ? "deepest of more than four contacts compared" : "deepest of few contacts compared"); (touching > 4 ? gDeep : gDeepFew)++; if (e > 3 * tol) { (touching > 4 ? gShallow : gShallowFew)++; C.count("deepest contact left out"); if (gShallow > 3 + gDeep * 0.02 || gShallowFew > 3 + gDeepFew * 0.005) C.fail("deepest-left-out", "%s: the sphere is %g deep in the nearest of %d triangles, the deepest contact reported is %g; %ld of %ld before", ctx.c_str(), deep, touching, cc.deepest, gShallow + gShallowFew, gDeep + gDeepFew); if (C.verbose) printf("deep %g reported %g n %d points %d fam %d r %g\n", deep, cc.deepest, touching, cc.points, fam, p.o.r); } } }
        for (size_t i = 0; i < cc.onSurf.size(); i++) { // in the middle of a triangle the normal is that of the triangle, on an edge it may be the one interpolated between the corners
            V x = cc.onSurf[i], n = T.R.t() * cc.nrm[i]; double best = 2, bent = 2; bool edge = false; int near_ = 0; for (size_t k2 = 0; k2 < S.s.o.tris.size(); k2++) { auto& tr = S.s.o.tris[k2]; if (og::pointTri(x, tr[0], tr[1], tr[2]) > 2 * tol) continue; near_++; V N = og::cross(tr[1] - tr[0], tr[2] - tr[0]); double ar = og::len(N); if (ar < 1e-6) { edge = true; continue; } best = std::min(best, 1 - std::fabs(og::dot(n, N)) / ar);
                double bc[3]; for (int q = 0; q < 3; q++) { V e = tr[(q + 2) % 3] - tr[(q + 1) % 3]; bc[q] = og::dot(og::cross(e, x - tr[(q + 1) % 3]), N) / (ar * ar); if (bc[q] * ar / og::len(e) < 5 * tol) edge = true; }
                if (fam) { auto* cm = static_cast<rp::ConcaveMeshShape*>(S.s.s); rp::uint32 id[3]; cm->getTriangleVerticesIndices(rp::uint32(k2), id[0], id[1], id[2]); V m; for (int q = 0; q < 3; q++) m = m + ov(cm->getVertexNormal(id[q])) * bc[q]; if (og::len(m) > 1e-3) bent = std::min(bent, 1 - std::fabs(og::dot(n, og::unit(m)))); else edge = true, bent = 0; } }
            if (p.k == SK::Sphere && fam && edge && best > 0.01 && bent < 1e-4) { gSmooth++; C.count("edge contacts of spheres smoothed"); } else if (p.k == SK::Sphere && fam && edge && best < 1e-4 && bent > 0.01) { gRough++; C.count("edge contacts of spheres not smoothed"); if (gSmooth + gRough > 100 && gSmooth < (gSmooth + gRough) * 0.35) C.fail("not-smoothed", "the normal is interpolated in only %ld of %ld contacts of spheres with edges", gSmooth, gSmooth + gRough); }
            if (edge) best = std::min(best, bent);
            if (!near_ || (!fam && edge)) continue; C.eval(); gNrm++; C.count(edge ? "contact normals on edges judged" : "contact normals inside triangles judged"); C.maxi("contact normal off the triangles", best); if (best > 1e-3) { gBadNrm++; C.count("contact normals of no triangle"); if (gBadNrm > 3 + gNrm * 0.0005) C.fail("normal", "%s: contact normal %s at %s is that of no triangle there (%g), %ld of %ld before", ctx.c_str(), vs(n).c_str(), vs(x).c_str(), best, gBadNrm, gNrm); } }
        double off = 0; V offAt; for (V x : cc.onSurf) { double d = 1e300; for (auto& tr : S.s.o.tris) d = std::min(d, og::pointTri(x, tr[0], tr[1], tr[2])); C.count("contact points"); C.maxi("farthest contact point from the surface, share of the tolerance", d / tol); if (d > tol * 2) { off = d; offAt = x; } }
        if (off > 0) { int bad = 0; for (int i = 0; i < 8; i++) { place(at + rndUnit(g) * (2 * tol)); CC c2; c2.s = c; w->testCollision(pb, b, c2); for (V x : c2.onSurf) { double d = 1e300; for (auto& tr : S.s.o.tris) d = std::min(d, og::pointTri(x, tr[0], tr[1], tr[2])); if (d > tol * 2) { bad++; break; } } } if (bad >= 6) { gOff++; C.count("probes with a contact point off the surface"); if (gOff > 4 && gOff > gProbes * 0.0005) C.fail("off-surface", "%s: contact point %s is %g away from every triangle, in %d of 8 displaced copies too, and %ld of %ld probes before", ctx.c_str(), vs(offAt).c_str(), off, bad, gOff, gProbes); } else C.count("isolated contact points off the surface"); place(at); }
        if (st != 2 && ((cc.points > 0) != (st == 1) || ov1 != (st == 1) || ov2 != (st == 1) || (oc.n > 0) != (st == 1))) { // confirmed by displaced copies?
            int bad = 0, dec = 0; for (int i = 0; i < 8; i++) { V x = at + rndUnit(g) * (2 * tol); place(x); Pose T2 = op(pcol->getLocalToWorldTransform()); og::Gap G2 = nearGap(S.s, T, p, T2, 4 * tol, seen); int s2 = G2.lo > tol ? 0 : G2.hi < -tol ? 1 : 2; if (s2 == 2) continue; dec++; CC c2; w->testCollision(pb, b, c2); if (w->testOverlap(pb, b) != (s2 == 1) || (c2.points > 0) != (s2 == 1)) bad++; }
            if (bad >= 2) C.fail(st ? "missed" : "invented", "%s: collision test %d points, overlap tests %d %d %d; %d of %d displaced copies are wrong too", ctx.c_str(), cc.points, ov1, ov2, oc.n, bad, dec); else C.count("isolated contradictions"); }
        w->destroyRigidBody(pb);
    }
    // rays: the nearest triangle crossed, seen from the side asked for
    auto* cs = static_cast<rp::ConcaveShape*>(S.s.s); int side = g.below(3); cs->setRaycastTestType(side == 0 ? rp::TriangleRaycastSide::FRONT_AND_BACK : side == 1 ? rp::TriangleRaycastSide::FRONT : rp::TriangleRaycastSide::BACK); LocalBox bx = boundsOf(S.s.o, Pose()); V mid = (bx.lo + bx.hi) * 0.5, ext = (bx.hi - bx.lo) * 0.5;
    for (int k = 0; k < 3 * n; k++) {
        V la = mid + og::had(rndBox(g, 1.2), ext) + rndUnit(g) * g.uniform(0, 1), lb = mid + og::had(rndBox(g, 1.2), ext); if (g.chance(0.3)) { int ax = g.below(3); lb = la; la[ax] = bx.hi[ax] + g.uniform(0.1, 2); lb[ax] = bx.lo[ax] - g.uniform(0.1, 2); if (g.chance(0.5)) std::swap(la, lb); } V A = rdv(T * la), B = rdv(T * lb); la = T.inv(A); lb = T.inv(B); V d = lb - la; double len = og::len(d); if (len < 0.05) continue; double tol = 0.1 * TOL * std::max(1.0, S.s.R * 0.3) * (1 + 0.02 * (og::len(A) + len)); double best = 1e300; bool und = false;
        V slo = og::vmin(la, lb) - V(tol, tol, tol), shi = og::vmax(la, lb) + V(tol, tol, tol); double undT = 1e300;
        for (auto& t : S.s.o.tris) { V lo = og::vmin(t[0], og::vmin(t[1], t[2])), hi = og::vmax(t[0], og::vmax(t[1], t[2])); bool far_ = false; for (int a = 0; a < 3; a++) if (lo[a] > shi[a] || hi[a] < slo[a]) far_ = true; if (far_) continue; og::Hit h = og::rayTri(t[0], t[1], t[2], la, d, 1, side); if (h.margin < tol) { V N = og::unit(og::cross(t[1] - t[0], t[2] - t[0])); double den = std::fabs(og::dot(N, d)) / len; if (den < 1e-3 || std::fabs(h.t) < 1e-9) { und = true; undT = -1; continue; } V x = la + d * h.t; if (og::pointTri(x, t[0], t[1], t[2]) < 3 * tol / den) { und = true; undT = std::min(undT, h.t - tol / den / len); } continue; } if (h.hit) best = std::min(best, h.t); }
        rp::RaycastInfo info; bool got = b->raycast(rp::Ray(rv(A), rv(B)), info); C.eval(); if (und && undT < best) { C.count("rays undecided"); continue; } bool want = best < 1e299; C.count(want ? "rays hitting" : "rays missing"); if (got != want) { C.fail(want ? "ray-missed" : "ray-invented", "ray %s to %s against %s side %d: %s, the nearest triangle is at %g", vs(A).c_str(), vs(B).c_str(), where.c_str(), side, got ? "hit" : "no hit", best); continue; } if (got) { double e = std::fabs(double(info.hitFraction) - best) * len; C.maxi("largest error of a hit, share of the tolerance", e / tol); if (!(e < 20 * tol)) C.fail("ray-fraction", "ray %s to %s against %s: hit at %g, the nearest triangle is at %g", vs(A).c_str(), vs(B).c_str(), where.c_str(), double(info.hitFraction), best); }
    }
    C.count("surfaces: " + std::string(fam == 0 ? "height fields" : fam == 1 ? "sheets" : fam == 2 ? "soups" : "closed")); C.sample("%s", where.c_str()); pc.destroyPhysicsWorld(w);
}
// bodies dropped on a surface stay above it
static void drop(vh::Ctx& C) {
    vh::Rng& g = C.rng; PC pc; rp::PhysicsWorld::WorldSettings ws; Q q = rndOrient(g); V P = rndBox(g, 5); rp::Transform tr = rt(P, q); Pose T0 = op(tr); V up = T0.R * V(0, 1, 0); ws.gravity = rv(up * -g.uniform(3, 10)); ws.isSleepingEnabled = g.chance(0.5); auto* w = pc.createPhysicsWorld(ws);
    Surf S = mkSurf(pc, g, g.below(2), 0.25, true); if (!S.s.s) { pc.destroyPhysicsWorld(w); return; } auto* b = w->createRigidBody(tr); b->setType(rp::BodyType::STATIC); b->addCollider(S.s.s, rp::Transform::identity()); LocalBox bx = boundsOf(S.s.o, Pose());
    struct D { rp::RigidBody* b; Sh s; bool on; }; std::vector<D> ds; V mid = (bx.lo + bx.hi) * 0.5, ext = (bx.hi - bx.lo) * 0.5; int n = g.range(2, 6); double dt = g.uniform(0.006, 1 / 60.0);
    for (int i = 0; i < n; i++) { Sh s; for (int k = 0; k < 20; k++) { s = rndShape(pc, g, g.uniform(0.5, 1), S.cell < 1 ? std::vector<SK>{SK::Sphere, SK::Capsule} : convexKinds(), false); if (s.s && s.inR > 0.25) break; } if (!s.s || s.inR <= 0.25) continue; V l = mid + og::had(V(g.uniform(-0.6, 0.6), 0, g.uniform(-0.6, 0.6)), ext); l.y = bx.hi.y + s.R + g.uniform(0, 1.2); auto* d = w->createRigidBody(rt(T0 * l, rndOrient(g))); auto* dc = d->addCollider(s.s, rp::Transform::identity()); dc->getMaterial().setBounciness(decimal(g.uniform(0, 0.4))); dc->getMaterial().setFrictionCoefficient(decimal(g.uniform(0.2, 1))); d->updateMassPropertiesFromColliders(); d->setLinearVelocity(rv(T0.R * V(g.uniform(-1, 1), 0, g.uniform(-1, 1)))); if (s.k != SK::Sphere && s.k != SK::Capsule) gPolys++; ds.push_back({d, s, true}); }
    int steps = int((C.thorough ? 10 : 4) / dt);
    for (int k = 0; k < steps; k++) { w->update(decimal(dt)); for (auto& d : ds) { if (!d.on) continue; V l = T0.inv(ov(d.b->getTransform().getPosition())); if (!og::finite(l)) { C.fail("not-finite", "%s on %s", d.s.o.desc.c_str(), S.desc.c_str()); d.on = false; continue; } C.eval(); C.seen(vh::hashBytes(&l, sizeof l)); if (std::fabs(l.x - mid.x) > ext.x * 0.9 - d.s.R || std::fabs(l.z - mid.z) > ext.z * 0.9 - d.s.R) { d.on = false; C.count("bodies that left the surface"); continue; }
            double h = -1e300; for (auto& t : S.s.o.tris) { double x0 = t[1].x - t[0].x, z0 = t[1].z - t[0].z, x1 = t[2].x - t[0].x, z1 = t[2].z - t[0].z, det = x0 * z1 - x1 * z0; if (det == 0) continue; double u = ((l.x - t[0].x) * z1 - (l.z - t[0].z) * x1) / det, v = ((l.z - t[0].z) * x0 - (l.x - t[0].x) * z0) / det; if (u >= -1e-9 && v >= -1e-9 && u + v <= 1 + 1e-9) h = std::max(h, t[0].y + u * (t[1].y - t[0].y) + v * (t[2].y - t[0].y)); }
            if (h < -1e299) continue; C.maxi("deepest centre below the surface", h - l.y); if (l.y < h - 0.02 && d.s.k != SK::Sphere && d.s.k != SK::Capsule) { gFell++; C.count("polyhedra pulled through"); d.on = false; if (gFell > 4 && gFell > gPolys * 0.05) C.fail("polyhedra-fall", "%ld of %ld polyhedra dropped fell through, the last: %s on %s", gFell, gPolys, d.s.o.desc.c_str(), S.desc.c_str()); } else if (l.y < h - 0.02) { C.fail("falls-through", "%s: the centre of %s is %g below the surface %s (scale %s) after %g s", d.s.o.desc.c_str(), vs(l).c_str(), h - l.y, S.desc.c_str(), vs(S.s.scale).c_str(), k * dt); d.on = false; } } }
    for (auto& d : ds) if (d.on) C.count(std::string("bodies that stayed on the surface: ") + skname(d.s.k)); pc.destroyPhysicsWorld(w);
}
static void oneCase(vh::Ctx& C) { if (C.rng.chance(0.1)) drop(C); else probes(C); }
int main(int c, char** v) { return vh::runMain(c, v, oneCase); }
