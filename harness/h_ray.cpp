// C06 / C07: raycasts and point containment against exact geometry.
#include "rp.h"
struct Col { Sh s; rp::Collider* c; Pose T; int body; bool query; unsigned short cat; int side; bool active; };
static const double TOL = DBL ? 2e-5 : 3e-3;
struct Oracle { int status; /*0 miss 1 hit 2 undecided*/ double t; V n; int tri; double near_; };
// world ray a + t d, t in [0,tmax]
static Oracle judge(const Col& c, V a, V d, double tmax) {
    V la = c.T.inv(a), ld = c.T.R.t() * d; double L = og::len(ld), sc = c.s.R + og::len(la - ld * (og::dot(la, ld) / (L * L))) * 0.1; double tol = TOL * std::max(1.0, sc) * (1 + 0.02 * (og::len(la) + L));
    if (c.s.o.convex()) {
        og::Hit h = og::rayConvex(c.s.o, la, ld, tmax);
        if (h.margin < tol) return {2, 0, V(), -1, 0};
        bool hit = h.hit && !h.startInside; return {hit ? 1 : 0, h.t, h.n, -1, 0};
    }
    Oracle best{0, 1e300, V(), -1, 1e300}; bool und = false; double undT = 1e300;
    for (size_t i = 0; i < c.s.o.tris.size(); i++) { auto& t = c.s.o.tris[i];
        og::Hit h = og::rayTri(t[0], t[1], t[2], la, ld, tmax, c.side);
        // undecided when close to an edge, to the ray's ends, or (nearly) in the plane
        if (h.margin < tol) { V N = og::cross(t[1] - t[0], t[2] - t[0]); double den = std::fabs(og::dot(og::unit(N), ld)) / L;
            double dpl = std::fabs(og::dot(og::unit(N), la - t[0])); if (den < 1e-9 && dpl > tol) continue;
            // certainly not hit when the whole segment stays far from the triangle
            og::Gap g = og::gap([&] { og::Shape s; s.kind = og::Kind::Capsule; s.pts = {la, la + ld * tmax}; s.edgeDirs = {og::unit(ld)}; return s; }(), Pose(), og::tri(t[0], t[1], t[2]), Pose());
            if (g.lo > tol) continue; und = true; undT = std::min(undT, den < 1e-3 ? -1.0 : h.t - 0.01); continue; }
        if (h.hit && h.t < best.t) { best.status = 1; best.t = h.t; best.n = og::dot(h.n, ld) > 0 ? -h.n : h.n; best.tri = int(i); } }
    if (und && (best.status == 0 || undT < best.t)) return {2, 0, V(), -1, 0};
    return best;
}
static bool checkHit(vh::Ctx& C, const char* who, const Col& c, const Oracle& o, const rp::RaycastInfo& info, V a, V d) {
    double L = og::len(d), sc = std::max(1.0, c.s.R) * (1 + 0.02 * (og::len(a - c.T.p) + L + og::len(a) * 0.3)); bool ok = true; V n = ov(info.worldNormal), p = ov(info.worldPoint); double t = info.hitFraction;
    std::string desc = c.s.o.desc + " ray " + vs(a) + " dir " + vs(d) + " pose " + vs(c.T.p) + " scale " + vs(c.s.scale);
    auto bad = [&](const char* k, double v) { ok = false; C.fail(std::string(who) + "-" + k, "%s: %s (value %.6g, expected t %.9g got %.9g, expected n %s got %s)", desc.c_str(), k, v, o.t, t, vs(c.T.R * o.n).c_str(), vs(n).c_str()); };
    if (info.collider != c.c || info.body != c.c->getBody()) bad("identity", 0);
    if (!og::finite(n) || !og::finite(p) || !std::isfinite(t)) { bad("finite", 0); return false; }
    if (std::fabs(og::len(n) - 1) > (DBL ? 1e-9 : 1e-4)) bad("unit-normal", og::len(n));
    if (og::len(p - (a + d * t)) > TOL * sc * 0.5) bad("point-on-ray", og::len(p - (a + d * t)));
    double cosi = std::max(0.02, std::fabs(og::dot(c.T.R * o.n, d)) / L); double terr = std::fabs(t - o.t) * L; C.maxi("hit distance error, times incidence", terr * cosi / sc);
    if (terr > TOL * sc / cosi) bad("fraction", terr);
    V ln = c.T.R.t() * n, lp = c.T.inv(p);
    if (c.s.k == SK::Sphere || c.s.k == SK::Capsule) { if (og::dot(ln, o.n) < 1 - (DBL ? 1e-6 : 2e-3) / (cosi * cosi)) bad("normal", og::dot(ln, o.n)); if (og::dot(ln, lp - (c.s.k == SK::Sphere ? V() : V(0, std::max(-c.s.o.halfH, std::min(c.s.o.halfH, lp.y)), 0))) < 0) bad("inward", 0); }
    else if (og::dot(ln, o.n) < 1 - (DBL ? 1e-6 : 1e-3)) { // near an edge the neighbouring face may be named
        bool near = false; if (c.s.o.convex()) for (auto& f : c.s.o.faces) if (og::dot(f.n, ln) > 1 - 1e-3 && std::fabs(og::dot(f.n, lp) - f.d) < 3 * TOL * sc / cosi) near = true;
        if (!near) bad("normal", og::dot(ln, o.n)); }
    if (c.s.k == SK::Mesh && o.tri >= 0 && info.triangleIndex != o.tri) bad("triangle-index", info.triangleIndex);
    if (c.s.k != SK::Mesh && info.triangleIndex != -1) bad("triangle-index", info.triangleIndex);
    return ok;
}
struct CB : rp::RaycastCallback { std::function<decimal(const rp::RaycastInfo&)> f; decimal notifyRaycastHit(const rp::RaycastInfo& i) override { return f(i); } };

static void rndRay(vh::Rng& r, const Col& c, V& a, V& b) {
    double R = c.s.R; LocalBox bx = boundsOf(c.s.o, Pose()); V mid = (bx.lo + bx.hi) * 0.5, ext = (bx.hi - bx.lo) * 0.5;
    V tgt = mid + og::had(rndBox(r, 1.1), ext); V la, lb;
    switch (r.below(8)) {
    case 0: { int ax = r.below(3); la = tgt; la[ax] = mid[ax] + (r.chance(.5) ? 1 : -1) * r.uniform(0, 3) * R; lb = la; lb[ax] = mid[ax] - (la[ax] - mid[ax]) * r.uniform(0.1, 2); if (std::fabs(lb[ax] - la[ax]) < 0.05) lb[ax] += 1; break; }   // axis parallel
    case 1: { V u = rndUnit(r); la = tgt + u * r.uniform(0, 0.3) * R; lb = la + rndUnit(r) * r.uniform(0.05, 0.6) * R; break; }                    // short, near the surface or inside
    case 2: { int ax = r.below(3); la = tgt; lb = tgt; la[ax] = mid[ax] + 2 * R; lb[ax] = mid[ax] - 2 * R; if (r.chance(0.5)) std::swap(la, lb); V tilt = rndUnit(r) * r.logUniform(1e-4, 0.2) * R; tilt[ax] = 0; lb += tilt; break; } // nearly axis parallel
    case 3: { int ax = r.below(3); V u = rndUnit(r); u[ax] = 0; la = tgt + u * (r.uniform(0.5, 3) * R); lb = tgt - u * (r.uniform(0.05, 3) * R); break; }    // in a coordinate plane
    case 4: { la = mid + rndUnit(r) * (R * r.uniform(1.05, 1.3)); lb = la + og::unit(tgt - la) * r.uniform(0.2, 3) * R; break; }
    default: { V u = rndUnit(r); la = tgt + u * (r.uniform(0.1, 4) * R); lb = tgt - u * (r.uniform(0, 4) * R); }
    }
    a = rdv(c.T * la); b = rdv(c.T * lb);
}
struct Scene { PC pc; rp::PhysicsWorld* w; std::vector<Col> cols; std::vector<rp::RigidBody*> bodies; };
static void build(vh::Ctx& C, vh::Rng& r, Scene& S, int nb) {
    S.w = S.pc.createPhysicsWorld();
    for (int b = 0; b < nb; b++) {
        bool plain = r.chance(0.3); V p = plain ? V(r.range(-4, 4), r.range(-4, 4), r.range(-4, 4)) : rndBox(r, 12); Q q = plain ? Q() : rndOrient(r);
        rp::RigidBody* body = S.w->createRigidBody(rt(p, q)); S.bodies.push_back(body); body->setType(r.chance(.5) ? rp::BodyType::STATIC : r.chance(.5) ? rp::BodyType::KINEMATIC : rp::BodyType::DYNAMIC);
        int n = r.range(1, 3); 
        for (int k = 0; k < n; k++) {
            Col c; c.s = rndShape(S.pc, r, r.uniform(0.6, 3), allKinds()); if (!c.s.s) { C.fail("shape", "%s could not be created", c.s.o.desc.c_str()); continue; }
            if (c.s.concave()) body->setType(rp::BodyType::STATIC);
            c.side = 1; if (c.s.concave() && r.chance(0.6)) { c.side = r.below(3); static_cast<rp::ConcaveShape*>(c.s.s)->setRaycastTestType(c.side == 0 ? rp::TriangleRaycastSide::FRONT_AND_BACK : c.side == 1 ? rp::TriangleRaycastSide::FRONT : rp::TriangleRaycastSide::BACK); }
            bool lplain = plain && r.chance(.6); rp::Transform lt = rt(lplain ? V() : rndBox(r, 2), lplain ? Q() : rndOrient(r));
            bool later = r.chance(0.3);
            c.c = body->addCollider(c.s.s, later ? rt(rndBox(r, 3), rndQ(r)) : lt); if (later) c.c->setLocalToBodyTransform(lt);
            c.body = b; c.query = !r.chance(0.15); c.c->setIsWorldQueryCollider(c.query); c.cat = r.chance(.5) ? (unsigned short)(1u << r.below(4)) : (unsigned short)r.below(65536); c.c->setCollisionCategoryBits(c.cat); c.active = true; if (r.chance(.2)) c.c->setCollideWithMaskBits((unsigned short)r.below(65536));
            S.cols.push_back(c);
        }
        if (r.chance(0.4)) { rp::Transform t2 = rt(rndBox(r, 12), rndOrient(r)); body->setTransform(t2); }
        if (r.chance(0.12)) { body->setIsActive(false); if (r.chance(.4)) body->setIsActive(true); }
    }
    if (r.chance(0.2)) { S.w->setIsGravityEnabled(true); for (auto* b : S.bodies) { b->setLinearVelocity(rv(rndBox(r, 3))); b->setAngularVelocity(rv(rndBox(r, 2))); } for (int i = 0; i < 3; i++) S.w->update(decimal(1.0 / 60)); }
    // resize some shapes afterwards
    for (auto& c : S.cols) if (r.chance(0.12)) {
        if (c.s.k == SK::Sphere) { double q = r.uniform(0.5, 2); static_cast<rp::SphereShape*>(c.s.s)->setRadius(decimal(q)); c.s.o = og::sphere(rd(q)); }
        else if (c.s.k == SK::Box) { V e(r.uniform(.4, 2), r.uniform(.4, 2), r.uniform(.4, 2)); static_cast<rp::BoxShape*>(c.s.s)->setHalfExtents(rv(e)); c.s.o = og::box(rdv(e)); }
        else if (c.s.k == SK::Capsule) { double q = r.uniform(0.4, 1.5), h = r.uniform(0.5, 3); static_cast<rp::CapsuleShape*>(c.s.s)->setRadius(decimal(q)); static_cast<rp::CapsuleShape*>(c.s.s)->setHeight(decimal(h)); c.s.o = og::capsule(rd(q), rd(h)); }
        else continue;
        c.s.R = boundR(c.s.o);
    }
    for (auto& c : S.cols) { c.T = op(S.bodies[c.body]->getTransform()) * op(c.c->getLocalToBodyTransform()); c.active = S.bodies[c.body]->isActive(); }
}
static void runRays(vh::Ctx& C, vh::Rng& r) {
    Scene S; build(C, r, S, r.range(1, C.thorough ? 12 : 8)); if (S.cols.empty()) return;
    int nr = 60;
    for (int k = 0; k < nr; k++) {
        const Col& c = r.pick(S.cols); V a, b; rndRay(r, c, a, b); V d = b - a; if (og::len(d) < 0.02) continue;
        double mf = r.chance(0.5) ? 1.0 : rd(r.uniform(0.05, 1)); rp::Ray ray(rv(a), rv(b), decimal(mf));
        // one collider
        { rp::RaycastInfo info; bool hit = c.c->raycast(ray, info); Oracle o = judge(c, a, d, mf); if (!c.active) o.status = 0; C.eval(); C.count(std::string("rays ") + skname(c.s.k)); 
          if (o.status == 2) C.count("undecided"); else { C.count(std::string(o.status ? "hits " : "misses ") + skname(c.s.k));
            if (hit != (o.status == 1)) C.fail(std::string(hit ? "false-hit-" : "missed-") + skname(c.s.k), "%s: ray %s -> %s max %.9g local %s -> %s: engine says %s (t=%.6g), oracle t=%.6g", c.s.o.desc.c_str(), vs(a).c_str(), vs(b).c_str(), mf, vs(c.T.inv(a)).c_str(), vs(c.T.inv(b)).c_str(), hit ? "hit" : "miss", hit ? double(info.hitFraction) : -1.0, o.t);
            else if (hit) { checkHit(C, "collider", c, o, info, a, d); C.seen(vh::mix(vh::hashStr(c.s.o.desc), uint64_t(o.t * 1e6))); if (C.samples.size() < 3) C.sample("case %ld: %s hit at fraction %.6f (oracle %.6f)", C.caseIndex, c.s.o.desc.c_str(), double(info.hitFraction), o.t); } } }
        // its body: nearest of its colliders
        { rp::RaycastInfo info; bool hit = S.bodies[c.body]->raycast(ray, info); bool und = false; const Col* bc = nullptr; Oracle best{0, 1e300, V(), -1, 0}; std::vector<std::pair<double, const Col*>> hs;
          for (auto& x : S.cols) if (x.body == c.body) { Oracle o = judge(x, a, d, mf); if (!x.active) o.status = 0; if (o.status == 2) und = true; if (o.status == 1) hs.push_back({o.t, &x}); if (o.status == 1 && o.t < best.t) { best = o; bc = &x; } }
          C.eval(); if (!und) { for (auto& h : hs) if (h.second != bc && std::fabs(h.first - best.t) * og::len(d) < 0.05) und = true;
            if (hit != (best.status == 1)) C.fail(hit ? "body-false-hit" : "body-missed", "body with colliders, ray %s -> %s", vs(a).c_str(), vs(b).c_str());
            else if (hit && !und) { checkHit(C, "body", *bc, best, info, a, d); C.count("body hits"); } } }
        // the world, with different callbacks
        unsigned short mask = r.chance(.5) ? 0xFFFF : (unsigned short)(r.chance(.5) ? r.below(16) : (1u << r.below(16)) | (1u << r.below(16))); bool filtered = mask != 0xFFFF || r.chance(.5);
        std::map<rp::Collider*, Oracle> exp; int und = 0; std::map<rp::Collider*, const Col*> byC;
        for (auto& x : S.cols) { Oracle o = judge(x, a, d, mf); if (!x.active || !x.query || (filtered && !(mask & x.cat))) o.status = 0; if (o.status == 2) und++; exp[x.c] = o; byC[x.c] = &x; }
        int mode = r.below(6); double limit = mf; bool stopped = false; std::map<rp::Collider*, int> got; int calls = 0; vh::Rng rr(r.next());
        CB cb; cb.f = [&](const rp::RaycastInfo& info) -> decimal {
            calls++; if (stopped) C.fail("world-after-stop", "callback called again after it returned 0");
            if (!byC.count(info.collider)) { C.fail("world-identity", "unknown collider reported"); return 1; }
            if (got[info.collider]++) C.fail("world-twice", "collider reported twice (mode %d)", mode);
            const Col& x = *byC[info.collider]; Oracle& o = exp[info.collider];
            if (o.status == 0) C.fail("world-false-hit", "%s reported: active %d query %d category %d mask %d (filter %d), ray %s -> %s max %g, oracle miss", x.s.o.desc.c_str(), x.active, x.query, x.cat, mask, filtered, vs(a).c_str(), vs(b).c_str(), mf);
            else if (o.status == 1) checkHit(C, "world", x, o, info, a, d);
            if (info.hitFraction > limit * (1 + 1e-6)) C.fail("world-clip", "hit at %.9g reported although the ray was clipped to %.9g", double(info.hitFraction), limit);
            double ret = 1;
            switch (mode) { case 0: ret = 1; break; case 1: ret = -1; break; case 2: ret = info.hitFraction; break; case 3: ret = 0; break;
                case 4: { switch (rr.below(4)) { case 0: ret = 1; break; case 1: ret = -1; break; case 2: ret = info.hitFraction; break; default: ret = rr.uniform(0.01, 1); } break; }
                default: ret = rr.chance(0.3) ? 0 : rr.chance(0.5) ? -1 : info.hitFraction; }
            decimal ret2 = decimal(ret); if (ret2 == 0) stopped = true; else if (ret2 > 0) limit = std::min(limit, double(ret2)); return ret2; };
        if (filtered) S.w->raycast(ray, &cb, mask); else S.w->raycast(ray, &cb);
        C.eval(); C.count("world rays"); C.count("world callbacks", calls);
        double L = og::len(d);
        if (!stopped) for (auto& e : exp) if (e.second.status == 1 && !got.count(e.first) && e.second.t < limit - 0.02 * (1 + byC[e.first]->s.R) / L)
            C.fail("world-missed", "%s at t=%.6g not reported (limit %.6g, mode %d, ray %s -> %s)", byC[e.first]->s.o.desc.c_str(), e.second.t, limit, mode, vs(a).c_str(), vs(b).c_str());
        if (stopped && calls < 1) C.fail("world-stop", "stop");
    }
    S.pc.destroyPhysicsWorld(S.w);
}
static void runPoints(vh::Ctx& C, vh::Rng& r) {
    Scene S; build(C, r, S, r.range(1, 5)); if (S.cols.empty()) return;
    for (int k = 0; k < 300; k++) {
        const Col& c = r.pick(S.cols); LocalBox bx = boundsOf(c.s.o, Pose()); V mid = (bx.lo + bx.hi) * 0.5, ext = (bx.hi - bx.lo) * 0.5; V lp = mid + og::had(rndBox(r, 1.15), ext);
        switch (r.below(5)) { case 0: if (!c.s.o.pts.empty()) { lp = r.pick(c.s.o.pts) * r.uniform(0.8, 1.1); if (c.s.o.r > 0) lp += rndUnit(r) * c.s.o.r * r.uniform(0.9, 1.1); } break;   // near vertices
            case 1: lp = lp * r.uniform(0, 0.5); break; case 2: if (!c.s.o.faces.empty()) { auto& f = r.pick(c.s.o.faces); V q = r.pick(c.s.o.pts) * r.uniform(0.3, 0.98); lp = q + f.n * (f.d - og::dot(f.n, q) + r.uniform(-.1, .1)); } break; default: break; }
        V p = rdv(c.T * lp); bool und = false, any = false;
        for (auto& x : S.cols) {
            double sd; V q = x.T.inv(p); int st = 0; double tol = TOL * std::max(1.0, x.s.R) * (1 + 0.02 * og::len(p));
            if (x.s.o.convex()) { og::insideConvex(x.s.o, q, sd); st = std::fabs(sd) < tol ? 2 : sd < 0; }
            if (x.body == c.body) { if (st == 2) und = true; if (st == 1) any = true; }
            if (x.c != c.c) continue;
            bool in = x.c->testPointInside(rv(p)); C.eval(); C.count(std::string("points ") + skname(x.s.k));
            if (st == 2) { C.count("undecided"); continue; } C.count(std::string(st ? "inside " : "outside ") + skname(x.s.k));
            if (in != (st == 1)) C.fail(std::string(in ? "false-inside-" : "missed-inside-") + skname(x.s.k), "%s scale %s: point %s (local %s), signed distance %.6g, engine says %d", x.s.o.desc.c_str(), vs(x.s.scale).c_str(), vs(p).c_str(), vs(q).c_str(), st == 0 && !x.s.o.convex() ? 0.0 : sd, in);
            C.seen(vh::mix(vh::hashStr(x.s.o.desc), uint64_t(int64_t(q.x * 1e5)) ^ (uint64_t(int64_t(q.y * 1e5)) << 20)));
        }
        bool in = S.bodies[c.body]->testPointInside(rv(p)); C.eval(); if (any || !und) if (in != any) C.fail(in ? "body-false-inside" : "body-missed-inside", "point %s: body says %d", vs(p).c_str(), in);
    }
    if (C.caseIndex % 50 == 0) C.sample("case %ld: %zu colliders on %zu bodies, first %s", C.caseIndex, S.cols.size(), S.bodies.size(), S.cols[0].s.o.desc.c_str());
    S.pc.destroyPhysicsWorld(S.w);
}
static void runCase(vh::Ctx& C) { vh::Rng r(C.rng.next()); if (C.mode == "point") runPoints(C, r); else runRays(C, r); }
int main(int argc, char** argv) { return vh::runMain(argc, argv, runCase); }
