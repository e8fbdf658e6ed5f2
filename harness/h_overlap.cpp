// C08 / C09 (and C11's query side): overlap and collision queries, and the contacts they report, against exact geometry.
#include "rp.h"
#include <set>
struct Col { Sh s; rp::Collider* c; int body; bool query, trigger; unsigned short cat, mask; Pose T; };
struct Body { rp::RigidBody* b; rp::BodyType type; bool active = true, alive = true; };
static const double TOL = DBL ? 1e-3 : 4e-3;     // the engine's own tolerances are absolute and of this order
static rp::Transform rt2(const Pose& p) { rp::Transform t(rv(p.p), rp::Quaternion(rp::Matrix3x3(decimal(p.R.r0.x), decimal(p.R.r0.y), decimal(p.R.r0.z), decimal(p.R.r1.x), decimal(p.R.r1.y), decimal(p.R.r1.z), decimal(p.R.r2.x), decimal(p.R.r2.y), decimal(p.R.r2.z)))); return t; }
typedef std::pair<rp::Collider*, rp::Collider*> CP;
static CP norm(rp::Collider* a, rp::Collider* b) { return a < b ? CP(a, b) : CP(b, a); }
static const double PI_ = 3.14159265358979323846;
static long gCases = 0, gIsolated = 0, gLastIso = -1;     // rounding is judged by the share of cases it spoils
static void isolated(vh::Ctx& C) { if (gLastIso != C.caseIndex) { gLastIso = C.caseIndex; gIsolated++; C.count("cases with isolated errors"); } if (gIsolated > 7 && gIsolated > gCases * 0.0025) C.fail("errors-frequent", "wrong answers in %ld of %ld cases of this run", gIsolated, gCases); }
struct Scene { PC pc; rp::PhysicsWorld* w; std::vector<Col> cols; std::vector<Body> bodies; std::set<std::pair<int, int>> noColl; };

static void addCols(vh::Ctx& C, vh::Rng& r, Scene& S, int b, const std::vector<SK>& kinds, double size) {
    int n = r.chance(0.6) ? 1 : r.range(1, 3);
    for (int k = 0; k < n; k++) {
        Col c; c.s = rndShape(S.pc, r, size * r.uniform(0.7, 1.5), kinds); if (!c.s.s) { C.fail("shape", "%s not created", c.s.o.desc.c_str()); continue; }
        if (c.s.concave()) { S.bodies[b].type = rp::BodyType::STATIC; S.bodies[b].b->setType(rp::BodyType::STATIC); }
        c.c = S.bodies[b].b->addCollider(c.s.s, r.chance(0.4) ? rp::Transform::identity() : rt(rndBox(r, size), rndOrient(r)));
        c.body = b; c.query = true; c.trigger = false; c.cat = 1; c.mask = 0xFFFF;
        if (r.chance(0.1)) { c.query = false; c.c->setIsWorldQueryCollider(false); }
        else if (r.chance(0.15)) { c.trigger = true; c.c->setIsTrigger(true); }
        if (r.chance(0.25)) { c.cat = r.chance(.6) ? (unsigned short)(1 << r.below(3)) : (unsigned short)r.below(8); c.mask = (unsigned short)r.below(8); c.c->setCollisionCategoryBits(c.cat); c.c->setCollideWithMaskBits(c.mask); }
        S.cols.push_back(c);
    }
}
static Body& addBody(vh::Rng& r, Scene& S, rp::Transform t) {
    Body b; b.b = S.w->createRigidBody(t); b.type = r.chance(.25) ? rp::BodyType::STATIC : r.chance(.3) ? rp::BodyType::KINEMATIC : rp::BodyType::DYNAMIC; b.b->setType(b.type); b.b->setIsAllowedToSleep(false); S.bodies.push_back(b); return S.bodies.back();
}
static bool admissible(const Scene& S, const Col& a, const Col& b) {
    const Body& x = S.bodies[a.body]; const Body& y = S.bodies[b.body];
    return a.body != b.body && x.alive && y.alive && x.active && y.active && a.query && b.query && (a.cat & b.mask) && (b.cat & a.mask) && !(a.s.concave() && b.s.concave()) &&
        !S.noColl.count({std::min(a.body, b.body), std::max(a.body, b.body)});
}
static bool bothStatic(const Scene& S, const Col& a, const Col& b) { return S.bodies[a.body].type == rp::BodyType::STATIC && S.bodies[b.body].type == rp::BodyType::STATIC; }
static double tolOf(const Col& a, const Col& b) { return TOL * std::max(1.0, 0.5 * (a.s.R + b.s.R)) * (1 + 0.01 * (og::len(a.T.p) + og::len(b.T.p))); }

// The same pair alone, in slightly different relative positions: how often does the engine contradict the oracle?
// (the narrow phase is floating point: single isolated wrong answers on generic poses are rounding, not logic)
static bool systematic(vh::Rng& r, const Col& a, const Col& b, bool colliding, bool contacts) {
    int wrong = 0, n = 9; double amp = 0.3 * tolOf(a, b);
    for (int k = 0; k < n; k++) {
        rp::PhysicsCommon& pc = *new PC(); rp::PhysicsWorld* w = pc.createPhysicsWorld();
        rp::RigidBody* x = w->createRigidBody(a.c->getLocalToWorldTransform()); rp::Transform tb = b.c->getLocalToWorldTransform(); if (k) tb.setPosition(tb.getPosition() + rv(rndUnit(r) * amp)); rp::RigidBody* y = w->createRigidBody(tb);
        if (a.s.concave()) x->setType(rp::BodyType::STATIC); if (b.s.concave()) y->setType(rp::BodyType::STATIC);
        x->addCollider(a.s.s, rp::Transform::identity()); y->addCollider(b.s.s, rp::Transform::identity());
        bool got; if (contacts) { struct Q : rp::CollisionCallback { bool any = false; void onContact(const CallbackData& d) override { for (rp::uint32 i = 0; i < d.getNbContactPairs(); i++) any |= d.getContactPair(i).getNbContactPoints() > 0; } } q; w->testCollision(x, y, q); got = q.any; } else got = w->testOverlap(x, y);
        if (got != colliding) wrong++;
        pc.destroyPhysicsWorld(w); delete &pc;
    }
    return wrong * 2 > n;
}
struct CCB : rp::CollisionCallback { std::function<void(const ContactPair&)> f; int calls = 0; void onContact(const CallbackData& d) override { calls++; for (rp::uint32 i = 0; i < d.getNbContactPairs(); i++) f(d.getContactPair(i)); } };
struct OCB : rp::OverlapCallback { std::function<void(const OverlapPair&)> f; int calls = 0; void onOverlap(CallbackData& d) override { calls++; for (rp::uint32 i = 0; i < d.getNbOverlappingPairs(); i++) f(d.getOverlappingPair(i)); } };

struct Prob { std::string k; double v; std::string more; double dep; };
typedef rp::CollisionCallback::ContactPair CPair;
// everything that is wrong with the contacts of one pair, a at pose ta and b at pose tb; ctx may be null
static std::vector<Prob> judgeContacts(vh::Ctx* C, const Col& a, const Pose& ta, const Col& b, const Pose& tb, const CPair& p, bool fresh) {
    std::vector<Prob> out; auto bad = [&](const char* k, double v, const std::string& more = "", double dep = 0) { out.push_back({k, v, more, dep}); }; auto maxi = [&](const std::string& k, double v) { if (C) C->maxi(k, v); };
    bool convex = a.s.o.convex() && b.s.o.convex(); double sc = std::max(1.0, 0.5 * (a.s.R + b.s.R)), tol = tolOf(a, b), ptol = 3 * tol; rp::uint32 n = p.getNbContactPoints();
    if (n == 0) bad("no-point", 0);
    if (convex && n > 16) bad("too-many", n);
    og::Gap g{0, 0, V()}; if (convex) g = og::gap(a.s.o, ta, b.s.o, tb);
    double maxDepth = -1; V maxN;
    for (rp::uint32 i = 0; i < n; i++) {
        auto c = p.getContactPoint(i); V nn = ov(c.getWorldNormal()); double dep = c.getPenetrationDepth(); V p1 = ta * ov(c.getLocalPointOnCollider1()), p2 = tb * ov(c.getLocalPointOnCollider2());
        if (!og::finite(nn) || !std::isfinite(dep) || !og::finite(p1) || !og::finite(p2)) { bad("finite", 0); continue; }
        if (C) C->seen(vh::mix(vh::hashStr(a.s.o.desc + b.s.o.desc), uint64_t(int64_t(dep * 1e7)) ^ uint64_t(int64_t(p1.x * 1e5)) << 24));
        if (std::fabs(og::len(nn) - 1) > 1e-3) bad("unit-normal", og::len(nn));
        if (dep < 0) bad("negative-depth", dep);
        if (dep > maxDepth) { maxDepth = dep; maxN = nn; }
        std::string more = "depth " + std::to_string(dep) + (fresh ? " fresh" : " stay");
        // on (or in) each collider
        auto off = [&](const Col& c2, const Pose& T, V wp) { V lp = T.inv(wp); if (c2.s.o.convex()) { double sd; og::insideConvex(c2.s.o, lp, sd); return sd; }
            double m = 1e300; for (auto& t : c2.s.o.tris) m = std::min(m, og::pointTri(lp, t[0], t[1], t[2])); return m; };
        for (int side = 0; side < 2; side++) { const Col& c2 = side ? b : a; double o = side ? off(b, tb, p2) : off(a, ta, p1);
            if (!c2.s.o.convex()) maxi("point off the surface", o / sc); else maxi(convex ? "point outside the convex collider" : "point outside the convex collider against a surface", o / sc);
            // against a surface the normal may be smoothed: the point on the convex body then leaves it by less than the depth
            if (o > ptol + (convex ? 0.05 : c2.s.o.convex() ? 1.5 : 0) * dep) bad(side ? "point2-off" : "point1-off", o, vs(side ? p2 : p1) + more, dep); }
        // the two points differ by the depth along the normal
        double along = og::dot(p1 - p2, nn), side = og::len((p1 - p2) - nn * along); maxi("depth mismatch", std::fabs(along - dep) / sc); maxi("sideways offset", side / sc);
        if (std::fabs(along - dep) > ptol) bad("depth-mismatch", along - dep, more); if (side > ptol) bad("sideways", side, more, dep);
    }
    if (convex && fresh && n && g.lo > -1e8) {
        double true_ = -g.hi; if (C) C->count("depths compared"); maxi("deepest point beyond the true depth", (maxDepth - true_) / sc);
        // moving the second shape out separates the pair
        Pose T2(tb.p + maxN * maxDepth, tb.R); og::Gap g2 = og::gap(a.s.o, ta, b.s.o, T2); if (g2.lo > -1e8) { double left = -g2.hi; bool poly = a.s.o.r == 0 && b.s.o.r == 0; double shallow = 0.25 * std::min(a.s.inR, b.s.inR);
            if (poly && true_ > shallow) maxi("overlap left after moving out, deep polyhedra, relative to the depth", left / true_); else maxi("overlap left after moving out, otherwise", left / sc);
            if (left > 4 * tol + (poly && true_ > shallow ? 0.5 * true_ : 0)) bad("not-separating", g2.hi, "depth " + std::to_string(maxDepth) + " true " + std::to_string(true_) + " normal " + vs(maxN) + " y axes " + vs(V(ta.R.r0.y, ta.R.r1.y, ta.R.r2.y)) + " " + vs(V(tb.R.r0.y, tb.R.r1.y, tb.R.r2.y))); }
        if (maxDepth > true_ * 1.01 + 4 * tol) bad("not-minimal", maxDepth, "true depth " + std::to_string(true_));
    }
    return out;
}
// how often does the pair alone, slightly displaced, show the same problem? (a vote, as in systematic())
static bool contactVote(const Col& a, const Col& b, const rp::Transform& ta, const rp::Transform& tb, const std::string& kind) {
    vh::Rng r(vh::hashStr(a.s.o.desc + kind)); int wrong = 0, n = 9; double amp = 0.3 * tolOf(a, b);
    for (int k = 0; k < n; k++) { rp::PhysicsCommon& pc = *new PC(); rp::PhysicsWorld* w = pc.createPhysicsWorld(); rp::RigidBody* x = w->createRigidBody(ta); rp::Transform t2 = tb; if (k) t2.setPosition(t2.getPosition() + rv(rndUnit(r) * amp)); rp::RigidBody* y = w->createRigidBody(t2);
        if (a.s.concave()) x->setType(rp::BodyType::STATIC); if (b.s.concave()) y->setType(rp::BodyType::STATIC); rp::Collider *cx = x->addCollider(a.s.s, rp::Transform::identity()), *cy = y->addCollider(b.s.s, rp::Transform::identity());
        CCB cb; bool w1 = false; cb.f = [&](const CPair& p) { bool sw = p.getCollider1() == cy; std::vector<Prob> v = sw ? judgeContacts(nullptr, b, op(t2), a, op(ta), p, true) : judgeContacts(nullptr, a, op(ta), b, op(t2), p, true); (void)cx; for (auto& q : v) if (q.k == kind || (q.k.substr(0, 5) == "point" && kind.substr(0, 5) == "point")) w1 = true; };
        w->testCollision(x, y, cb); if (w1) wrong++; pc.destroyPhysicsWorld(w); delete &pc; }
    return wrong * 2 > n;
}
// mode "": C08 judges who is reported; mode "contacts": C09 judges the contacts
static bool contactsMode(const vh::Ctx& C) { return C.mode == "contacts"; }
static void checkContacts(vh::Ctx& C, const char* who, Scene& S, const CPair& p, bool fresh, std::map<rp::Collider*, int>& idx) {
    if (!contactsMode(C)) return;
    if (!idx.count(p.getCollider1()) || !idx.count(p.getCollider2())) { C.fail("contact-identity", "%s: unknown collider", who); return; }
    const Col& a = S.cols[idx[p.getCollider1()]]; const Col& b = S.cols[idx[p.getCollider2()]];
    if (p.getBody1() != S.bodies[a.body].b || p.getBody2() != S.bodies[b.body].b) C.fail("contact-body", "%s: body of the pair is not the collider's", who);
    rp::uint32 n = p.getNbContactPoints(); C.count("contact points", n); C.maxi("contact points per pair", n); C.eval(n);
    for (auto& q : judgeContacts(&C, a, a.T, b, b.T, p, fresh)) {
        bool shape = q.k == "point1-off" || q.k == "point2-off" || q.k == "depth-mismatch" || q.k == "sideways" || q.k == "not-separating" || q.k == "not-minimal";
        // clipping and edge projection misplace a point of a penetrating polyhedron now and then
        bool poly = a.s.o.r == 0 || b.s.o.r == 0, round = !poly && a.s.o.convex() && b.s.o.convex(); // closed formulas: no vote
        if (shape && poly) { C.count("misplaced points of polyhedra"); isolated(C); continue; }
        if (shape && !round && !contactVote(a, b, rt2(a.T), rt2(b.T), q.k)) { C.count("isolated contact errors"); isolated(C); if (C.verbose) printf("isolated %s %g %s\n", q.k.c_str(), q.v, q.more.c_str()); continue; }
        C.fail("contact-" + q.k + "-" + skname(a.s.k) + "-" + skname(b.s.k), "%s: %s at %s and %s at %s: %s = %.6g %s", who, a.s.o.desc.c_str(), vs(a.T.p).c_str(), b.s.o.desc.c_str(), vs(b.T.p).c_str(), q.k.c_str(), q.v, q.more.c_str()); }
}
static void knownCase(vh::Ctx& C) { // queries about two bodies that are both static, or both asleep
    for (int k = 0; k < 2; k++) { PC pc; rp::PhysicsWorld* w = pc.createPhysicsWorld(); rp::RigidBody *x = w->createRigidBody(rp::Transform::identity()), *y = w->createRigidBody(rp::Transform(rp::Vector3(decimal(0.5), 0, 0), rp::Quaternion::identity()));
        rp::SphereShape* s = pc.createSphereShape(1); x->addCollider(s, rp::Transform::identity()); y->addCollider(s, rp::Transform::identity());
        if (k == 0) { w->testOverlap(x, y); x->setType(rp::BodyType::STATIC); y->setType(rp::BodyType::STATIC); } else { w->testOverlap(x, y); x->setIsSleeping(true); y->setIsSleeping(true); }
        C.eval(); C.seen(k); if (!w->testOverlap(x, y)) C.fail(k ? "known-query-both-asleep" : "known-query-both-static", "two overlapping spheres of radius 1 whose bodies are both %s: testOverlap() says no", k ? "asleep" : "static"); }
}
// contacts delivered during simulation: judged at the poses the bodies had when the step began
struct Lis : rp::EventListener { std::function<void(const rp::CollisionCallback::ContactPair&)> f; void onContact(const CallbackData& d) override { for (rp::uint32 i = 0; i < d.getNbContactPairs(); i++) if (d.getContactPair(i).getEventType() != rp::CollisionCallback::ContactPair::EventType::ContactExit) f(d.getContactPair(i)); } };
// two polyhedra face to face: the contact points reported must span the area where the faces touch
typedef std::vector<std::pair<double, double>> P2;
static double area2(const P2& p) { double a = 0; for (size_t i = 0; i < p.size(); i++) { auto &x = p[i], &y = p[(i + 1) % p.size()]; a += x.first * y.second - x.second * y.first; } return std::fabs(a) / 2; }
static P2 hull2(P2 p) { P2 h; if (p.size() < 3) return h; std::sort(p.begin(), p.end()); for (int k = 0; k < 2; k++) { size_t s = h.size(); for (auto& q : p) { while (h.size() >= s + 2) { auto &a = h[h.size() - 2], &b = h.back(); if ((b.first - a.first) * (q.second - a.second) - (b.second - a.second) * (q.first - a.first) <= 0) h.pop_back(); else break; } h.push_back(q); } h.pop_back(); std::reverse(p.begin(), p.end()); } return h; }
static P2 clip2(P2 s, const P2& c) { for (size_t i = 0; i < c.size() && !s.empty(); i++) { auto a = c[i], b = c[(i + 1) % c.size()]; P2 o; auto side = [&](std::pair<double, double> q) { return (b.first - a.first) * (q.second - a.second) - (b.second - a.second) * (q.first - a.first); };
    for (size_t k = 0; k < s.size(); k++) { auto p = s[k], q = s[(k + 1) % s.size()]; double x = side(p), y = side(q); if (x >= 0) o.push_back(p); if ((x > 0 && y < 0) || (x < 0 && y > 0)) { double u = x / (x - y); o.push_back({p.first + (q.first - p.first) * u, p.second + (q.second - p.second) * u}); } } s = o; } return s; }
static long gFaces = 0, gSmall = 0, gFar = 0;
static long gLying = 0, gShort = 0;
// two parallel capsules side by side touch along the common part of their axes
static void sideBySide(vh::Ctx& C) {
    vh::Rng& g = C.rng; PC pc; auto* w = pc.createPhysicsWorld(); double size = g.uniform(0.8, 3); V at = rndBox(g, 5); rp::Transform t0 = rt(at, rndOrient(g));
    for (int k = 0; k < 6; k++) {
        double ra = size * g.uniform(0.2, 0.6), rb = size * g.uniform(0.2, 0.6), ha = size * g.uniform(0.4, 2), hb = size * g.uniform(0.4, 2), s = g.uniform(-1, 1) * (ha + hb) / 2, pen = (ra + rb) * g.uniform(0.01, 0.6), dir = g.uniform(0, 6.28); bool flip = g.chance(0.5), swap = g.chance(0.5); Sh a = mkCapsule(pc, ra, ha), b = mkCapsule(pc, rb, hb); double d = ra + rb - pen;
        rp::Transform tb = t0 * rt(V(d * std::cos(dir), s, d * std::sin(dir)), flip ? Q(1, 0, 0, 0) : og::axisAngle(V(0, 1, 0), g.uniform(0, 6))); rp::RigidBody *x = w->createRigidBody(swap ? tb : t0), *y = w->createRigidBody(swap ? t0 : tb); x->addCollider(swap ? b.s : a.s, rp::Transform::identity()); y->addCollider(swap ? a.s : b.s, rp::Transform::identity());
        double want = std::min(ha / 2, s + hb / 2) - std::max(-ha / 2, s - hb / 2), got = 0; std::vector<V> pts; double deep = 0; CCB cb; cb.f = [&](const CPair& p) { for (rp::uint32 i = 0; i < p.getNbContactPoints(); i++) { pts.push_back(ov(p.getCollider1()->getLocalToWorldTransform() * p.getContactPoint(i).getLocalPointOnCollider1())); deep = std::max(deep, std::fabs(double(p.getContactPoint(i).getPenetrationDepth()) - pen)); } }; w->testCollision(x, y, cb); for (V p : pts) for (V q : pts) got = std::max(got, og::len(p - q)); C.eval();
        if (want > 0.1 * size) { gLying++; C.count("capsules side by side"); C.seen(vh::hashBytes(&want, sizeof want)); C.maxi("part of a capsule side by side not touched", 1 - got / want); C.maxi("depth error of capsules side by side", deep); if (!(got > 0.9 * want && got < 1.05 * want && deep < 4 * TOL * size)) { gShort++; C.count("capsules side by side touched badly"); if (gShort > 3 + gLying * 0.002) C.fail("capsules-not-spanned", "%ld of %ld, the last: %zu points span %g of a touching length of %g, depth off by %g", gShort, gLying, pts.size(), got, want, deep); } }
        w->destroyRigidBody(x); w->destroyRigidBody(y); }
    pc.destroyPhysicsWorld(w);
}
// a capsule lying flat on a face touches it all along
static void lying(vh::Ctx& C) {
    vh::Rng& g = C.rng; PC pc; auto* w = pc.createPhysicsWorld(); double size = g.uniform(0.8, 3); V at = rndBox(g, 5); rp::Transform t0 = rt(at, rndOrient(g));
    for (int k = 0; k < 6; k++) {
        double r0 = size * g.uniform(0.2, 0.6), h0 = size * g.uniform(0.4, 2), r1 = size * g.uniform(0.5, 1.2), h1 = size * g.uniform(0.4, 1), turn = g.uniform(0, 6.28), pen = size * (g.chance(0.7) ? g.uniform(0.003, 0.05) : g.uniform(0.05, 0.2)), pb = g.uniform(0, 6), fb = g.uniform(0.6, 1); int nb = g.range(3, 10); bool boxB = g.chance(0.5), swap = g.chance(0.5); Sh a = mkCapsule(pc, r0, h0), b = boxB ? mkBox(pc, V(r1, h1 / 2, r1 * fb)) : mkHullPoly(pc, polyPrism(nb, r1, h1, 1, pb)); if (!a.s || !b.s) { C.fail("refused", "shape refused"); break; }
        double off = g.chance(0.3) ? 0 : g.uniform(0, 0.8) * size, dir = g.uniform(0, 6.28); V o(off * std::cos(dir), h1 / 2 + r0 - pen, off * std::sin(dir)), ax(std::cos(turn), 0, std::sin(turn)); rp::Transform ta = t0 * rt(o, og::axisAngle(V(0, 1, 0), -turn)) * rt(V(), og::axisAngle(V(0, 0, 1), (g.chance(0.5) ? 1 : -1) * PI_ / 2));
        rp::RigidBody *x = nullptr, *y = nullptr; rp::Collider *cx = nullptr, *cy = nullptr; for (int j = 0; j < 2; j++) if ((j == 0) != swap) { x = w->createRigidBody(ta); cx = x->addCollider(a.s, rp::Transform::identity()); } else { y = w->createRigidBody(t0); cy = y->addCollider(b.s, rp::Transform::identity()); }
        Pose A = op(cx->getLocalToWorldTransform()), B = op(cy->getLocalToWorldTransform()); double lo = 0, hi = 1; V e0 = B.inv(A * V(0, -h0 / 2, 0)), e1 = B.inv(A * V(0, h0 / 2, 0)); for (auto& f : b.o.faces) if (std::fabs(f.n.y) < 0.5) { double p = og::dot(f.n, e0) - f.d, q = og::dot(f.n, e1) - f.d; if (p > 0 && q > 0) hi = -1; else if (p > 0) lo = std::max(lo, p / (p - q)); else if (q > 0) hi = std::min(hi, p / (p - q)); }
        double want = hi > lo ? (hi - lo) * h0 : 0, got = 0; int n = 0; bool judge = want > 0.3 * size; V m = e0 + (e1 - e0) * ((lo + hi) / 2); for (auto& f : b.o.faces) if (judge && std::fabs(f.n.y) < 0.5 && f.d - og::dot(f.n, m) + r0 < 3 * pen) judge = false; // the way out may be sideways
        std::vector<V> pts; CCB cb; cb.f = [&](const CPair& p) { for (rp::uint32 i = 0; i < p.getNbContactPoints(); i++) { pts.push_back(p.getCollider1() == cy ? ov(p.getContactPoint(i).getLocalPointOnCollider1()) : ov(p.getContactPoint(i).getLocalPointOnCollider2())); n++; } }; if (g.chance(0.5)) w->testCollision(x, y, cb); else w->testCollision(y, x, cb);
        for (V p : pts) for (V q : pts) got = std::max(got, og::len(p - q)); C.eval(); if (judge) { gLying++; C.count("capsules lying on a face"); C.count(lo > 0 || hi < 1 ? "lying: sticking out" : "lying: wholly on the face"); C.seen(vh::hashBytes(&want, sizeof want)); double s = got / want; C.maxi("part of a lying capsule not touched", 1 - s); if (!(s > 0.9 && s < 1.05)) { gShort++; C.count("lying capsules touched badly"); if (gShort > 3 + gLying * 0.002) C.fail("capsule-not-spanned", "%ld of %ld capsules lying on a face, the last: %d points span %g of a touching length of %g, %s", gShort, gLying, n, got, want, b.o.desc.c_str()); } }
        w->destroyRigidBody(x); w->destroyRigidBody(y); }
    pc.destroyPhysicsWorld(w);
}
static void faces(vh::Ctx& C) {
    if (C.rng.chance(0.4)) { if (C.rng.chance(0.3)) sideBySide(C); else lying(C); return; }
    vh::Rng& g = C.rng; PC pc; auto* w = pc.createPhysicsWorld(); double size = g.uniform(0.8, 3); V at = rndBox(g, 5); rp::Transform t0 = rt(at, rndOrient(g));
    for (int k = 0; k < 6; k++) {
        double r0 = size * g.uniform(0.4, 1), r1 = size * g.uniform(0.4, 1.2), h0 = size * g.uniform(0.4, 1), h1 = size * g.uniform(0.4, 1), turn = g.uniform(0, 6.28), pen = g.uniform(0.003, 0.03) * size; int na = g.range(3, 10), nb = g.range(3, 10); double ts = g.chance(0.5) ? 1 : g.uniform(0.7, 1), pa = g.uniform(0, 6), pb = g.uniform(0, 6), fa = g.uniform(0.6, 1), fb = g.uniform(0.6, 1); bool boxA = g.chance(0.2), boxB = g.chance(0.4), swap = g.chance(0.5);
        Sh a = boxA ? mkBox(pc, V(r0, h0 / 2, r0 * fa)) : mkHullPoly(pc, polyPrism(na, r0, h0, ts, pa)), b = boxB ? mkBox(pc, V(r1, h1 / 2, r1 * fb)) : mkHullPoly(pc, polyPrism(nb, r1, h1, 1, pb)); if (!a.s || !b.s) { C.fail("refused", "prism refused"); break; }
        double off = g.chance(0.3) ? 0 : g.uniform(0, 0.6) * size, dir = g.uniform(0, 6.28); V o(off * std::cos(dir), (h0 + h1) / 2 - pen, off * std::sin(dir)); rp::Transform ta = t0 * rt(o, og::axisAngle(V(0, 1, 0), turn));
        rp::RigidBody *x = nullptr, *y = nullptr; rp::Collider *cx = nullptr, *cy = nullptr; for (int j = 0; j < 2; j++) if ((j == 0) != swap) { x = w->createRigidBody(ta); cx = x->addCollider(a.s, rp::Transform::identity()); } else { y = w->createRigidBody(t0); cy = y->addCollider(b.s, rp::Transform::identity()); }
        Pose A = op(cx->getLocalToWorldTransform()), B = op(cy->getLocalToWorldTransform()); auto poly = [&](const Sh& s, const Pose& T, double y, bool lo) { P2 p; for (V v : s.o.pts) if (std::fabs(v.y - y) < 1e-3 * size) { V l = B.inv(T * v); p.push_back({l.x, l.z}); } (void)lo; return hull2(p); };
        P2 touch = clip2(poly(a, A, -h0 / 2, true), poly(b, B, h1 / 2, false)); double want = touch.size() < 3 ? 0 : area2(touch), got = 0; int n = 0, pairs = 0; double wid = 1e300; // narrowest width of the polygon
        for (size_t i = 0; i < touch.size(); i++) { auto p = touch[i], q = touch[(i + 1) % touch.size()]; double l = std::hypot(q.first - p.first, q.second - p.second), m = 0; if (l < 1e-6) continue; for (auto& z : touch) m = std::max(m, std::fabs((q.first - p.first) * (z.second - p.second) - (q.second - p.second) * (z.first - p.first)) / l); wid = std::min(wid, m); }
        bool judge = want > 0.05 * size * size && wid > 10 * pen;     // otherwise the way out may be sideways
        CCB cb; P2 pts; cb.f = [&](const CPair& p) { pairs++; for (rp::uint32 i = 0; i < p.getNbContactPoints(); i++) { V l = p.getCollider1() == cy ? ov(p.getContactPoint(i).getLocalPointOnCollider1()) : ov(p.getContactPoint(i).getLocalPointOnCollider2()); pts.push_back({l.x, l.z}); n++; } }; if (g.chance(0.5)) w->testCollision(x, y, cb); else w->testCollision(y, x, cb);
        P2 h = hull2(pts); if (h.size() >= 3) got = area2(h); C.eval(); C.seen(vh::hashBytes(&want, sizeof want)); if (judge) { gFaces++; C.count("faces touching"); C.count("contact points between faces", n); C.maxi("share of the touching area not spanned", 1 - got / want); if (got < want * 0.6) { gSmall++; C.count("faces spanned badly"); if (gSmall > 3 + gFaces * 0.002) C.fail("face-not-spanned", "%ld of %ld faces in contact, the last: %d points span %g of a touching area of %g (%zu corners)", gSmall, gFaces, n, got, want, touch.size()); }
            if (pairs != 1 || got > want * 1.1 + 0.02 * size * size) { gFar++; C.count("faces spanned too widely"); if (gFar > 3 + gFaces * 0.002) C.fail("face-overspanned", "%d pairs, %d points span %g, the touching area is %g", pairs, n, got, want); } }
        w->destroyRigidBody(x); w->destroyRigidBody(y); }
    pc.destroyPhysicsWorld(w);
}
static void runCase(vh::Ctx& C) {
    if (C.mode == "faces") { faces(C); return; }
    if (contactsMode(C) && C.rng.chance(0.05)) { faces(C); return; }
    if (C.mode == "known") { knownCase(C); return; }
    gCases++; vh::Rng r(C.rng.next()); Scene S; rp::PhysicsWorld::WorldSettings ws; ws.gravity = rp::Vector3(0, 0, 0); S.w = S.pc.createPhysicsWorld(ws); S.w->enableSleeping(false);
    double size = r.chance(.6) ? r.uniform(0.8, 2) : r.uniform(2, 6); double ext = size * r.uniform(0.4, 1.6); V center = r.chance(0.5) ? V() : rndBox(r, 10); bool plain = r.chance(0.25);
    int nb = r.chance(.5) ? 2 : r.range(2, 7); std::vector<SK> kinds = r.chance(0.5) ? convexKinds() : allKinds(); if (r.chance(0.3)) { kinds = {r.pick(kinds), r.pick(kinds)}; }
    auto pose = [&]() { return rt(center + (plain ? V(r.range(-2, 2), r.range(-2, 2), r.range(-2, 2)) * (ext / 2) : rndBox(r, ext)), plain ? rndOrient(r) : rndQ(r)); };
    for (int i = 0; i < nb; i++) { addBody(r, S, pose()); addCols(C, r, S, i, kinds, size); }
    // round shapes in exactly degenerate positions: concentric, on the axis, end to end, crossing
    auto align = [&] { std::vector<int> rd_; for (size_t i = 0; i < S.cols.size(); i++) if (S.bodies[S.cols[i].body].alive && (S.cols[i].s.k == SK::Sphere || S.cols[i].s.k == SK::Capsule)) rd_.push_back(int(i)); if (rd_.size() < 2) return; const Col &a = S.cols[r.pick(rd_)], &b = S.cols[r.pick(rd_)]; if (a.body == b.body) return;
        auto hh = [](const Col& c) { double m = 0; for (V x : c.s.o.pts) m = std::max(m, std::fabs(x.y)); return m; }; double ha = hh(a), hb = hh(b); V off; rp::Quaternion q = rp::Quaternion::identity();
        switch (r.below(7)) { case 0: break; case 1: off = V(0, ha * r.uniform(-1, 1), 0); break; case 2: off = V(0, (ha + hb) * (r.chance(0.5) ? 1 : -1), 0); break; case 3: off = V(0, (ha + hb) * r.uniform(-1.2, 1.2), 0); break; case 4: off = V(r.uniform(-1, 1) * (a.s.o.r + b.s.o.r), (ha + hb) * r.uniform(-1.2, 1.2), 0); break; case 5: q = rp::Quaternion::fromEulerAngles(decimal(PI_ / 2), 0, 0); off = V(0, ha * r.uniform(-1, 1), hb * r.uniform(-1, 1)); break; default: q = rt(V(), rndOrient(r)).getOrientation(); off = V(0, ha * r.uniform(-1, 1), 0); off = off + og::rot(oq(q), V(0, hb * r.uniform(-1, 1), 0)); }
        if (r.chance(0.3)) q = q * rp::Quaternion(1, 0, 0, 0); rp::Transform ta = S.bodies[a.body].b->getTransform() * a.c->getLocalToBodyTransform(); S.bodies[b.body].b->setTransform(ta * rp::Transform(rv(off), q) * b.c->getLocalToBodyTransform().getInverse()); C.count("round shapes in degenerate positions"); };
    if (r.chance(0.3)) align();
    std::map<rp::Collider*, int> idx;
    auto refresh = [&]() { idx.clear(); for (size_t i = 0; i < S.cols.size(); i++) { Col& c = S.cols[i]; if (!S.bodies[c.body].alive) continue; c.T = op(S.bodies[c.body].b->getTransform()) * op(c.c->getLocalToBodyTransform()); idx[c.c] = int(i); } };
    int rounds = r.range(1, C.thorough ? 8 : 4);
    if (contactsMode(C) && r.chance(0.4)) { // a simulation
        Lis l; l.f = [&](const rp::CollisionCallback::ContactPair& p) { C.count("pairs during simulation"); checkContacts(C, "step", S, p, p.getEventType() == rp::CollisionCallback::ContactPair::EventType::ContactStart, idx); };
        S.w->setEventListener(&l); int ns = r.range(3, 25);
        for (int k = 0; k < ns; k++) { for (auto& b : S.bodies) if (b.type != rp::BodyType::STATIC && (k == 0 || r.chance(.1) || ov(b.b->getLinearVelocity()).x > 50)) { b.b->setLinearVelocity(rv((center - ov(b.b->getTransform().getPosition())) * r.uniform(0, 3) + rndBox(r, size * 2))); b.b->setAngularVelocity(rv(rndBox(r, 3))); } refresh(); S.w->update(decimal(r.chance(.7) ? 1.0 / 60 : r.uniform(0.005, 0.1))); }
        S.w->setEventListener(nullptr); refresh();
    }
    for (int round = 0; round < rounds; round++) {
        if (round) { // change something
            int m = r.range(1, 4); for (int k = 0; k < m; k++) { int i = r.below(S.bodies.size()); if (!S.bodies[i].alive) continue;
                switch (r.below(10)) {
                case 8: align(); break;
                case 0: case 1: case 2: S.bodies[i].b->setTransform(pose()); break;
                case 3: { rp::Transform t = S.bodies[i].b->getTransform(); t.setPosition(t.getPosition() + rv(rndUnit(r) * r.logUniform(0.001, 1))); S.bodies[i].b->setTransform(t); break; }
                case 4: { addBody(r, S, pose()); addCols(C, r, S, int(S.bodies.size()) - 1, kinds, size); break; }
                case 5: { int nl = 0; for (auto& b : S.bodies) nl += b.alive; if (nl > 2 && r.chance(.5)) { S.w->destroyRigidBody(S.bodies[i].b); S.bodies[i].alive = false; } break; }
                case 6: { if (r.chance(.6)) { S.bodies[i].active = !S.bodies[i].active; S.bodies[i].b->setIsActive(S.bodies[i].active); } break; }
                case 7: { for (auto& b : S.bodies) if (b.alive) { b.b->setLinearVelocity(rp::Vector3(0, 0, 0)); b.b->setAngularVelocity(rp::Vector3(0, 0, 0)); } S.w->update(decimal(1.0 / 60)); break; }
                default: { for (auto& c : S.cols) if (c.body == i && r.chance(.5)) { c.c->setLocalToBodyTransform(rt(rndBox(r, size), rndOrient(r))); } } } }
            if (r.chance(0.15)) { std::vector<int> d; for (size_t i = 0; i < S.bodies.size(); i++) if (S.bodies[i].alive) d.push_back(int(i)); if (d.size() >= 2) { int i = r.pick(d), j = r.pick(d); if (i != j && !S.noColl.count({std::min(i, j), std::max(i, j)}) && S.bodies[i].active && S.bodies[j].active) { rp::BallAndSocketJointInfo ji(S.bodies[i].b, S.bodies[j].b, rp::Vector3(0, 0, 0)); ji.isCollisionEnabled = false; S.w->createJoint(ji); S.noColl.insert({std::min(i, j), std::max(i, j)}); } } }
        }
        refresh();
        // what geometry says
        struct Exp { int st; const Col *a, *b; og::Gap g; bool trig; bool stat; }; std::map<CP, Exp> exp; bool und = false;
        for (size_t i = 0; i < S.cols.size(); i++) for (size_t j = i + 1; j < S.cols.size(); j++) { const Col &a = S.cols[i], &b = S.cols[j]; if (!S.bodies[a.body].alive || !S.bodies[b.body].alive || a.body == b.body) continue;
            Exp e{0, &a, &b, {1, 1, V()}, a.trigger || b.trigger, bothStatic(S, a, b)}; if (admissible(S, a, b)) {
                if (og::len(a.T.p - b.T.p) > a.s.R + b.s.R + 0.1) e.st = 0; else { e.g = gapAny(a.s.o, a.T, b.s.o, b.T); double tol = tolOf(a, b); e.st = e.g.lo > tol ? 0 : e.g.hi < -tol && e.g.hi > -1e8 ? 1 : 2;
                    if (!a.s.o.convex() || !b.s.o.convex()) { // a surface has no depth: a body just crossing it is decided only when it reaches well through
                        if (e.g.hi < -tol) e.st = 1; } } C.count(e.st == 0 ? "pairs apart" : e.st == 1 ? "pairs overlapping" : "pairs undecided"); }
            if (!contactsMode(C) && e.st != 2) C.seen(vh::mix(vh::hashStr(a.s.o.desc + b.s.o.desc), uint64_t(e.st) * 77 + uint64_t(int64_t(e.g.lo * 1e6))));
            if (e.stat && e.st == 1) e.st = 2;      // two static bodies: see the known finding
            exp[norm(a.c, b.c)] = e; }
        auto judge = [&](const char* what, std::map<CP, int>& got, bool contacts, std::function<bool(const Exp&)> in) {
            if (contactsMode(C)) return;
            for (auto& g : got) { if (!exp.count(g.first)) { C.fail(std::string(what) + "-identity", "pair of the same or unknown body reported"); continue; } if (g.second != 1) C.fail(std::string(what) + "-twice", "pair reported %d times", g.second);
                Exp& e = exp[g.first]; if (!in(e)) C.fail(std::string(what) + "-foreign", "pair that does not belong to the query (trigger %d)", e.trig); }
            for (auto& x : exp) { Exp& e = x.second; if (e.st == 2 || !in(e)) continue; C.eval(); bool is = got.count(x.first);
                if (is == (e.st == 1)) continue;
                std::string d = e.a->s.o.desc + " scale " + vs(e.a->s.scale) + " / " + e.b->s.o.desc + " gap [" + std::to_string(e.g.lo) + "," + std::to_string(e.g.hi) + "]";
                if (admissible(S, *e.a, *e.b)) { if (!systematic(r, *e.a, *e.b, e.st == 1, contacts)) { if (!systematic(r, *e.a, *e.b, e.st == 1, contacts)) { // right when asked alone: wrong only because of the scene?
                        bool again = false; { OCB cb; cb.f = [&](const rp::OverlapCallback::OverlapPair& p) { if (norm(p.getCollider1(), p.getCollider2()) == x.first) again = true; }; CCB cc; cc.f = [&](const rp::CollisionCallback::ContactPair& p) { if (norm(p.getCollider1(), p.getCollider2()) == x.first) again = true; }; rp::Transform t = S.bodies[e.b->body].b->getTransform(); int w2 = 0; for (int k = 0; k < 5; k++) { again = false; rp::Transform t2 = t; t2.setPosition(t.getPosition() + rv(rndUnit(r) * 0.2 * tolOf(*e.a, *e.b))); S.bodies[e.b->body].b->setTransform(t2); if (contacts) S.w->testCollision(S.bodies[e.b->body].b, cc); else S.w->testOverlap(S.bodies[e.b->body].b, cb); if (again != (e.st == 1)) w2++; } S.bodies[e.b->body].b->setTransform(t); if (w2 < 3) { C.count("isolated rounding errors"); isolated(C); e.st = 2; continue; } } } } }
                C.fail(std::string(what) + (is ? "-false-" : "-missed-") + (admissible(S, *e.a, *e.b) ? "" : "inadmissible-") + skname(e.a->s.k) + "-" + skname(e.b->s.k), "%s round %d active %d %d query %d %d bits %x/%x %x/%x", d.c_str(), round, S.bodies[e.a->body].active, S.bodies[e.b->body].active, e.a->query, e.b->query, e.a->cat, e.a->mask, e.b->cat, e.b->mask); e.st = 2; } };
        // whole world
        { std::map<CP, int> got; OCB cb; cb.f = [&](const rp::OverlapCallback::OverlapPair& p) { got[norm(p.getCollider1(), p.getCollider2())]++; if (p.getBody1() != p.getCollider1()->getBody() || p.getBody2() != p.getCollider2()->getBody()) C.fail("overlap-body", "body is not the collider's"); }; S.w->testOverlap(cb); judge("overlap-world", got, false, [](const Exp&) { return true; }); C.count("queries"); if (cb.calls > 1) C.fail("overlap-calls", "callback called %d times", cb.calls); }
        { std::map<CP, int> got; CCB cb; cb.f = [&](const rp::CollisionCallback::ContactPair& p) { got[norm(p.getCollider1(), p.getCollider2())]++; checkContacts(C, "world", S, p, true, idx); }; S.w->testCollision(cb); judge("collision-world", got, true, [](const Exp& e) { return !e.trig; }); C.count("queries"); }
        std::vector<int> live; for (size_t i = 0; i < S.bodies.size(); i++) if (S.bodies[i].alive) live.push_back(int(i));
        for (int i : live) { if (live.size() > 4 && r.chance(.5)) continue;
            auto mine = [&](const Exp& e) { return e.a->body == i || e.b->body == i; };
            { std::map<CP, int> got; OCB cb; cb.f = [&](const rp::OverlapCallback::OverlapPair& p) { got[norm(p.getCollider1(), p.getCollider2())]++; }; S.w->testOverlap(S.bodies[i].b, cb); judge("overlap-body", got, false, mine); C.count("queries"); }
            { std::map<CP, int> got; CCB cb; cb.f = [&](const rp::CollisionCallback::ContactPair& p) { got[norm(p.getCollider1(), p.getCollider2())]++; checkContacts(C, "body", S, p, true, idx); }; S.w->testCollision(S.bodies[i].b, cb); judge("collision-body", got, true, [&](const Exp& e) { return mine(e) && !e.trig; }); C.count("queries"); }
            for (int j : live) { if (i == j || (live.size() > 3 && r.chance(.6))) continue;
                auto both = [&](const Exp& e) { return (e.a->body == i && e.b->body == j) || (e.a->body == j && e.b->body == i); };
                bool any = false, u = false; for (auto& x : exp) if (both(x.second)) { if (x.second.st == 1) any = true; if (x.second.st == 2) u = true; }
                bool res = S.w->testOverlap(S.bodies[i].b, S.bodies[j].b); C.eval(); C.count("queries");
                if (!contactsMode(C) && (res ? (!any && !u) : any)) { bool sys = true; for (auto& x : exp) if (both(x.second) && x.second.st == 1 && !systematic(r, *x.second.a, *x.second.b, true, false)) sys = false; if (sys) C.fail(res ? "overlap-pair-false" : "overlap-pair-missed", "bodies %d %d round %d", i, j, round); }
                std::map<CP, int> got; CCB cb; cb.f = [&](const rp::CollisionCallback::ContactPair& p) { got[norm(p.getCollider1(), p.getCollider2())]++; checkContacts(C, "pair", S, p, true, idx); }; S.w->testCollision(S.bodies[i].b, S.bodies[j].b, cb); judge("collision-pair", got, true, [&](const Exp& e) { return both(e) && !e.trig; }); C.count("queries"); } }
        (void)und;
        // boxes
        if (!contactsMode(C)) for (int k = 0; k < 4; k++) { int i = r.pick(live); V c = center + rndBox(r, ext * 2), h(r.uniform(0.1, 2), r.uniform(.1, 2), r.uniform(.1, 2)); rp::AABB q(rv(c - h), rv(c + h)); bool any = false; for (auto& x : S.cols) if (x.body == i) { LocalBox bx = boundsOf(x.s.o, x.T); (void)bx; rp::AABB wb = x.c->getWorldAABB(); bool t = x.c->testAABBOverlap(q); bool m = wb.getMax().x >= q.getMin().x && wb.getMin().x <= q.getMax().x && wb.getMax().y >= q.getMin().y && wb.getMin().y <= q.getMax().y && wb.getMax().z >= q.getMin().z && wb.getMin().z <= q.getMax().z; C.eval(); if (t != m) C.fail("collider-box", "testAABBOverlap %d, boxes say %d", t, m); any |= m; }
            (void)any; }
    }
    if (C.caseIndex % 200 == 0) C.sample("case %ld: %zu bodies, %zu colliders, first %s", C.caseIndex, S.bodies.size(), S.cols.size(), S.cols.empty() ? "-" : S.cols[0].s.o.desc.c_str());
    S.pc.destroyPhysicsWorld(S.w);
}
int main(int argc, char** argv) { return vh::runMain(argc, argv, runCase); }
