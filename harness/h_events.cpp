// C10: the stream of contact and trigger events against the geometry of each step.  C11 (mode "filter"): who may interact with whom.
#include "world.h"
#include <set>
typedef std::pair<int, int> P2;
static const double TOL = DBL ? 1e-3 : 4e-3;
static long gChecks = 0, gWrong = 0;     // detection of polyhedra is floating point: isolated misses are judged by their share

// exact local shape of the collider as the engine has it now
static void resizeOne(Sim& s, vh::Rng& r) {
    auto v = s.liveS(); if (v.empty()) return; Sh& h = s.shapes[r.pick(v)].sh; double a = r.uniform(0.4, 1.2);
    if (h.k == SK::Sphere) { static_cast<rp::SphereShape*>(h.s)->setRadius(decimal(a)); h.o = og::sphere(rd(a)); h.R = rd(a); }
    else if (h.k == SK::Box) { V e(a, r.uniform(0.4, 1.2), r.uniform(0.4, 1.2)); static_cast<rp::BoxShape*>(h.s)->setHalfExtents(rv(e)); h.o = og::box(rdv(e)); h.R = boundR(h.o); }
    else if (h.k == SK::Capsule) { double ht = r.uniform(0.4, 2); static_cast<rp::CapsuleShape*>(h.s)->setRadius(decimal(a * 0.6)); static_cast<rp::CapsuleShape*>(h.s)->setHeight(decimal(ht)); h.o = og::capsule(rd(decimal(a * 0.6)), rd(ht)); h.R = boundR(h.o); }
}
static int verdict(Sim& s, int i, int j) {   // 1 intersecting, -1 apart, 0 too close to call
    Sh &a = s.shapes[s.cols[i].shape].sh, &b = s.shapes[s.cols[j].shape].sh; Pose A = op(s.cols[i].c->getLocalToWorldTransform()), B = op(s.cols[j].c->getLocalToWorldTransform());
    if (og::len(A.p - B.p) > a.R + b.R + 0.1) return -1;
    og::Gap g = gapAny(a.o, A, b.o, B); double m = 1.5 * TOL * std::max(1.0, 0.5 * (a.R + b.R)) * (1 + 0.01 * (og::len(A.p) + og::len(B.p)));
    // a convex body against a surface: a pair that overlaps by a bare touch of one triangle is left alone
    if (!a.concave() && !b.concave()) { if (g.hi < -m) return 1; if (g.lo > m) return -1; return 0; }
    if (g.hi < -2 * m) return 1; if (g.lo > m) return -1; return 0;
}
struct Snap { int v; bool adm, enabled, trig; };
static bool disabledBody(Sim::BodyRec& b) { return b.b->getType() == rp::BodyType::STATIC || b.b->isSleeping() || !b.b->isActive(); }

static void runEvents(vh::Ctx& C) {
    PC pc; WOpt o; o.ext = C.rng.uniform(1.5, 4); o.maxBodies = C.thorough && C.rng.chance(0.3) ? 24 : 12; o.filterOps = false; o.debug = false; o.resize = false; o.jointNoCollision = C.rng.chance(0.5); o.zeroMass = false;
    o.hulls = C.rng.chance(0.6); o.concave = C.rng.chance(0.6); o.joints = C.rng.chance(0.5); o.setType = C.rng.chance(0.7); o.activeOps = C.rng.chance(0.7); o.sleepOps = C.rng.chance(0.7); o.destroy = C.rng.chance(0.8);
    Sim s(pc, C.rng.next(), o); s.verbose = C.verbose; s.start(); s.populate(C.rng.range(3, 9));
    if (C.rng.chance(0.4)) { s.w->setTimeBeforeSleep(decimal(0.2)); s.w->setSleepLinearVelocity(decimal(0.3)); s.w->setSleepAngularVelocity(decimal(0.5)); }
    std::set<P2> inside; std::set<P2> mayExit; // mayExit: the pair ceased to exist in a way that need not be reported
    std::map<P2, int> wrongRun; bool filt = C.rng.chance(0.4);
    int rounds = C.rng.range(15, C.thorough ? 120 : 45); double pm = C.rng.pick(std::vector<double>{0.1, 0.5, 1.5});
    std::string last;
    for (int k = 0; k < rounds; k++) {
        std::vector<int> before; for (auto& b : s.bodies) before.push_back(b.alive && b.b->isActive());
        std::set<int> colsBefore; for (int c : s.liveC()) colsBefore.insert(c);
        double m = pm; while (m > 0 && (m >= 1 || C.rng.chance(m))) { m -= 1;
            if (C.rng.chance(0.08)) resizeOne(s, C.rng); else s.mutate();
            // bodies that were made inactive, and colliders that are gone, leave their pairs behind silently
            for (auto it = inside.begin(); it != inside.end();) { auto& a = s.cols[it->first]; auto& b = s.cols[it->second]; bool gone = !a.alive || !b.alive; if (!gone) gone = !s.bodies[a.body].b->isActive() || !s.bodies[b.body].b->isActive(); if (gone) it = inside.erase(it); else ++it; }
        }
        if (filt) for (int c : s.liveC()) if (!colsBefore.count(c) || C.rng.chance(0.02)) { s.cols[c].c->setCollisionCategoryBits((unsigned short)(C.rng.chance(0.6) ? 1 << C.rng.below(3) : 1 + C.rng.below(15))); s.cols[c].c->setCollideWithMaskBits((unsigned short)(C.rng.chance(0.4) ? 0xFFFF : C.rng.below(8))); if (C.verbose) printf("  filter %d %x %x\n", c, s.cols[c].c->getCollisionCategoryBits(), s.cols[c].c->getCollideWithMaskBits()); }
        s.clampState();
        // what the step will see
        std::map<P2, Snap> snap; std::vector<int> lc = s.liveC();
        std::set<P2> noColl; for (auto& j : s.joints) if (j.alive && !j.coll) noColl.insert({std::min(j.b1, j.b2), std::max(j.b1, j.b2)});
        for (size_t x = 0; x < lc.size(); x++) for (size_t y = x + 1; y < lc.size(); y++) {
            auto &a = s.cols[lc[x]], &b = s.cols[lc[y]]; if (a.body == b.body) continue; auto &A = s.bodies[a.body], &B = s.bodies[b.body]; Snap q;
            auto part = [](rp::Collider* c) { return c->getIsSimulationCollider() || c->getIsTrigger(); };
            q.adm = A.b->isActive() && B.b->isActive() && part(a.c) && part(b.c) && !(s.shapes[a.shape].sh.concave() && s.shapes[b.shape].sh.concave()) && (a.c->getCollisionCategoryBits() & b.c->getCollideWithMaskBits()) && (b.c->getCollisionCategoryBits() & a.c->getCollideWithMaskBits()) && !noColl.count({std::min(a.body, b.body), std::max(a.body, b.body)});
            q.enabled = !disabledBody(A) || !disabledBody(B); q.trig = a.c->getIsTrigger() || b.c->getIsTrigger();
            q.v = q.enabled ? verdict(s, lc[x], lc[y]) : 0; if (q.enabled) C.eval();
            snap[{lc[x], lc[y]}] = q;
        }
        s.step(s.rndDt());
        if (C.verbose) for (auto& e : s.evs) printf("    event %s %d-%d type %d pts %zu\n", e.trigger ? "trigger" : "contact", e.c1, e.c2, e.type, e.pts.size());
        for (auto& p : s.problems) C.fail("event-object", "step %d: %s", k, p.c_str()); s.problems.clear();
        std::map<P2, const Ev*> got;
        for (auto& e : s.evs) {
            P2 p(std::min(e.c1, e.c2), std::max(e.c1, e.c2)); if (e.c1 < 0 || e.c2 < 0) continue;
            if (s.cols[e.c1].body != e.b1 || s.cols[e.c2].body != e.b2) C.fail("event-body", "step %d pair %d-%d: bodies %d %d are not the owners", k, e.c1, e.c2, e.b1, e.b2);
            if (got.count(p)) C.fail("event-twice", "step %d: pair %d-%d has two events (%d and %d)", k, p.first, p.second, got[p]->type, e.type); got[p] = &e;
            if (!e.trigger && e.type != 2 && e.pts.empty()) C.fail("event-no-point", "step %d: contact %d-%d without contact point", k, p.first, p.second);
            if (!snap.count(p)) C.fail("event-pair", "step %d: event for the pair %d-%d of one body", k, p.first, p.second);
        }
        for (auto& kv : snap) {
            P2 p = kv.first; Snap& q = kv.second; bool was = inside.count(p) > 0; auto it = got.find(p); int ty = it == got.end() ? -1 : it->second->type; const char* tn[] = {"start", "stay", "exit", "nothing"}; const char* t = tn[ty < 0 ? 3 : ty];
            auto &a = s.cols[p.first], &b = s.cols[p.second]; auto say = [&](const char* key, const char* msg) { C.fail(key, "step %d pair %d-%d (%s, %s; bodies %d type %d, %d type %d): %s, got %s%s, %s before", k, p.first, p.second, s.shapes[a.shape].sh.o.desc.substr(0, 40).c_str(), s.shapes[b.shape].sh.o.desc.substr(0, 40).c_str(), a.body, int(s.bodies[a.body].b->getType()), b.body, int(s.bodies[b.body].b->getType()), msg, t, ty >= 0 && it->second->trigger ? " (trigger)" : "", was ? "touching" : "apart"); };
            if (ty >= 0) { C.count(std::string(it->second->trigger ? "trigger " : "contact ") + t); if (it->second->trigger != q.trig && !(ty == 2 && !q.adm)) say("event-callback", q.trig ? "a trigger's event came as a contact" : "a contact came as a trigger event");
                C.seen(vh::mix(vh::mix(uint64_t(ty) * 2 + it->second->trigger, vh::hashStr(s.shapes[a.shape].sh.o.desc)), vh::hashBytes(&s.eh.h, 8))); }
            if (ty == 0 && was) say("event-restart", "start of a pair that touched before"); if ((ty == 1 || ty == 2) && !was) say("event-not-started", "stay or exit of a pair that did not touch");
            if (!q.enabled) { if (ty == 0 || ty == 1) say("event-disabled", "both bodies are static, asleep or inactive"); if (ty == 2 && was && q.adm) C.count("exit of a disabled pair"); }
            else if (!q.adm) { if (ty == 0 || ty == 1) say("event-inadmissible", "this pair must not interact"); else if (was && ty != 2) say("event-missing-exit", "the pair may no longer interact"); }
            else if (q.v) { gChecks++;
                bool wrong = q.v > 0 ? (ty != 0 && ty != 1) : (ty == 0 || ty == 1 || (was && ty != 2));
                if (wrong) { gWrong++; C.count("isolated misjudgments"); if (C.verbose) { og::Gap g = gapAny(s.shapes[a.shape].sh.o, op(a.c->getLocalToWorldTransform()), s.shapes[b.shape].sh.o, op(b.c->getLocalToWorldTransform())); printf("  gap after the step %g..%g\n", g.lo, g.hi); say("x", q.v > 0 ? "they intersect" : "they are apart"); } if (++wrongRun[p] >= 3 || (gWrong > 2 && gWrong > gChecks * 0.00005)) say(q.v > 0 ? "event-missing" : "event-spurious", q.v > 0 ? "they intersect" : "they are apart"); } else wrongRun.erase(p); }
            if (ty == 0 || ty == 1) inside.insert(p); else if (ty == 2) inside.erase(p);
        }
    }
    if (s.nEvents) C.sample("%ld events with %ld points over %ld steps of %zu bodies", s.nEvents, s.nContactPts, s.nSteps, s.bodies.size());
    s.stop();
}

// ---- C11: two bodies, every combination of the settings that decide whether they interact ----
struct OCB : rp::OverlapCallback { std::set<P2> got; Sim* s; void onOverlap(CallbackData& d) override { for (rp::uint32 i = 0; i < d.getNbOverlappingPairs(); i++) { auto p = d.getOverlappingPair(i); int a = s->colId(p.getCollider1()), b = s->colId(p.getCollider2()); got.insert({std::min(a, b), std::max(a, b)}); } } };
struct CCB : rp::CollisionCallback { std::set<P2> got; Sim* s; void onContact(const CallbackData& d) override { for (rp::uint32 i = 0; i < d.getNbContactPairs(); i++) { auto p = d.getContactPair(i); int a = s->colId(p.getCollider1()), b = s->colId(p.getCollider2()); got.insert({std::min(a, b), std::max(a, b)}); } } };
struct RCB : rp::RaycastCallback { std::set<int> got; Sim* s; decimal notifyRaycastHit(const rp::RaycastInfo& i) override { got.insert(s->colId(i.collider)); return decimal(1); } };
static void runFilter(vh::Ctx& C) {
    PC pc; WOpt o; Sim s(pc, C.rng.next(), o); vh::Rng& r = C.rng; s.start(); s.w->setIsGravityEnabled(false); bool conc = r.chance(0.15);
    struct B { rp::BodyType t; int role; bool q; unsigned short cat, mask; bool active; int body, col; bool conc; } b[2]; V dir = rndUnit(r);
    auto settle = [&](int i, bool all) { rp::Collider* c = s.cols[b[i].col].c;
        if (all || r.chance(0.5)) { b[i].role = r.pick(std::vector<int>{0, 0, 0, 0, 0, 1, 1, 2}); if (b[i].role == 0) c->setIsSimulationCollider(true); else if (b[i].role == 1) c->setIsTrigger(true); else { c->setIsTrigger(false); c->setIsSimulationCollider(false); } }
        if (all || r.chance(0.5)) { b[i].q = r.chance(0.75); c->setIsWorldQueryCollider(b[i].q); }
        if (all || r.chance(0.5)) { bool open = r.chance(0.75); b[i].cat = open ? 1 : (unsigned short)(r.chance(0.6) ? 1 << r.below(16) : r.below(65536)); b[i].mask = open ? 0xFFFF : (unsigned short)(r.chance(0.3) ? (1 << r.below(16)) | 1 : r.below(65536)); if (r.chance(0.5)) { c->setCollisionCategoryBits(b[i].cat); c->setCollideWithMaskBits(b[i].mask); } else { c->setCollideWithMaskBits(b[i].mask); c->setCollisionCategoryBits(b[i].cat); } }
        if (all || r.chance(0.5)) { b[i].t = b[i].conc ? rp::BodyType::STATIC : rp::BodyType(r.below(3)); s.bodies[b[i].body].b->setType(b[i].t); }
        if (all || r.chance(0.5)) { b[i].active = r.chance(0.92); s.bodies[b[i].body].b->setIsActive(b[i].active); } };
    for (int i = 0; i < 2; i++) {
        Sim::ShapeRec sr; b[i].conc = i == 1 && conc; sr.sh = b[i].conc ? rndShape(pc, r, 1.0, {SK::Mesh, SK::Field}) : rndShape(pc, r, 1.0, convexKinds()); if (!sr.sh.s) return; s.shapes.push_back(sr);
        b[i].body = s.addBody(rt(dir * (i ? 10 : -10), rndOrient(r)), b[i].conc ? rp::BodyType::STATIC : rp::BodyType::DYNAMIC); b[i].col = s.addCollider(b[i].body, i, rp::Transform::identity());
        settle(i, true);
    }
    if (r.chance(0.3)) { s.w->update(decimal(0.01)); for (int i = 0; i < 2; i++) settle(i, false); }
    bool ray = true; int jn = r.chance(0.25) ? r.range(1, 2) : 0; std::vector<rp::Joint*> js; bool alone = false;
    // where they meet: brought together by the user, so that they overlap (judged by the exact geometry)
    Sh &A = s.shapes[0].sh, &Bs = s.shapes[1].sh; rp::RigidBody *x = s.bodies[0].b, *y = s.bodies[1].b; double size = std::min(A.R, Bs.R);
    V c2 = Bs.concave() ? (Bs.o.tris[Bs.o.tris.size() / 2][0] + Bs.o.tris[Bs.o.tris.size() / 2][1] + Bs.o.tris[Bs.o.tris.size() / 2][2]) / 3 : V();
    rp::Transform tx = rt(rndBox(r, 2), rndOrient(r)), ty = rt(V(), rndOrient(r)); ty.setPosition(tx.getPosition() - ty.getOrientation() * rv(c2) + rv(rndUnit(r) * size * r.uniform(0.05, 0.4)));
    auto addJoint = [&]() { rp::FixedJointInfo info(x, y, x->getTransform().getPosition()); info.isCollisionEnabled = alone; js.push_back(s.w->createJoint(info)); };
    bool ownJoint = jn && b[0].t != rp::BodyType::STATIC; alone = ownJoint && r.chance(0.4);   // joints that allow collisions change nothing
    if (ownJoint) while (int(js.size()) < jn) addJoint();
    int gone = 0; if (ownJoint && r.chance(0.5)) { if (r.chance(0.5)) s.w->update(decimal(0.01)); while (!js.empty() && (gone == 0 || r.chance(0.5))) { s.w->destroyJoint(js.back()); js.pop_back(); gone++; } if (r.chance(0.5)) { s.w->update(decimal(0.01)); } }
    bool noColl = !js.empty() && !alone;
    for (int round = r.range(1, 4); round > 0; round--) {
    x->setTransform(tx); y->setTransform(ty); if (r.chance(0.5)) { y->setTransform(ty); x->setTransform(tx); }
    V rel = ov(tx.getPosition()) - ov(ty.getPosition()); V cx = ov(x->getWorldPoint(x->getLocalCenterOfMass())), cy = ov(y->getWorldPoint(y->getLocalCenterOfMass()));
    rp::Vector3 vx = rv(rndBox(r, 1)), vy = rv(rndBox(r, 1)); rp::Vector3 wx = rv(rndBox(r, 1)), wy = rv(rndBox(r, 1));
    auto setVel = [&]() { x->setLinearVelocity(vx); x->setAngularVelocity(wx); y->setLinearVelocity(vy); y->setAngularVelocity(wy); }; setVel();
    for (int i = 0; i < 2; i++) s.bodies[b[i].body].b->setIsAllowedToSleep(false);
    og::Gap g = gapAny(A.o, op(s.cols[0].c->getLocalToWorldTransform()), Bs.o, op(s.cols[1].c->getLocalToWorldTransform())); bool overlap = g.hi < -0.02;
    bool cats = (b[0].cat & b[1].mask) && (b[1].cat & b[0].mask), act = b[0].active && b[1].active, moves = b[0].t != rp::BodyType::STATIC || b[1].t != rp::BodyType::STATIC;
    bool adm = cats && act && !noColl && overlap; auto part = [&](int i) { return b[i].role != 2; }; bool inter = adm && moves && part(0) && part(1), trig = b[0].role == 1 || b[1].role == 1;
    auto cfg = [&](char* buf) { snprintf(buf, 300, "types %d %d roles %d %d query %d %d cat/mask %x/%x %x/%x active %d %d joints %zu (destroyed %d) gap %g", int(b[0].t), int(b[1].t), b[0].role, b[1].role, b[0].q, b[1].q, b[0].cat, b[0].mask, b[1].cat, b[1].mask, b[0].active, b[1].active, js.size(), gone, g.hi); }; char buf[300]; cfg(buf);
    if (overlap) C.seen(vh::mix(vh::hashStr(std::string(buf).substr(0, 60)), vh::hashBytes(&rel.x, 8)));
    C.eval(); C.count(inter ? trig ? "trigger pairs" : "interacting pairs" : overlap ? "overlapping pairs that must not interact" : "pairs apart");
    // queries
    if (overlap) {
        bool exp = adm && b[0].q && b[1].q && moves;   // two bodies that are both static are a known finding of C08
        OCB oc; oc.s = &s; s.w->testOverlap(oc); CCB cc; cc.s = &s; s.w->testCollision(cc); bool tb = s.w->testOverlap(x, y); C.eval(3);
        if (!(adm && b[0].q && b[1].q && !moves)) {
            if (oc.got.count({0, 1}) != exp) C.fail("query-overlap", "overlap query: %d, expected %d; %s", int(oc.got.count({0, 1})), exp, buf);
            if (tb != exp) C.fail("query-overlap-pair", "overlap test of the two bodies: %d, expected %d; %s", tb, exp, buf);
            if (cc.got.count({0, 1}) != (exp && !trig)) C.fail("query-collision", "collision query: %d, expected %d; %s", int(cc.got.count({0, 1})), exp && !trig, buf);
        }
    }
    for (int i = 0; i < 2 && ray; i++) if (!b[i].conc) { // through the inside of the shape
        V in = i ? ov(ty.getPosition()) : ov(tx.getPosition()); if (s.shapes[i].sh.k != SK::Sphere && s.shapes[i].sh.k != SK::Box && s.shapes[i].sh.k != SK::Capsule) { V cc; for (V p : s.shapes[i].sh.o.pts) cc += p; cc = cc / double(s.shapes[i].sh.o.pts.size()); in = op(s.cols[i].c->getLocalToWorldTransform()) * cc; }
        V d = rndUnit(r) * 8; unsigned short m = r.chance(0.5) ? 0xFFFF : (unsigned short)r.below(65536); RCB rc; rc.s = &s; s.w->raycast(rp::Ray(rv(in - d), rv(in + d)), &rc, m); bool exp = b[i].active && b[i].q && (m & b[i].cat); C.eval();
        if (rc.got.count(i) != exp) C.fail("query-ray", "ray through the middle of body %d with mask %x: %d, expected %d; %s", i, m, int(rc.got.count(i)), exp, buf); }
    // the step
    if (s.problems.size()) C.fail("event-object", "%s", s.problems[0].c_str());
    decimal dt = decimal(1.0 / 60); auto stBefore = [&](rp::RigidBody* z) { return std::make_pair(z->getLinearVelocity(), z->getAngularVelocity()); }; auto v0x = stBefore(x), v0y = stBefore(y); bool jointed = !js.empty(); V p0x = ov(x->getTransform().getPosition()), p0y = ov(y->getTransform().getPosition()); (void)p0x; (void)p0y;
    s.evs.clear(); s.inStep = true; s.w->update(dt); s.inStep = false;
    const Ev* ev = nullptr; for (auto& e : s.evs) if (e.type != 2) ev = &e;
    if (!overlap) { s.stop(); return; }
    if ((ev != nullptr) != inter) C.fail(inter ? "filter-missing" : "filter-event", "%s; %s", inter ? "no event for an admissible pair" : "event for a pair that must not interact", buf);
    if (ev && ev->trigger != trig) C.fail("filter-callback", "%s", buf);
    bool moved = stBefore(x).first != v0x.first || stBefore(x).second != v0x.second || stBefore(y).first != v0y.first || stBefore(y).second != v0y.second; bool response = inter && !trig;
    if (!jointed && !response && moved) C.fail("filter-response", "velocity changed without an admissible contact: %s %s; %s", vs(v0x.first).c_str(), vs(stBefore(x).first).c_str(), buf);
    // an admissible pair pushes apart: overlapping bodies at rest are separated (position correction) or their approach is stopped
    if (response && !jointed && ev && (b[0].t == rp::BodyType::DYNAMIC || b[1].t == rp::BodyType::DYNAMIC)) {
        double worst = -1e300, before = -1e300; // approach speed over the contact points after and before the step
        for (auto& q : ev->pts) { bool f = ev->c1 == 0; Pose Tx = op(tx), Ty = op(ty); V gx = Tx * ov(x->getLocalCenterOfMass()), gy = Ty * ov(y->getLocalCenterOfMass()), n = ov(q.n) * (f ? 1 : -1), ax = Tx * ov(f ? q.p1 : q.p2), ay = Ty * ov(f ? q.p2 : q.p1);
            auto app = [&](V lx, V ox, V ly, V oy) { return -og::dot(ly + og::cross(oy, ay - gy) - lx - og::cross(ox, ax - gx), n); };
            worst = std::max(worst, app(ov(x->getLinearVelocity()), ov(x->getAngularVelocity()), ov(y->getLinearVelocity()), ov(y->getAngularVelocity()))); before = std::max(before, app(ov(v0x.first), ov(v0x.second), ov(v0y.first), ov(v0y.second))); }
        if (C.verbose) { for (auto& q : ev->pts) printf("  ev %d-%d n %g %g %g depth %g p1 %g %g %g\n", ev->c1, ev->c2, double(q.n.x), double(q.n.y), double(q.n.z), double(q.depth), double(q.p1.x), double(q.p1.y), double(q.p1.z)); for (auto z : {x, y}) printf("  body type %d v %s w %s mass %g inertia %s sleeping %d com %s\n", int(z->getType()), vs(z->getLinearVelocity()).c_str(), vs(z->getAngularVelocity()).c_str(), double(z->getMass()), vs(z->getLocalInertiaTensor()).c_str(), z->isSleeping(), vs(z->getLocalCenterOfMass()).c_str()); printf("  v0 %s %s\n", vs(v0x.first).c_str(), vs(v0x.second).c_str()); }
        if (before > 0.3) { C.maxi("approach speed left at an admissible contact, share of the speed before", worst / before); C.count("responses judged");
            if (worst > 0.98 * before) C.fail("filter-no-response", "approach speed %g before and %g after a step of two bodies in contact; %s", before, worst, buf); }
    }
    if (r.chance(0.3)) C.sample("%s: %s", buf, inter ? trig ? "trigger event" : "contact" : "no interaction");
    // settings may also be changed while both bodies are asleep
    bool nap = round > 1 && r.chance(0.4); if (nap) { x->setIsSleeping(true); y->setIsSleeping(true); } auto upd = [&]() { s.inStep = true; s.w->update(dt); s.inStep = false; }; if (nap && r.chance(0.8)) upd(); if (nap) C.count("settings changed while asleep");
    if (round > 1) { for (int i = 0; i < 2; i++) settle(i, false); if (nap) { if (r.chance(0.5)) { x->setIsSleeping(true); y->setIsSleeping(true); } for (int k = r.range(0, 2); k > 0; k--) upd(); } if (!js.empty() && r.chance(0.3)) { s.w->destroyJoint(js.back()); js.pop_back(); gone++; noColl = !js.empty() && !alone; } }
    }
    s.stop();
}
int main(int argc, char** argv) { return vh::runMain(argc, argv, [](vh::Ctx& C) { if (C.mode == "filter") runFilter(C); else runEvents(C); }); }
