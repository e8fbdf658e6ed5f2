// C28. Three kinds of cases: a monitor over random histories; twins in which one deactivates a body and the other destroys it (and later: activates it again / creates an equal one);
// twins in which one takes a body out and puts it back at once and the other only brings it to rest.
struct HitCB : rp::RaycastCallback { std::map<rp::Collider*, double> hits; decimal notifyRaycastHit(const rp::RaycastInfo& i) override { hits[i.collider] = double(i.hitFraction); return decimal(1); } };
struct NameO : rp::OverlapCallback { std::set<rp::Body*> named; void onOverlap(CallbackData& d) override { for (rp::uint32 k = 0; k < d.getNbOverlappingPairs(); k++) { named.insert(d.getOverlappingPair(k).getBody1()); named.insert(d.getOverlappingPair(k).getBody2()); } } };
struct NameC : rp::CollisionCallback { std::set<rp::Body*> named; void onContact(const CallbackData& d) override { for (rp::uint32 k = 0; k < d.getNbContactPairs(); k++) { named.insert(d.getContactPair(k).getBody1()); named.insert(d.getContactPair(k).getBody2()); } } };
static void rayCheck(vh::Ctx& C, Sim& s, int i, const char* what) { // the world's ray cast sees exactly the colliders of active bodies, each once
    auto& b = s.bodies[i]; if (b.cols.empty()) return; int c = C.rng.pick(b.cols); V at = ov(s.cols[c].c->getLocalToWorldTransform().getPosition()) + rndBox(C.rng, 0.2), d = rndUnit(C.rng) * 6.0; rp::Ray ray(rv(at + d), rv(at - d)); struct CB : HitCB { int dup = 0; decimal notifyRaycastHit(const rp::RaycastInfo& i) override { dup += int(hits.count(i.collider)); return HitCB::notifyRaycastHit(i); } } cb; s.w->raycast(ray, &cb);
    for (size_t k = 0; k < s.cols.size(); k++) if (s.cols[k].alive) { rp::RaycastInfo info; bool active = s.bodies[s.cols[k].body].b->isActive(), want = s.cols[k].c->getIsWorldQueryCollider() && s.cols[k].c->raycast(ray, info), got = cb.hits.count(s.cols[k].c); C.eval(); if (want) C.count("rays that hit a collider of an active body"); if (!active) C.count("rays checked against an inactive body's collider"); if (got && !active) C.fail("ray-inactive", "%s: a ray cast in the world hits collider %zu of an inactive body", what, k); if (got != want) C.fail("ray", "%s: a ray cast in the world %s collider %zu, a ray cast at the collider %s", what, got ? "hits" : "misses", k, want ? "hits" : "misses"); if (!active && want) C.fail("ray-collider", "%s: a ray hits a collider of an inactive body", what); }
    if (cb.dup) C.fail("ray-twice", "%s: a ray cast in the world reports a collider twice", what);
    rp::RaycastInfo info; if (!b.b->isActive() && b.b->raycast(ray, info)) C.fail("ray-body", "%s: a ray hits an inactive body", what);
}
static void nameCheck(vh::Ctx& C, Sim& s, const char* what) { NameO o; s.w->testOverlap(o); NameC c; s.w->testCollision(c); for (auto& b : s.bodies) if (b.alive && !b.b->isActive()) { C.eval(2); C.count("world queries checked for an inactive body"); if (o.named.count(b.b)) C.fail("overlap-inactive", "%s: an overlap test of the world reports an inactive body", what); if (c.named.count(b.b)) C.fail("collision-inactive", "%s: a collision test of the world reports an inactive body", what); }
    auto v = s.liveB(); for (int t = 0; t < 2 && v.size() > 1; t++) { int a = C.rng.pick(v), b = C.rng.pick(v); if (a == b || !s.bodies[b].b->isActive() || s.bodies[b].b->getType() == rp::BodyType::STATIC || s.bodies[b].b->isSleeping()) continue; NameO x; s.w->testOverlap(s.bodies[b].b, x); NameC y; s.w->testCollision(s.bodies[b].b, y); for (auto& q : s.bodies) if (q.alive && !q.b->isActive() && (x.named.count(q.b) || y.named.count(q.b))) C.fail("body-query", "%s: a query of one body reports an inactive body", what); } }
static Snap only(Sim& s, int x, bool motion) { Snap m; bodySnap(m, x, s.bodies[x].b); for (int c : s.bodies[x].cols) colSnap(m, c, s.cols[c].c); for (size_t j = 0; j < s.joints.size(); j++) if (s.joints[j].alive && (s.joints[j].b1 == x || s.joints[j].b2 == x)) jointSnap(m, int(j), s.joints[j]); if (!motion) for (const char* f : {"v", "w", "force", "torque", "asleep", "active"}) m.erase(K('b', x, f)); return m; }
static void diff(vh::Ctx& C, const Snap& a, const Snap& b, const char* key, const char* what) { C.eval(); if (a.size() != b.size()) C.fail(key, "%s: %zu values can be read, before %zu", what, b.size(), a.size()); for (auto& kv : a) { auto o = b.find(kv.first); C.eval(); if (o == b.end() || o->second != kv.second) C.fail(std::string(key) + ": " + kv.first.substr(kv.first.find('.') + 1), "%s: %s is %s, before %s", what, kv.first.c_str(), o == b.end() ? "gone" : show(o->second).c_str(), show(kv.second).c_str()); } }
static void watch(vh::Ctx& C) { // monitor
    vh::Rng& g = C.rng; PC pc; WOpt o; o.maxBodies = C.thorough ? 14 : 9; o.debug = false; o.strangeMass = o.zeroMass = o.staticJoints = false; Sim s(pc, g.next(), o); s.verbose = C.verbose; s.start(); s.populate(g.range(3, 7)); int n = C.thorough ? 120 : 40;
    for (int t = 0; t < n; t++) {
        for (int k = g.below(4); k > 0; k--) s.mutate();
        if (g.chance(0.4)) { auto v = s.liveB(); if (!v.empty()) { int x = g.pick(v); rp::RigidBody* b = s.bodies[x].b; Snap before = only(s, x, false); bool was = b->isActive(); int m = g.chance(0.7) ? 1 : g.range(2, 6); for (int q = 0; q < m; q++) { b->setIsActive(!b->isActive()); if (g.chance(0.2)) b->setIsActive(b->isActive()); }
            bool now = b->isActive(); C.eval(2); if (now != (was != (m % 2 == 1))) C.fail("flag", "after %d switches of a body it is %s", m, now ? "active" : "inactive"); diff(C, before, only(s, x, false), "lost", "after (de)activation"); if (now && b->isSleeping()) C.fail("asleep", "a body that was activated is asleep"); C.count(now ? "activations" : "deactivations");
            if (m > 1 || !was) if (og::len(ov(b->getLinearVelocity())) + og::len(ov(b->getAngularVelocity())) != 0 && !(b->getType() == rp::BodyType::STATIC)) if (now) { /* a velocity may have been set meanwhile */ } } }
        if (g.chance(0.5)) { auto v = s.liveB(); if (!v.empty()) rayCheck(C, s, g.pick(v), "between steps"); } if (g.chance(0.15)) nameCheck(C, s, "between steps");
        s.clampState(); std::map<int, rp::Transform> out; for (int i : s.liveB()) if (!s.bodies[i].b->isActive()) out.emplace(i, s.bodies[i].b->getTransform()); std::map<int, int> nc; for (auto& kv : out) nc[kv.first] = int(s.bodies[kv.first].cols.size());
        s.step(s.rndDt());
        for (auto& kv : out) { C.eval(); C.count("steps of an inactive body"); if (!(s.bodies[kv.first].b->getTransform() == kv.second)) C.fail("moved", "inactive body %d moved in a step", kv.first); if (s.bodies[kv.first].b->isActive()) C.fail("revived", "inactive body %d became active in a step", kv.first); if (!(s.bodies[kv.first].b->getForce() == rp::Vector3::zero()) || !(s.bodies[kv.first].b->getTorque() == rp::Vector3::zero())) C.fail("force-kept", "inactive body %d still has the force of before the step", kv.first); }
        for (auto& e : s.evs) { C.eval(); if (out.count(e.b1) || out.count(e.b2)) C.fail("event", "an inactive body is named in %s event", e.trigger ? "a trigger" : "a contact"); } for (auto& p : s.problems) C.fail("event-problem", "%s", p.c_str()); s.problems.clear(); C.count("events", double(s.evs.size())); C.seen(s.digest());
    }
    s.stop();
}
static int copyBody(Sim& A, int x, Sim& B) { // an equal body in the other world
    rp::RigidBody* a = A.bodies[x].b; int y = B.addBody(a->getTransform(), a->getType()); rp::RigidBody* b = B.bodies[y].b;
    for (int c : A.bodies[x].cols) { rp::Collider* p = A.cols[c].c; int d = B.addCollider(y, A.cols[c].shape, p->getLocalToBodyTransform()); rp::Collider* q = B.cols[d].c; q->setMaterial(p->getMaterial()); q->setCollisionCategoryBits(p->getCollisionCategoryBits()); q->setCollideWithMaskBits(p->getCollideWithMaskBits()); q->setIsSimulationCollider(p->getIsSimulationCollider()); if (p->getIsTrigger()) q->setIsTrigger(true); q->setIsWorldQueryCollider(p->getIsWorldQueryCollider()); }
    b->setMass(a->getMass()); b->setLocalInertiaTensor(a->getLocalInertiaTensor()); b->setLocalCenterOfMass(a->getLocalCenterOfMass()); b->setLinearDamping(a->getLinearDamping()); b->setAngularDamping(a->getAngularDamping()); b->setLinearLockAxisFactor(a->getLinearLockAxisFactor()); b->setAngularLockAxisFactor(a->getAngularLockAxisFactor()); b->enableGravity(a->isGravityEnabled()); b->setIsAllowedToSleep(a->isAllowedToSleep()); return y;
}
typedef std::set<std::vector<int>> Pairs;
static Pairs pairs(Sim& s, int x, int alias, bool types) { Pairs p; for (auto& e : s.evs) { if (!types && e.type == 2) continue; int a = e.b1 == x ? alias : e.b1, b = e.b2 == x ? alias : e.b2; if (a > b) std::swap(a, b); p.insert({e.trigger, a, b, types && a != alias && b != alias ? e.type : -1}); } return p; }
static double apart(Sim& A, Sim& B, int x, int y, std::string* who) { double m = 0; for (size_t i = 0; i < A.bodies.size(); i++) if (A.bodies[i].alive) { int k = int(i) == x ? y : int(i); if (k < 0) continue; if (k >= int(B.bodies.size()) || !B.bodies[k].alive) continue; double d = og::len(ov(A.bodies[i].b->getTransform().getPosition()) - ov(B.bodies[k].b->getTransform().getPosition())); if (d > m) { m = d; if (who) { char t[80]; snprintf(t, sizeof t, "body %zu%s", i, int(i) == x ? " (itself)" : ""); *who = t; } } } return m; }
struct Calm { std::map<int, V> v, x; bool ok(Sim& s) { bool r = true; for (size_t i = 0; i < s.bodies.size(); i++) if (s.bodies[i].alive) { V a = ov(s.bodies[i].b->getLinearVelocity()), w = ov(s.bodies[i].b->getAngularVelocity()); auto it = v.find(int(i)); if (og::len(a) > 8 || og::len(w) > 15 || (it != v.end() && og::len(a - it->second) > 1.5)) r = false; V c = ov(s.bodies[i].b->getTransform() * s.bodies[i].b->getLocalCenterOfMass()); auto ix = x.find(int(i)); if (ix != x.end() && og::len(c - ix->second - a * (1 / 60.0)) > 0.01) r = false; x[int(i)] = c; v[int(i)] = a; } return r; } }; // violent scenes are chaotic: not compared
static std::map<std::string, std::pair<long, long>> gTwin;   // where the solver does not converge the two may part; judged by the share of the histories
static void twins(vh::Ctx& C, bool toggle) {
    vh::Rng& g = C.rng; PC pa, pb; WOpt o; o.maxBodies = 8; o.debug = false; o.strangeMass = o.zeroMass = o.staticJoints = false; o.maxJoints = 2; o.worldOps = false; uint64_t sd = g.next(); Sim A(pa, sd, o), B(pb, sd, o); A.verbose = C.verbose; A.start(); B.start(); int n = g.range(3, 7); A.populate(n); B.populate(n); for (Sim* q : {&A, &B}) { q->w->setNbIterationsVelocitySolver(40); q->w->setNbIterationsPositionSolver(20); }
    int rounds = g.range(5, 40); double dt = 1 / 60.0; for (int t = 0; t < rounds; t++) { if (g.chance(0.4)) { A.mutate(); B.mutate(); } A.step(dt); B.step(dt); }
    A.evs.clear(); if (apart(A, B, -1, -1, nullptr) != 0) C.fail("twins", "twin worlds differ"); /* determinism: C03 */
    std::vector<int> v; for (int i : A.liveB()) if (A.bodies[i].b->isActive() && !A.bodies[i].cols.empty()) v.push_back(i); if (v.empty()) { C.count("histories without an active body"); A.stop(); B.stop(); return; }
    int x = g.pick(v); for (int t = 0; t < 4; t++) { bool ev = false; for (auto& e : B.evs) ev |= e.b1 == x || e.b2 == x; if (ev) break; x = g.pick(v); } // rather one in contact
    bool joints = false; for (auto& j : A.joints) joints |= j.alive && (j.b1 == x || j.b2 == x); rp::RigidBody* X = A.bodies[x].b; Snap before = only(A, x, false); C.eval(); std::string who; int steps = g.range(1, 12); bool contact = false; for (auto& e : B.evs) contact |= e.b1 == x || e.b2 == x;
    if (toggle) steps = g.range(5, 30); Calm calm; bool go = calm.ok(B); auto cmp = [&](int y, int k, const char* key, const char* what) { go = go && calm.ok(B); if (!go) { C.count("steps of violent scenes, not compared"); return; } C.count("steps compared"); double d = apart(A, B, x, y, &who), lim = toggle ? 0.1 + 0.01 * k : 0.02; C.eval(); C.maxi((std::string("distance of ") + key + ", share of the tolerance").c_str(), d / lim); auto& gt = gTwin[key]; if (k == 1) gt.first++; if (d > lim) { go = false; gt.second++; C.count("histories whose twin worlds part"); } if (d > lim && gt.second > 3 && gt.second > gt.first * (toggle ? 0.03 : 0.01)) C.fail(key, "%s: after %d steps %s is %g away from where it is in the world of comparison", what, k, who.c_str(), d); };
    if (toggle) { int m = g.chance(0.6) ? 1 : g.range(2, 5); for (int q = 0; q < m; q++) { X->setIsActive(false); X->setIsActive(true); } rp::RigidBody* Y = B.bodies[x].b; if (Y->getType() != rp::BodyType::STATIC) { Y->setIsSleeping(true); Y->setIsSleeping(false); } for (int i : A.liveB()) { for (Sim* s : {&A, &B}) { auto* b = s->bodies[i].b; if (b->isActive() && b->getType() != rp::BodyType::STATIC) b->setIsSleeping(false); } }
        diff(C, before, only(A, x, false), "lost", "after deactivation and activation"); C.count("bodies taken out and put back at once"); if (joints) C.count("... with joints"); if (contact) C.count("... in contact");
        for (int k = 1; k <= steps; k++) { A.step(dt); B.step(dt); if (k == 1) { C.eval(); if (pairs(A, x, -9, false) != pairs(B, x, -9, false)) C.fail("toggle-events", "a body was taken out and put back: other pairs are reported than without"); } cmp(x, k, "toggle", "a body was taken out and put back"); } A.stop(); B.stop(); return; }
    X->setIsActive(false); B.destroyBody(x); C.count("bodies deactivated / destroyed"); if (joints) C.count("... with joints"); if (contact) C.count("... in contact"); A.clampState(); std::vector<double> T0 = dt7(X->getTransform());
    if (g.chance(0.3)) { X->applyWorldForceAtCenterOfMass(rv(rndBox(g, 50))); X->applyWorldTorque(rv(rndBox(g, 50))); C.count("forces applied to an inactive body"); }
    for (int k = 1; k <= steps; k++) { A.step(dt); B.step(dt); if (k == 1) { Pairs p = pairs(A, x, -9, true), q = pairs(B, x, -9, true); C.eval(); if (p != q) C.fail("out-events", "after a deactivation other events are reported than after the destruction of the body"); } cmp(-1, k, "out", "a body was deactivated here and destroyed there"); if (dt7(X->getTransform()) != T0) C.fail("moved", "an inactive body moved"); }
    if (joints) { A.stop(); B.stop(); return; }
    if (g.chance(0.3)) { auto t = A.rndT(g, 3); X->setTransform(t); before = only(A, x, false); } X->setIsActive(true); diff(C, before, only(A, x, false), "lost", "after deactivation and activation"); int y = copyBody(A, x, B); C.count("bodies activated again / created"); for (int k : {0, 1}) { V q = ov(k ? X->getAngularVelocity() : X->getLinearVelocity()); C.eval(); if (og::len(q) != 0) C.fail("not-at-rest", "a body that was activated has a velocity"); }
    B.bodies[y].b->setIsSleeping(false); bool equal = apart(A, B, x, y, nullptr) == 0; steps = g.range(1, 12);
    for (int k = 1; k <= steps; k++) { A.step(dt); B.step(dt); if (k == 1) { C.eval(); if (equal && pairs(A, x, -9, false) != pairs(B, y, -9, false)) C.fail("back-events", "after an activation other pairs are reported than after the creation of an equal body"); for (auto& e : A.evs) if ((e.b1 == x || e.b2 == x) && e.type != 0) C.fail("back-start", "the first contact of a body that was activated again is not a start"); } cmp(y, k, "back", "a body was activated again here and created there"); }
    A.stop(); B.stop();
}
static void active(vh::Ctx& C) { double k = C.rng.unit(); if (k < 0.4) watch(C); else twins(C, k > 0.8); }
