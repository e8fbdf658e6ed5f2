// C19: sleeping. Worlds that come to rest and are disturbed; monitors on falling asleep, staying asleep and waking up.
#include "dyn.h"
#include <set>
struct Bd { rp::RigidBody* b = nullptr; rp::Collider* c = nullptr; Sh s; bool alive = true, asleep = false; double low = 0, sure = 0; rp::Transform T; int birth = 0; };
struct Jt { rp::Joint* j; rp::JointType t; int a, b; bool alive = true; };
struct W : rp::EventListener {
    std::vector<Bd> bs; std::vector<Jt> js; std::set<std::pair<int, int>> now, touching; long events = 0;
    int id(rp::Body* b) { return pid(b->getUserData()); }
    void onContact(const rp::CollisionCallback::CallbackData& d) override { for (uint32_t i = 0; i < d.getNbContactPairs(); i++) { auto p = d.getContactPair(i); int a = id(p.getBody1()), b = id(p.getBody2()); auto k = std::make_pair(std::min(a, b), std::max(a, b)); events++; if (p.getEventType() == rp::CollisionCallback::ContactPair::EventType::ContactExit) touching.erase(k); else { now.insert(k); touching.insert(k); } } }
};
static bool mobile(const Bd& b) { return b.alive && b.b->isActive() && b.b->getType() != rp::BodyType::STATIC; }
static void world(vh::Ctx& C) {
    vh::Rng& g = C.rng; PC pc; W W_; auto& bs = W_.bs; auto& js = W_.js; rp::PhysicsWorld::WorldSettings ws; double dt = g.chance(0.7) ? 1 / 60.0 : g.uniform(0.004, 0.02); double T = g.chance(0.3) ? 1.0 : g.uniform(0.1, 0.8); if (T < 4 * dt) T = 4 * dt; double vl = g.chance(0.5) ? 0.02 : g.uniform(0.01, 0.15), wl = g.chance(0.5) ? 0.0523599 : g.uniform(0.02, 0.3); bool enabled = g.chance(0.85);
    ws.defaultTimeBeforeSleep = decimal(T); ws.defaultSleepLinearVelocity = decimal(vl); ws.defaultSleepAngularVelocity = decimal(wl); ws.isSleepingEnabled = enabled; bool late = g.chance(0.3); if (late) ws = rp::PhysicsWorld::WorldSettings(); auto* w = pc.createPhysicsWorld(ws); if (late) { w->setTimeBeforeSleep(decimal(T)); w->setSleepLinearVelocity(decimal(vl)); w->setSleepAngularVelocity(decimal(wl)); w->enableSleeping(enabled); } w->setEventListener(&W_); w->setNbIterationsVelocitySolver((unsigned short)g.range(8, 15));
    if (std::fabs(double(w->getTimeBeforeSleep()) - T) > 1e-6 || std::fabs(double(w->getSleepLinearVelocity()) - vl) > 1e-6 || std::fabs(double(w->getSleepAngularVelocity()) - wl) > 1e-6 || w->isSleepingEnabled() != enabled) C.fail("settings", "sleep settings read back differ from those given");
    auto add = [&](Sh s, V p, Q q, rp::BodyType t) { int i = int(bs.size()); Bd b; b.s = s; b.b = w->createRigidBody(rt(p, q)); b.b->setType(t); b.c = b.b->addCollider(s.s, rp::Transform::identity()); b.c->getMaterial().setBounciness(decimal(g.uniform(0, 0.2))); b.c->getMaterial().setFrictionCoefficient(decimal(g.uniform(0.4, 1))); if (t == rp::BodyType::DYNAMIC) { b.b->updateMassPropertiesFromColliders(); b.b->setLinearDamping(decimal(g.uniform(0.1, 1))); b.b->setAngularDamping(decimal(g.uniform(0.5, 3))); } b.b->setUserData(idp(i)); bs.push_back(b); return i; };
    auto shape = [&](double r) { for (;;) { Sh s = rndShape(pc, g, r, {SK::Box, SK::Box, SK::Sphere, SK::HullPoly, SK::Capsule}, false); if (s.s && s.inR > 0.2) return s; } };
    int nf = g.range(1, 2); for (int k = 0; k < nf; k++) add(mkBox(pc, V(12, 1, 12)), V(k * 25, -1, 0), Q(), rp::BodyType::STATIC);
    int ns = g.range(1, 4); for (int k = 0; k < ns; k++) { double x = (k - ns / 2.0) * 4 + (nf > 1 && g.chance(0.3) ? 25 : 0), z = g.uniform(-3, 3), y = 0; for (int i = g.range(1, 3); i > 0; i--) { V e(g.uniform(0.4, 0.9), g.uniform(0.25, 0.5), g.uniform(0.4, 0.9)); y += e.y; add(mkBox(pc, e), V(x, y + 0.001, z), og::axisAngle(V(0, 1, 0), g.uniform(0, 3)), rp::BodyType::DYNAMIC); y += e.y; } if (g.chance(0.3)) { Sh s = shape(0.6); add(s, V(x, y + s.R + 0.1, z), rndOrient(g), rp::BodyType::DYNAMIC); } }
    auto anchorOf = [&](int i, int j, V at) { int t = g.below(3); V ax = rndUnit(g); rp::Joint* J; rp::JointType ty; if (t == 0) { rp::BallAndSocketJointInfo in(bs[i].b, bs[j].b, rv(at)); J = w->createJoint(in); ty = rp::JointType::BALLSOCKETJOINT; } else if (t == 1) { rp::HingeJointInfo in(bs[i].b, bs[j].b, rv(at), rv(ax)); J = w->createJoint(in); ty = rp::JointType::HINGEJOINT; } else { rp::FixedJointInfo in(bs[i].b, bs[j].b, rv(at)); J = w->createJoint(in); ty = rp::JointType::FIXEDJOINT; } js.push_back({J, ty, i, j, true}); };
    int np = g.below(3); for (int k = 0; k < np; k++) { V at(g.uniform(-8, 8), 8 + 5 * k, 7); int root = add(mkBox(pc, V(0.5, 0.1, 0.5)), at + V(0, 0.3, 0), Q(), g.chance(0.7) ? rp::BodyType::STATIC : rp::BodyType::KINEMATIC); V d(g.uniform(-0.3, 0.3), -1.2, g.uniform(-0.3, 0.3)); int prev = root; V a = at; for (int i = g.range(1, 2); i > 0; i--) { int b = add(mkBox(pc, V(0.3, 0.3, 0.3)), a + d, Q(), rp::BodyType::DYNAMIC); bs[b].b->setLinearDamping(2); anchorOf(prev, b, a); prev = b; a = a + d * 2; } }
    for (auto& b : bs) if (b.b->getType() == rp::BodyType::DYNAMIC && g.chance(0.05)) b.b->setIsAllowedToSleep(false);
    auto live = [&](int kind) { std::vector<int> v; for (size_t i = 0; i < bs.size(); i++) if (bs[i].alive && (kind < 0 || int(bs[i].b->getType()) == kind)) v.push_back(int(i)); return v; };
    auto resetLow = [&](Bd& b) { b.sure = 0; };
    double total = C.thorough ? g.uniform(6, 14) : g.uniform(3, 7), next = g.uniform(0.5, 2.5); long step = 0;
    auto awakeNow = [&](int i, const char* what) { C.eval(); C.count(std::string("woken by ") + what); if (mobile(bs[i]) && bs[i].b->isSleeping()) C.fail(std::string("not-woken: ") + what, "body %d (%s) is still asleep after %s at step %ld", i, bs[i].s.o.desc.c_str(), what, step); };
    auto touchers = [&](int x) { std::vector<int> v; for (auto& p : W_.touching) { int o = p.first == x ? p.second : p.second == x ? p.first : -1; if (o >= 0 && mobile(bs[o])) v.push_back(o); } return v; };
    auto forget = [&](int x) { for (auto it = W_.touching.begin(); it != W_.touching.end();) if (it->first == x || it->second == x) it = W_.touching.erase(it); else ++it; };
    bool soon = false; auto disturb = [&]() {
        auto dyn = live(int(rp::BodyType::DYNAMIC)); if (dyn.empty()) return; int i = g.pick(dyn); auto& b = bs[i]; int k = soon ? 19 : g.below(21); soon = false; C.log("step %ld disturbance %d on %d (asleep %d)", step, k, i, b.b->isSleeping()); C.count(b.b->isSleeping() ? "disturbances of sleeping bodies" : "disturbances of awake bodies"); V f = rndUnit(g) * (g.chance(0.3) ? 0.01 : 30);
        switch (k) {
        case 0: b.b->setTransform(rp::Transform(b.b->getTransform().getPosition() + rv(V(0, g.uniform(0, 1), 0)), b.b->getTransform().getOrientation())); awakeNow(i, "setTransform"); break;
        case 1: b.b->setLinearVelocity(rv(rndUnit(g) * g.uniform(0.01, 5))); awakeNow(i, "setLinearVelocity"); break;
        case 2: b.b->setAngularVelocity(rv(rndUnit(g) * g.uniform(0.01, 5))); awakeNow(i, "setAngularVelocity"); break;
        case 3: b.b->applyWorldForceAtCenterOfMass(rv(f)); awakeNow(i, "a world force"); break;
        case 4: b.b->applyLocalForceAtCenterOfMass(rv(f)); awakeNow(i, "a local force"); break;
        case 5: b.b->applyWorldForceAtWorldPosition(rv(f), b.b->getTransform().getPosition()); awakeNow(i, "a force at a world point"); break;
        case 6: b.b->applyWorldForceAtLocalPosition(rv(f), rv(rndBox(g, 0.2))); awakeNow(i, "a force at a local point"); break;
        case 7: b.b->applyLocalForceAtWorldPosition(rv(f), b.b->getTransform().getPosition()); awakeNow(i, "a local force at a world point"); break;
        case 8: b.b->applyLocalForceAtLocalPosition(rv(f), rv(rndBox(g, 0.2))); awakeNow(i, "a local force at a local point"); break;
        case 9: b.b->applyWorldTorque(rv(f)); awakeNow(i, "a world torque"); break;
        case 10: b.b->applyLocalTorque(rv(f)); awakeNow(i, "a local torque"); break;
        case 11: { auto t = rp::BodyType(g.below(3)); bool ch = t != b.b->getType(); b.b->setType(t); if (ch) awakeNow(i, "a change of type"); resetLow(b); break; }
        case 12: { bool a = g.chance(0.5); b.b->setIsAllowedToSleep(a); if (!a) awakeNow(i, "forbidding sleep"); break; }
        case 13: { auto ts = touchers(i); for (auto& j : js) if (j.alive && (j.a == i || j.b == i)) { j.alive = false; } w->destroyRigidBody(b.b); b.alive = false; for (int o : ts) awakeNow(o, "the destruction of a neighbour"); forget(i); break; }
        case 14: { auto ts = touchers(i); b.b->removeCollider(b.c); for (int o : ts) awakeNow(o, "the removal of a neighbour's collider"); b.c = b.b->addCollider(b.s.s, rp::Transform::identity()); forget(i); resetLow(b); break; }
        case 15: { auto ts = touchers(i); b.b->setIsActive(false); for (int o : ts) if (o != i) awakeNow(o, "the deactivation of a neighbour"); forget(i); resetLow(b); break; }
        case 16: for (auto& o : bs) if (o.alive && !o.b->isActive()) { o.b->setIsActive(true); resetLow(o); awakeNow(int(&o - &bs[0]), "activation"); } break;
        case 17: { std::vector<int> v; for (size_t q = 0; q < js.size(); q++) if (js[q].alive) v.push_back(int(q)); if (v.empty()) break; auto& j = js[g.pick(v)]; if (j.t == rp::JointType::HINGEJOINT) { auto* h = static_cast<rp::HingeJoint*>(j.j); int m = g.below(6); bool ch = true; if (m == 0) { ch = !h->isMotorEnabled(); h->enableMotor(true); } else if (m == 1) { double s = g.uniform(-2, 2); ch = true; h->setMotorSpeed(decimal(s)); } else if (m == 2) h->setMaxMotorTorque(decimal(g.uniform(1, 50))); else if (m == 3) { ch = !h->isLimitEnabled(); h->enableLimit(true); } else if (m == 4) h->setMinAngleLimit(decimal(-g.uniform(0.1, 1))); else h->setMaxAngleLimit(decimal(g.uniform(0.1, 1))); if (ch) { awakeNow(j.a, "a change of its joint"); awakeNow(j.b, "a change of its joint"); } } else if (g.chance(0.5)) { j.alive = false; w->destroyJoint(j.j); awakeNow(j.a, "the destruction of its joint"); awakeNow(j.b, "the destruction of its joint"); } break; }
        case 18: { bool s = g.chance(0.7); bool was = b.b->isSleeping(); b.b->setIsSleeping(s); if (mobile(b) && b.b->isSleeping() != s) C.fail("set-asleep", "setIsSleeping(%d) was not done", s); if (was != s) resetLow(b); break; }
        case 19: { enabled = !enabled || g.chance(0.2); w->enableSleeping(enabled); for (auto& o : bs) resetLow(o); if (!enabled) for (size_t o = 0; o < bs.size(); o++) if (bs[o].alive) awakeNow(int(o), "disabling sleep"); if (!enabled && g.chance(0.5)) { for (int o : dyn) if (g.chance(0.5)) bs[o].b->setLinearVelocity(rv(rndUnit(g) * g.uniform(0.5, 3))); soon = true; } break; }
        default: { Sh s = g.chance(0.5) ? mkSphere(pc, g.uniform(0.3, 0.5)) : mkBox(pc, V(0.4, 0.4, 0.4)); V p = ov(b.b->getTransform().getPosition()); V d = og::unit(V(g.uniform(-1, 1), g.uniform(0.3, 1.5), g.uniform(-1, 1))); int n = add(s, p + d * (b.s.R + s.R + 0.2), rndOrient(g), g.chance(0.8) ? rp::BodyType::DYNAMIC : rp::BodyType::KINEMATIC); bs[n].b->setLinearVelocity(rv(-d * g.uniform(0.5, 8))); C.count("projectiles"); } }
    };
    for (double t = 0; t < total; t += dt, step++) {
        if (t > next) { int n = g.chance(0.8) ? 1 : 3; while (n--) disturb(); next = t + (g.chance(0.3) ? dt : soon ? g.uniform(0.05, 0.5) : g.uniform(0.1, 2)); }
        for (auto& b : bs) if (b.alive) { bool was = b.asleep; b.asleep = b.b->isSleeping(); if (was != b.asleep) b.low = b.sure = 0; b.T = b.b->getTransform(); if (b.asleep && b.b->isActive() && (b.b->getLinearVelocity() != rp::Vector3(0, 0, 0) || b.b->getAngularVelocity() != rp::Vector3(0, 0, 0))) C.fail("asleep-moving", "a sleeping body has a velocity"); }
        struct Deep { int a, b; }; std::vector<Deep> deep; for (size_t i = 0; i < bs.size(); i++) if (mobile(bs[i]) && !bs[i].asleep) for (size_t j = 0; j < bs.size(); j++) if (mobile(bs[j]) && bs[j].asleep && og::len(ov(bs[i].T.getPosition()) - ov(bs[j].T.getPosition())) < bs[i].s.R + bs[j].s.R) { bool jointed = false; (void)jointed; og::Gap G = gapAny(bs[i].s.o, op(bs[i].T), bs[j].s.o, op(bs[j].T)); if (G.hi < -0.01) deep.push_back({int(i), int(j)}); }
        W_.now.clear(); w->update(decimal(dt));
        // connected groups of this step
        std::vector<int> comp(bs.size()); for (size_t i = 0; i < bs.size(); i++) comp[i] = int(i); std::function<int(int)> root = [&](int i) { return comp[i] == i ? i : comp[i] = root(comp[i]); };
        for (auto& p : W_.now) if (mobile(bs[p.first]) && mobile(bs[p.second])) comp[root(p.first)] = root(p.second); for (auto& j : js) if (j.alive && mobile(bs[j.a]) && mobile(bs[j.b])) comp[root(j.a)] = root(j.b);
        std::map<int, std::vector<int>> groups; for (size_t i = 0; i < bs.size(); i++) if (mobile(bs[i])) groups[root(int(i))].push_back(int(i));
        for (auto& G : groups) {
            bool anyAwake = false, someSleep = false, someAwakeEnd = false; double minLow = 1e300, minSure = 1e300; bool allowed = true; for (int i : G.second) { auto& b = bs[i]; if (!b.asleep) anyAwake = true; (b.b->isSleeping() ? someSleep : someAwakeEnd) = true; minLow = std::min(minLow, b.asleep ? 0 : b.low); if (!b.b->isAllowedToSleep()) allowed = false; }
            for (int i : G.second) { auto& b = bs[i]; C.eval();
                if (b.asleep && !b.b->isSleeping() && !anyAwake) C.fail("woke-alone", "body %d (%s) of %zu connected bodies, all asleep, woke up at step %ld", i, b.s.o.desc.c_str(), G.second.size(), step);
                if (b.asleep && b.b->isSleeping() && anyAwake) C.fail("slept-through", "body %d (%s) stays asleep at step %ld although connected to an awake body", i, b.s.o.desc.c_str(), step);
                if (b.asleep && b.b->isSleeping()) { C.count("steps asleep"); if (!(b.T == b.b->getTransform())) C.fail("asleep-moved", "body %d (%s) moved from %s to %s while asleep", i, b.s.o.desc.c_str(), vs(b.T.getPosition()).c_str(), vs(b.b->getTransform().getPosition()).c_str()); }
                if (b.asleep && !b.b->isSleeping()) C.count("wakings by other bodies");
                if (!b.asleep && b.b->isSleeping()) { C.count(G.second.size() > 1 ? "fell asleep in a group" : "fell asleep alone"); uint64_t h = vh::hashBytes(&b.T, sizeof b.T); C.seen(h);
                    if (!enabled) C.fail("slept-disabled", "body %d fell asleep at step %ld although sleeping is disabled", i, step); if (!allowed) C.fail("slept-forbidden", "body %d fell asleep at step %ld although it or a body connected with it is not allowed to", i, step);
                    if (someAwakeEnd) C.fail("slept-part", "body %d fell asleep at step %ld while a body connected with it stays awake", i, step); if (minLow < T - 1.5 * dt) C.fail("slept-early", "body %d fell asleep at step %ld although it or a body connected with it has been slow for %g s only (of %g s)", i, step, minLow, T); else C.maxi("shortest rest before sleep, share of the time asked for (negative)", -minLow / T); }
                V v = ov(b.b->getLinearVelocity()), o = ov(b.b->getAngularVelocity()); if (b.asleep || b.b->isSleeping()) b.low = b.sure = 0; b.asleep = b.b->isSleeping(); if (!b.b->isSleeping()) { bool lo = og::len(v) <= vl * (1 + 1e-5) && og::len(o) <= wl * (1 + 1e-5), su = og::len(v) < vl * (1 - 1e-5) && og::len(o) < wl * (1 - 1e-5) && b.b->isAllowedToSleep() && enabled; if (!lo) b.low = 0; else b.low += dt; if (!su) b.sure = 0; else b.sure += dt; minSure = std::min(minSure, b.sure); } else minSure = 0; }
            C.maxi("longest rest without falling asleep, in steps beyond the time asked for", minSure > 1e299 ? -1e3 : (minSure - T) / dt); if (minSure > T + 2 * dt && minSure < 1e299) C.fail("no-sleep", "a group of %zu bodies (body %d) has been slow for %g s (of %g s) and does not fall asleep at step %ld", G.second.size(), G.second[0], minSure, T, step);
        }
        for (auto& d : deep) { C.count("awake bodies reaching a sleeping one"); if (mobile(bs[d.b]) && bs[d.b].b->isSleeping()) C.fail("touch-not-woken", "body %d (%s) stays asleep at step %ld although awake body %d (%s) overlaps it", d.b, bs[d.b].s.o.desc.c_str(), step, d.a, bs[d.a].s.o.desc.c_str()); }
        for (auto& b : bs) if (b.alive && b.b->isActive() && b.b->getType() == rp::BodyType::STATIC && b.b->isSleeping()) C.fail("static-asleep", "a static body is asleep");
    }
    C.count("contact events", double(W_.events)); C.sample("%zu bodies, %zu joints, %ld steps, rest of %g s", bs.size(), js.size(), step, T); pc.destroyPhysicsWorld(w);
}
// a body that slept, is woken, and is compared with an equal body placed at the same spot that never slept
struct Wk { rp::PhysicsWorld* w; rp::RigidBody* b; rp::Joint* j = nullptr; };
static void wake(vh::Ctx& C) {
    vh::Rng& g = C.rng; PC pc; uint64_t sd = g.next(); double dt = 1 / 60.0; bool hang = g.chance(0.4); int kind = g.below(3); V e(g.uniform(0.3, 1), g.uniform(0.3, 1), g.uniform(0.3, 1)); double fr = g.uniform(0.2, 1), bo = g.uniform(0, 0.5); V at(g.uniform(-0.3, 0.3), e.y + 1, g.uniform(-0.3, 0.3)); int jt = g.below(3); double damp = g.uniform(0.3, 1.5); (void)sd;
    auto make = [&](bool sleepy, const rp::Transform* T) { Wk k; rp::PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = sleepy; ws.defaultVelocitySolverNbIterations = 30; k.w = pc.createPhysicsWorld(ws); auto* f = k.w->createRigidBody(rp::Transform(rp::Vector3(0, hang ? 4 : -1, 0), rp::Quaternion::identity())); f->setType(rp::BodyType::STATIC); auto* fc = f->addCollider(pc.createBoxShape(rp::Vector3(10, 1, 10)), rp::Transform::identity()); fc->getMaterial().setBounciness(decimal(bo)); fc->getMaterial().setFrictionCoefficient(decimal(fr));
        k.b = k.w->createRigidBody(rt(V(0, e.y + 0.01, 0), Q())); rp::CollisionShape* s = kind == 0 || hang ? (rp::CollisionShape*)pc.createBoxShape(rv(e)) : kind == 1 ? (rp::CollisionShape*)pc.createSphereShape(decimal(e.y)) : (rp::CollisionShape*)pc.createBoxShape(rv(e * 0.8)); auto* c = k.b->addCollider(s, rp::Transform::identity()); c->getMaterial().setBounciness(decimal(bo)); c->getMaterial().setFrictionCoefficient(decimal(fr)); k.b->updateMassPropertiesFromColliders(); k.b->setLinearDamping(decimal(damp)); k.b->setAngularDamping(decimal(damp));
        if (hang) { if (jt == 0) { rp::BallAndSocketJointInfo in(f, k.b, rv(at)); in.isCollisionEnabled = false; k.j = k.w->createJoint(in); } else if (jt == 1) { rp::HingeJointInfo in(f, k.b, rv(at), rp::Vector3(1, 0, 0)); k.j = k.w->createJoint(in); } else { rp::SliderJointInfo in(f, k.b, rv(at), rv(og::unit(V(1, 0.0, 0.3)))); k.j = k.w->createJoint(in); } }
        if (T) k.b->setTransform(*T); return k; };
    Wk a = make(true, nullptr); int n = 0; while (!a.b->isSleeping() && n++ < 2400) a.w->update(decimal(dt)); if (!a.b->isSleeping()) { C.count("bodies that did not come to rest"); pc.destroyPhysicsWorld(a.w); return; }
    for (int i = g.below(30); i > 0; i--) a.w->update(decimal(dt)); rp::Transform T = a.b->getTransform(); Wk f = make(g.chance(0.5), &T);
    V v = rndUnit(g) * g.uniform(0.2, 3), o = rndUnit(g) * g.uniform(0, 2); int how = g.below(4); auto go = [&](Wk& k) { if (how == 0) { k.b->setLinearVelocity(rv(v)); k.b->setAngularVelocity(rv(o)); } else if (how == 1) { k.b->applyWorldForceAtCenterOfMass(rv(v * (60 * double(k.b->getMass())))); } else if (how == 2) k.b->setAngularVelocity(rv(o * 2)); else { k.b->applyWorldTorque(rv(o * (60 * double(k.b->getLocalInertiaTensor().y)))); } }; go(a); go(f); double vs_ = 0.3, worst = 0; V pa, pf;
    for (int k = 0; k < 10; k++) { a.w->update(decimal(dt)); f.w->update(decimal(dt)); pa = ov(a.b->getTransform().getPosition()); pf = ov(f.b->getTransform().getPosition()); double d = og::len(pa - pf) + qdist(oq(a.b->getTransform().getOrientation()), oq(f.b->getTransform().getOrientation())); worst = std::max(worst, d); vs_ = std::max(vs_, og::len(ov(f.b->getLinearVelocity()))); C.eval(); C.seen(vh::hashBytes(&pa, sizeof pa)); if (C.verbose) printf("%d: %g  %s %s\n", k, d, vs(pa).c_str(), vs(pf).c_str()); }
    C.maxi(hang ? "difference from a body that never slept, on a joint" : "difference from a body that never slept, on a floor", worst); C.count("woken bodies compared"); double lim = hang ? 0.02 : 0.05; if (worst > lim) C.fail("woken-differs", "%s: a body woken by %d differs by %g after 10 steps from an equal body that never slept", hang ? "joint" : "floor", how, worst);
    pc.destroyPhysicsWorld(a.w); pc.destroyPhysicsWorld(f.w);
}
static void oneCase(vh::Ctx& C) { if (C.rng.chance(0.25)) wake(C); else world(C); }
int main(int c, char** v) { return vh::runMain(c, v, oneCase); }
