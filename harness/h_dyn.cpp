// C12 (mode ""): static, kinematic and locked bodies in random worlds.  C13 (mode "free"): forces and integration of bodies
// that touch nothing, with a shadow of every force applied; (mode "world"): the same prediction for bodies of random worlds while they are free.
#include "dyn.h"
#include <set>
static void world(vh::Ctx& C, bool c13) {
    PC h; WOpt o; o.ext = C.rng.uniform(1.5, 6); o.maxBodies = C.thorough ? 24 : 14; o.queries = false; o.debug = false; if (c13) { o.ext *= 2.5; o.joints = C.rng.chance(0.3); }
    Sim s(h, vh::mix(C.seed, C.caseIndex), o); s.verbose = C.verbose; s.start(); s.populate(C.rng.range(3, 9)); vh::Rng& g = C.rng;
    bool clean = true; const rp::Vector3 z(0, 0, 0);
    for (auto& b : s.bodies) if (!c13 && b.alive && g.chance(0.35)) { auto f = [&] { return rp::Vector3(decimal(g.below(2)), decimal(g.below(2)), decimal(g.below(2))); }; b.b->setLinearLockAxisFactor(f()); b.b->setAngularLockAxisFactor(f()); }
    for (auto& b : s.bodies) if (b.alive && b.b->getType() == rp::BodyType::KINEMATIC && g.chance(0.7)) { b.b->setLinearVelocity(rv(rndBox(g, 2))); b.b->setAngularVelocity(rv(rndBox(g, 2))); }
    int steps = C.thorough ? 80 : g.range(12, 30); (void)clean;
    for (int k = 0; k < steps; k++) {
        for (int i = g.below(4); i > 0; i--) s.mutate();
        s.clampState(); double dt = double(decimal(s.rndDt())); auto live = s.liveB(); std::map<int, BSnap> S; for (int i : live) S[i] = BSnap::take(s.bodies[i].b);
        V grav = ov(s.w->getGravity()); bool ge = s.w->isGravityEnabled(); s.step(dt);
        std::set<int> touched, jointed; for (auto& e : s.evs) if (!e.trigger && e.type != 2) { touched.insert(e.b1); touched.insert(e.b2); } for (auto& j : s.joints) if (j.alive) { jointed.insert(j.b1); jointed.insert(j.b2); }
        for (int i : live) {
            rp::RigidBody* b = s.bodies[i].b; const BSnap& a = S[i]; BSnap n = BSnap::take(b); C.eval(); bool held = touched.count(i) || jointed.count(i);
            auto say = [&](const char* key, const std::string& m) { C.fail(key, "step %d dt %g body %d type %d%s%s: %s (was at %s v %s w %s, now at %s v %s w %s)", k, dt, i, int(a.type), touched.count(i) ? " in contact" : "", jointed.count(i) ? " jointed" : "", m.c_str(), vs(a.p).c_str(), vs(a.v).c_str(), vs(a.w).c_str(), vs(n.p).c_str(), vs(n.v).c_str(), vs(n.w).c_str()); };
            if (n.type != a.type || n.active != a.active) say("state", "type or activity changed by a step");
            if (!og::finite(n.p) || !og::finite(n.v) || !og::finite(n.w)) { say("not-finite", "not finite"); continue; }
            if (a.fixedThisStep()) { C.count(a.active ? "static body-steps" : "inactive body-steps"); if (held) C.count("static or inactive bodies touched or jointed");
                if (!(n.T == a.T)) say("static-moved", "the pose changed"); if (!(n.rvv == a.rvv) || !(n.rww == a.rww)) say("static-velocity", "the velocity changed"); continue; }
            Pred p = predict(a, dt, grav, ge); bool slept = n.sleeping;
            if (a.sleeping && n.sleeping) continue;
            double dv = og::maxabs(n.v - p.v), dw = og::maxabs(n.w - p.w), dx = og::maxabs(n.com - p.com), dq = qdist(n.q, p.q);
            if (std::fabs(og::qlen(n.q) - 1) > 16 * EPSD) say("normalised", "orientation not of unit length");
            if (a.type == rp::BodyType::KINEMATIC || (c13 && !held)) {
                const char* ty = a.type == rp::BodyType::KINEMATIC ? "kinematic" : "free"; C.count(std::string(ty) + " body-steps"); if (held) C.count("kinematic body-steps in contact or jointed");
                C.maxi("largest error of a predicted centre of mass, share of the tolerance", dx / p.tx); C.maxi("largest error of a predicted orientation, share of the tolerance", dq / p.tq);
                if (!slept) { if (!(dv <= p.tv)) say((std::string(ty) + "-velocity").c_str(), "linear velocity should be " + vs(p.v)); if (!(dw <= p.tw)) say((std::string(ty) + "-angular").c_str(), "angular velocity should be " + vs(p.w)); }
                if (!(dx <= p.tx)) say((std::string(ty) + "-position").c_str(), "centre of mass should have moved by " + vs(p.com - a.com) + " but moved by " + vs(n.com - a.com)); if (!(dq <= p.tq)) say((std::string(ty) + "-orientation").c_str(), "orientation off by " + std::to_string(dq));
                C.seen(vh::mix(vh::hashBytes(&n.p, sizeof n.p), i));
            }
            if (!c13 && a.type == rp::BodyType::DYNAMIC) for (int x = 0; x < 3; x++) {
                if (a.ll[x] == 0) { C.count(held ? "locked translation axes of bodies in contact or jointed" : "locked translation axes of free bodies"); double want = a.v[x] / (1 + a.ld * dt), mv = n.com[x] - a.com[x] - want * dt, tol = 24 * EPSD * (og::len(a.p) + 2 * og::len(a.comL)) + 24 * EPSD * std::fabs(want) * dt + 1e-30;
                    if (!slept && !(std::fabs(n.v[x] - want) <= 8 * EPSD * std::fabs(a.v[x]))) say("locked-velocity", "velocity along the locked axis " + std::to_string(x) + " changed"); if (!(std::fabs(mv) <= tol)) say("locked-position", "moved along the locked axis " + std::to_string(x) + " by " + std::to_string(mv));
                    C.seen(vh::mix(vh::hashBytes(&n.p, sizeof n.p), i)); }
                if (a.al[x] == 0) { C.count(held ? "locked rotation axes of bodies in contact or jointed" : "locked rotation axes of free bodies"); double want = a.w[x] / (1 + a.ad * dt);
                    if (!slept && !(std::fabs(n.w[x] - want) <= 8 * EPSD * std::fabs(a.w[x]))) say("locked-angular", "angular velocity about the locked axis " + std::to_string(x) + " changed"); }
                if (og::len2(a.al) == 0 && og::len2(a.w) == 0 && dq > 24 * EPSD) say("locked-orientation", "turned with all rotations locked");
                if (a.ll.x == 0 && a.ll.y == 0 && a.ll.z == 0 && og::len2(a.v) == 0) C.count("body-steps with all translations locked"); }
            if (og::len2(n.F) != 0 || og::len2(n.Tq) != 0) say("force-left", "a force is left after the step");
        }
    }
    C.sample("%ld steps of %zu bodies and %zu joints, %ld contact points", s.nSteps, s.bodies.size(), s.joints.size(), s.nContactPts); s.stop();
}
// bodies that never meet: every setter and every way to apply forces, with a shadow
static void freeBodies(vh::Ctx& C) {
    PC h; vh::Rng& g = C.rng; rp::PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = g.chance(0.5); V grav = rndBox(g, 12); ws.gravity = rv(grav); auto* w = h.createPhysicsWorld(ws); int n = g.range(1, 6); bool ge = true; grav = ov(rv(grav));
    struct B { rp::RigidBody* b; V F, T; double fs = 0, ts = 0; }; std::vector<B> bs; auto boxs = h.createBoxShape(rp::Vector3(decimal(0.5), decimal(0.4), decimal(0.7)));
    auto rnd = [&](double s) { return ov(rv(g.chance(0.1) ? V() : rndBox(g, s))); };
    for (int i = 0; i < n; i++) { B x; x.b = w->createRigidBody(rt(V(400.0 * i, 0, 0) + rndBox(g, 20), rndOrient(g))); x.b->setType(rp::BodyType(g.below(5) < 3 ? 2 : g.below(3))); if (g.chance(0.7)) x.b->addCollider(boxs, rt(rndBox(g, 0.5), rndOrient(g))); if (g.chance(0.5)) x.b->updateMassPropertiesFromColliders(); bs.push_back(x); }
    int steps = C.thorough ? 60 : g.range(6, 20);
    for (int k = 0; k < steps; k++) {
        std::string ops;
        for (int j = g.below(8); j > 0; j--) {
            int i = g.below(n); B& x = bs[i]; rp::RigidBody* b = x.b; V f = rnd(g.logUniform(0.01, 300)), p = rnd(3); BSnap a = BSnap::take(b); int op = g.below(24); ops += " " + std::to_string(op) + "@" + std::to_string(i); bool dyn = a.type == rp::BodyType::DYNAMIC; og::M R = og::mat(a.q);
            V wf = R * f, pw = a.com + p; rp::Vector3 rpw = rv(pw); pw = ov(rpw);
            auto add = [&](V F, V T, double arm) { if (!dyn) return; x.F += F; x.T += T; x.fs += og::len(F); x.ts += og::len(T) + og::len(F) * (arm + og::len(a.p) + og::len(a.comL)); };
            bool same = true; double keepTol = 0;
            switch (op) {
            case 0: b->applyWorldForceAtCenterOfMass(rv(f)); add(f, V(), 0); x.ts -= og::len(f) * (og::len(a.p) + og::len(a.comL)) * dyn; break;
            case 1: b->applyLocalForceAtCenterOfMass(rv(f)); add(wf, V(), 0); break;
            case 2: b->applyLocalForceAtLocalPosition(rv(f), rv(p)); add(wf, og::cross(a.p + R * p - a.com, wf), og::len(p)); break;
            case 3: b->applyWorldForceAtLocalPosition(rv(f), rv(p)); add(f, og::cross(a.p + R * p - a.com, f), og::len(p)); break;
            case 4: b->applyLocalForceAtWorldPosition(rv(f), rpw); add(wf, og::cross(pw - a.com, wf), og::len(p)); break;
            case 5: b->applyWorldForceAtWorldPosition(rv(f), rpw); add(f, og::cross(pw - a.com, f), og::len(p)); break;
            case 6: b->applyWorldTorque(rv(f)); if (dyn) { x.T += f; x.ts += og::len(f); } break;
            case 7: b->applyLocalTorque(rv(f)); if (dyn) { x.T += wf; x.ts += og::len(f); } break;
            case 8: b->resetForce(); if (dyn) { x.F = V(); x.fs = 0; } break;
            case 9: b->resetTorque(); if (dyn) { x.T = V(); x.ts = 0; } break;
            case 10: b->setMass(decimal(g.logUniform(0.1, 50))); break;
            case 11: { V I(g.logUniform(0.05, 20), g.logUniform(0.05, 20), g.logUniform(0.05, 20)); if (g.chance(0.1)) I[g.below(3)] = 0; b->setLocalInertiaTensor(rv(I)); if (!(b->getLocalInertiaTensor() == rv(I))) C.fail("readback", "inertia"); break; }
            case 12: { V c = rnd(1); b->setLocalCenterOfMass(rv(c)); same = false; V v2 = a.v + og::cross(a.w, R * (c - a.comL)), got = ov(b->getLinearVelocity()); if (og::maxabs(got - v2) > 64 * EPSD * (og::len(a.v) + og::len(a.w) * (2 + og::len(a.p) + og::len(a.comL)))) C.fail("com-velocity", "moving the centre of mass changed the velocity field: %s instead of %s", vs(got).c_str(), vs(v2).c_str()); if (!(b->getTransform() == a.T)) C.fail("com-pose", "moving the centre of mass moved the body"); break; }
            case 13: b->setLinearDamping(decimal(g.uniform(0, 3))); break;
            case 14: b->setAngularDamping(decimal(g.uniform(0, 3))); break;
            case 15: b->enableGravity(g.chance(0.6)); break;
            case 16: b->setLinearVelocity(rv(f)); same = false; if (!(b->getLinearVelocity() == (a.type == rp::BodyType::STATIC ? a.rvv : rv(f)))) C.fail("readback", "linear velocity of a body of type %d", int(a.type)); break;
            case 17: b->setAngularVelocity(rv(p * 3)); same = false; if (!(b->getAngularVelocity() == (a.type == rp::BodyType::STATIC ? a.rww : rv(p * 3)))) C.fail("readback", "angular velocity of a body of type %d", int(a.type)); break;
            case 18: { rp::BodyType t = rp::BodyType(g.below(3)); b->setType(t); if (t != a.type) { x.F = x.T = V(); x.fs = x.ts = 0; } same = t != rp::BodyType::STATIC; break; }
            case 19: w->setIsGravityEnabled(ge = g.chance(0.7)); break;
            case 20: { rp::Vector3 nv = rv(rndBox(g, 12)); w->setGravity(nv); grav = ov(nv); break; }
            case 21: { auto L = [&] { return g.chance(0.5) ? rp::Vector3(1, 1, 1) : rp::Vector3(decimal(g.below(2)), decimal(g.below(2)), decimal(g.below(2))); }; b->setLinearLockAxisFactor(L()); b->setAngularLockAxisFactor(L()); break; }
            case 22: { rp::Transform t = rt(V(400.0 * i, 0, 0) + rndBox(g, 20), rndOrient(g)); b->setTransform(t); if (!(b->getTransform() == t)) C.fail("readback", "transform"); break; }
            default: { bool sl = g.chance(0.5); b->setIsSleeping(sl); if (sl && a.type != rp::BodyType::STATIC && !a.sleeping) { x.F = x.T = V(); x.fs = x.ts = 0; same = false; } } }
            BSnap q = BSnap::take(b); C.eval(); C.count("operations");
            double tf = 32 * EPSD * x.fs, tt = 32 * EPSD * x.ts; if (!(og::maxabs(q.F - x.F) <= tf)) C.fail("force-sum", "after op %d on a body of type %d the force is %s instead of %s", op, int(a.type), vs(q.F).c_str(), vs(x.F).c_str()); if (!(og::maxabs(q.Tq - x.T) <= tt)) C.fail("torque-sum", "after op %d on a body of type %d the torque is %s instead of %s", op, int(a.type), vs(q.Tq).c_str(), vs(x.T).c_str());
            if (same && (!(q.rvv == a.rvv) || !(q.rww == a.rww))) C.fail("velocity-changed", "operation %d changed the velocity from %s, %s to %s, %s", op, vs(a.v).c_str(), vs(a.w).c_str(), vs(q.v).c_str(), vs(q.w).c_str()); (void)keepTol;
            if (dyn && op <= 7 && q.sleeping) C.fail("force-wakes", "a force does not wake a sleeping body (op %d)", op);
        }
        for (auto& x : bs) for (int z = 0; z < 1; z++) { V v = ov(x.b->getLinearVelocity()), a = ov(x.b->getAngularVelocity()), p = ov(x.b->getTransform().getPosition()); if (!(og::len(v) < 200)) x.b->setLinearVelocity(rp::Vector3(1, 0, 0)); if (!(og::len(a) < 100)) x.b->setAngularVelocity(rp::Vector3(0, 1, 0)); int i = int(&x - &bs[0]); if (!(og::len(p - V(400.0 * i, 0, 0)) < 120)) x.b->setTransform(rt(V(400.0 * i, 0, 0), oq(x.b->getTransform().getOrientation()))); }
        std::vector<BSnap> S; for (auto& x : bs) { BSnap a = BSnap::take(x.b); a.F = x.F; a.Tq = x.T; S.push_back(a); }
        double dt = double(decimal(g.chance(0.6) ? 1.0 / 60 : g.logUniform(1e-4, 0.1))); w->update(decimal(dt));
        for (int i = 0; i < n; i++) {
            B& x = bs[i]; const BSnap& a = S[i]; BSnap q = BSnap::take(x.b); C.eval(); x.F = x.T = V(); double fs = x.fs, ts = x.ts; x.fs = x.ts = 0;
            auto say = [&](const char* key, V want, V got) { C.fail(key, "step %d dt %g body %d type %d (mass %g inertia %s com %s damping %g %g locks %s %s force %s torque %s gravity %d, ops%s): should be %s but is %s", k, dt, i, int(a.type), a.m, vs(a.I).c_str(), vs(a.comL).c_str(), a.ld, a.ad, vs(a.ll).c_str(), vs(a.al).c_str(), vs(a.F).c_str(), vs(a.Tq).c_str(), int(ge && a.grav), ops.c_str(), vs(want).c_str(), vs(got).c_str()); };
            if (og::len2(q.F) != 0 || og::len2(q.Tq) != 0) say("force-left", V(), q.F);
            if (a.type == rp::BodyType::STATIC || a.sleeping) { if (!(q.T == a.T)) say("static-moved", a.p, q.p); C.count("static or sleeping body-steps"); continue; }
            Pred p = predict(a, dt, grav, ge); if (a.type == rp::BodyType::DYNAMIC) { V ii; for (int c = 0; c < 3; c++) ii[c] = a.I[c] ? 1 / a.I[c] : 0; double ev = dt * 40 * EPSD * fs * (a.m > 0 ? 1 / a.m : 0), ew = dt * 40 * EPSD * ts * og::maxabs(ii) * 2; p.tv += ev; p.tw += ew; p.tx += ev * dt; p.tq += ew * dt; }
            if (!q.sleeping) { if (!(og::maxabs(q.v - p.v) <= p.tv)) say("linear-velocity", p.v, q.v); if (!(og::maxabs(q.w - p.w) <= p.tw)) say("angular-velocity", p.w, q.w); C.count("predicted body-steps"); }
            C.maxi("largest error of a predicted velocity, share of the tolerance", p.tv > 0 && !q.sleeping ? og::maxabs(q.v - p.v) / p.tv : 0);
            if (!(og::maxabs(q.com - p.com) <= p.tx)) say("position", p.com, q.com); if (!(qdist(q.q, p.q) <= p.tq)) say("orientation", V(p.q.x, p.q.y, p.q.z), V(q.q.x, q.q.y, q.q.z)); if (!(std::fabs(og::qlen(q.q) - 1) <= 16 * EPSD)) say("normalised", V(), V(og::qlen(q.q), 0, 0));
            C.seen(vh::hashBytes(&q.v, sizeof(V) * 1) ^ vh::hashBytes(&q.p, sizeof(V)));
        }
    }
    C.sample("%d bodies, %d steps", n, steps);
}
int main(int c, char** v) { return vh::runMain(c, v, [](vh::Ctx& C) { if (C.mode == "free") freeBodies(C); else world(C, C.mode == "world"); }); }
