// C15: the impulses contacts exert, observed from the motion of the bodies (restitution, friction cone, no pulling, settling, no energy from nothing)
#include "dyn.h"
struct CL : rp::EventListener { int points = 0, pairs = 0; double depth = 0; V n, at, up; double tilt = 0; double spread = 0; rp::Body *first = nullptr, *ref = nullptr; void reset() { points = pairs = 0; depth = spread = tilt = 0; first = nullptr; } void onContact(const rp::CollisionCallback::CallbackData& d) override { for (uint32_t i = 0; i < d.getNbContactPairs(); i++) { auto p = d.getContactPair(i); if (p.getNbContactPoints()) pairs++; for (uint32_t k = 0; k < p.getNbContactPoints(); k++) { points++; depth = std::max(depth, double(p.getContactPoint(k).getPenetrationDepth())); if (points > 1) spread = std::max(spread, og::len(n - ov(p.getContactPoint(k).getWorldNormal()))); n = ov(p.getContactPoint(k).getWorldNormal()); first = p.getBody1(); tilt = std::max(tilt, 1 - og::dot(n, up) * (p.getBody1() == ref ? -1 : 1)); at = ov(p.getCollider1()->getLocalToWorldTransform() * p.getContactPoint(k).getLocalPointOnCollider1()); } } } };
struct W2 { vh::Rng& g; PC h; CL cl; rp::PhysicsWorld* w = nullptr; double dt, thr; V G;
    W2(vh::Rng& r, V grav, bool split = true) : g(r) { rp::PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = false; ws.gravity = rv(grav); G = ov(ws.gravity); thr = g.chance(0.5) ? 0.5 : g.uniform(0, 2); ws.restitutionVelocityThreshold = decimal(thr); thr = rd(thr); w = h.createPhysicsWorld(ws); w->setEventListener(&cl); dt = rd(g.chance(0.7) ? 1 / 60.0 : g.uniform(0.004, 0.02)); if (!split) w->setContactsPositionCorrectionTechnique(rp::ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS); }
    ~W2() { h.destroyPhysicsWorld(w); }
    rp::RigidBody* body(V p, Q q, rp::BodyType t, Sh s, double bounce, double mu, double mass) { bool later = g.chance(0.25); auto* b = w->createRigidBody(later ? rt(rndBox(g, 30), rndOrient(g)) : rt(p, q)); auto* c = b->addCollider(s.s, rp::Transform::identity()); if (later) b->setTransform(rt(p, q)); c->getMaterial().setBounciness(decimal(bounce)); c->getMaterial().setFrictionCoefficient(decimal(mu)); b->setType(t); b->updateMassPropertiesFromColliders(); if (t == rp::BodyType::DYNAMIC) { double k = mass / b->getMass(); b->setMass(decimal(mass)); b->setLocalInertiaTensor(b->getLocalInertiaTensor() * decimal(k)); } b->setLinearDamping(0); b->setAngularDamping(0); return b; }
    Sh floor(int kind, double half) { if (kind == 0) return mkBox(h, V(half, 0.5, half)); if (kind == 1) { std::vector<V> v; std::vector<int> id; sheet(g, g.range(1, 4), g.range(1, 4), half, 0, v, id, true); return mkMesh(h, v, id); } int c = g.range(2, 6), r = g.range(2, 6); return mkField(h, std::vector<float>(size_t(c) * r, 0.f), c, r, V(half, 1, half)); }
};
static V com(rp::RigidBody* b) { return ov(b->getTransform().getPosition()) + og::rot(oq(b->getTransform().getOrientation()), ov(b->getLocalCenterOfMass())); }
static double lowest(const Sh& s, rp::RigidBody* b, V up) { Q q = oq(b->getTransform().getOrientation()); V p = ov(b->getTransform().getPosition()); double m = 1e300; for (V x : s.o.pts) m = std::min(m, og::dot(p + og::rot(q, x), up)); return m - s.o.r; }
static double bnc(vh::Rng& g) { return g.chance(0.3) ? 0 : g.chance(0.2) ? 1 : g.unit(); }
// a sphere against the floor, or against another sphere: the change of velocity in every step
static void spheres(vh::Ctx& C) {
    vh::Rng& g = C.rng; bool ground = g.chance(0.6); int kind = g.chance(0.5) ? 0 : 1; double gr = g.chance(0.7) ? g.uniform(1, 15) : 0; Q F = rndOrient(g); F = oq(rt(V(), F).getOrientation()); V up = og::rot(F, V(0, 1, 0)), tilt = og::rot(F, V(g.uniform(-0.5, 0.5), -1, g.uniform(-0.5, 0.5)) * (ground ? gr : 0)); W2 W(g, tilt);
    double mu1 = g.chance(0.25) ? 0 : g.uniform(0, 1.5), mu2 = g.chance(0.1) ? 0 : g.uniform(0, 1.5), e1 = bnc(g), e2 = bnc(g), mu = std::sqrt(rd(mu1) * rd(mu2)), e = std::max(rd(e1), rd(e2)), r = g.uniform(0.3, 1.5), r2 = g.uniform(0.3, 1.5), m = g.logUniform(0.2, 50), m2 = g.logUniform(0.2, 50); V O = rndBox(g, 5);
    rp::RigidBody *a, *b; Sh sa = mkSphere(W.h, r), sb;
    if (ground) { sb = W.floor(kind, 12); a = W.body(O + up * (r + (kind == 0 ? 0.5 : 0) + g.uniform(0, 0.5)), rndOrient(g), rp::BodyType::DYNAMIC, sa, e1, mu1, m); b = W.body(O, F, g.chance(0.8) || kind ? rp::BodyType::STATIC : rp::BodyType::KINEMATIC, sb, e2, mu2, 1); a->setLinearVelocity(rv(og::rot(F, V(g.uniform(-3, 3), g.uniform(-5, 1), g.uniform(-3, 3))))); if (b->getType() == rp::BodyType::KINEMATIC) { b->setLinearVelocity(rv(og::rot(F, V(g.uniform(-1, 1), 0, g.uniform(-1, 1))))); } }
    else { sb = mkSphere(W.h, r2); a = W.body(O, rndOrient(g), rp::BodyType::DYNAMIC, sa, e1, mu1, m); V d = rndUnit(g); b = W.body(O + d * (r + r2) * g.uniform(1, 1.2), rndOrient(g), rp::BodyType::DYNAMIC, sb, e2, mu2, m2); V u = rndBox(g, 3); a->setLinearVelocity(rv(u + d * g.uniform(0, 3) + rndBox(g, 1))); b->setLinearVelocity(rv(u - d * g.uniform(0, 3))); b->setAngularVelocity(rv(rndBox(g, g.chance(0.5) ? 0 : 6))); }
    if (g.chance(0.7)) a->setAngularVelocity(rv(g.chance(0.3) ? up * g.uniform(-8, 8) : rndBox(g, 6))); bool dynB = b->getType() == rp::BodyType::DYNAMIC; std::string who = std::string(ground ? kind == 0 ? "sphere on a box" : "sphere on a mesh" : "sphere on a sphere");
    bool mesh = ground && kind == 1; int steps = C.thorough ? 200 : 80; double touch = 0;
    for (int k = 0; k < steps; k++) {
        V va = ov(a->getLinearVelocity()), vb = ov(b->getLinearVelocity()), wa = ov(a->getAngularVelocity()), wb = ov(b->getAngularVelocity()), xa = com(a), xb = com(b); if (ground && og::len(xa - O) > 9) break;
        W.cl.reset(); W.w->update(decimal(W.dt)); if (W.cl.pairs == 0) { touch = 0; continue; } if (W.cl.pairs != 1) continue;
        V n = ground ? up : og::unit(xa - xb); if (W.cl.points == 0) continue; if (W.cl.points > 1) { C.count("steps left out: several contact points"); touch++; continue; } double align = std::fabs(og::dot(n, W.cl.n)); if (align < 1 - 1e-6 || W.cl.spread > 1e-3) { C.count("steps left out: other normal"); continue; } if (og::len(n - W.cl.n * (W.cl.first == a ? -1.0 : 1.0)) > 1e-2) { C.fail("normal", "%s: normal %s", who.c_str(), vs(W.cl.n).c_str()); break; }
        n = W.cl.n * (W.cl.first == a ? -1.0 : 1.0); if (og::len(og::cross(W.cl.at - xa, n)) > 2e-3) { C.count(mesh ? "steps left out: contact point beside the center" : "contact points beside the center"); if (mesh) { touch++; continue; } } C.eval(); C.count("contact steps: " + who); V va1 = ov(a->getLinearVelocity()), vb1 = ov(b->getLinearVelocity()), wa1 = ov(a->getAngularVelocity()), wb1 = ov(b->getAngularVelocity()), J = (va1 - va - W.G * W.dt) * m; double jn = og::dot(J, n); V jt = J - n * jn; double in0 = og::dot(va - vb, n), in1 = og::dot(va1 - vb1, n), sc = m * (og::len(va) + og::len(vb) + og::len(va1) + og::len(W.G) * W.dt + r * og::len(wa) + 0.01), tol = sc * (mesh ? 3e-3 : DBL ? 3e-5 : 2e-4) + 2e-3 * std::fabs(jn) * (mesh ? 2 : 1);
        C.seen(vh::hashBytes(&J, sizeof J)); std::string ctx = who + ", bounciness " + std::to_string(e1) + " " + std::to_string(e2) + ", friction " + std::to_string(mu1) + " " + std::to_string(mu2) + ", threshold " + std::to_string(W.thr) + ", step " + std::to_string(k) + ", contact for " + std::to_string(int(touch)) + " steps"; double meff = 1 / (1 / m + (dynB ? 1 / m2 : 0)); V rr = -n * (double(r) - W.cl.depth / 2); (void)rr;
        // never pulled together
        C.maxi("largest pulling impulse, share of the tolerance", -jn / tol); if (!(jn >= -tol)) C.fail("pull", "%s: the contact pulls with the impulse %g", ctx.c_str(), jn);
        // the speed after the contact: stopped, or sent back with the bounciness
        double want = in0 < -W.thr ? -e * in0 : 0, free1 = in0 + og::dot(W.G * W.dt, n); want = std::max(want, free1); bool border = std::fabs(in0 + W.thr) < 1e-4 * (1 + W.thr); double ve = std::fabs(in1 - want) * meff; if (!border) { C.maxi("largest error of the speed after a contact, share of the tolerance", ve / tol); C.count(in0 < -W.thr ? "bounces" : free1 >= 0 ? "separating contacts" : "resting contacts"); if (!(ve <= tol)) C.fail("restitution", "%s: approach speed %g (with gravity %g), afterwards the bodies part with %g instead of %g", ctx.c_str(), -in0, -free1, in1, want); }
        // friction inside its cone (each of the two directions), along the sliding, and using all of it while sliding goes on
        double lim = mu * std::max(jn, 0.0), jtl = og::len(jt); C.maxi("largest friction beyond its limit, share of the tolerance", (jtl - lim * 1.4143) / tol); if (!(jtl <= lim * 1.4143 + tol)) C.fail("friction-limit", "%s: friction impulse %g with normal impulse %g, the coefficient is %g", ctx.c_str(), jtl, jn, mu);
        V ra = -n * double(r), slip0 = va + og::cross(wa, ra) - vb - og::cross(wb, n * (ground ? 0.0 : r2)), slip1 = va1 + og::cross(wa1, ra) - vb1 - og::cross(wb1, n * (ground ? 0.0 : r2)); slip0 = slip0 - n * og::dot(n, slip0); slip1 = slip1 - n * og::dot(n, slip1); double s1 = og::len(slip1), s0 = og::len(slip0);
        if (s0 > 0.2 && jn > 20 * tol && mu > 0.01) { C.count("sliding contacts"); double along = og::dot(jt, og::unit(slip0)); if (!(along <= tol)) C.fail("friction-direction", "%s: friction %g along the sliding", ctx.c_str(), along);
            if (s1 > 0.1 && og::dot(slip0, slip1) > 0.5 * s0 * s1) { C.count("sliding goes on"); if (!(jtl >= lim * 0.9 - tol)) C.fail("friction-missing", "%s: sliding with %g, friction impulse %g with normal impulse %g", ctx.c_str(), s0, jtl, jn); V gt = W.G - n * og::dot(W.G, n); if (touch < 1 && !(jtl <= lim * 1.02 + tol + m * W.dt * og::len(gt))) C.fail("friction-limit", "%s: friction impulse %g with normal impulse %g in the direction of the sliding", ctx.c_str(), jtl, jn); } }
        // the friction against spinning about the normal
        double I = ov(a->getLocalInertiaTensor()).x, tw = I * og::dot(wa1 - wa, n), sp = og::dot(wa - wb, n); C.maxi("largest twist friction beyond its limit, share of the tolerance", (std::fabs(tw) - lim) / tol); if (!(std::fabs(tw) <= lim + tol * (1 + r))) C.fail("twist-limit", "%s: spin about the normal braked by %g, more than friction times the normal impulse %g", ctx.c_str(), tw, lim); if (!(tw * sp <= tol * (1 + r) * std::fabs(sp))) C.fail("twist-direction", "%s: spin %g about the normal changed by an impulse %g", ctx.c_str(), sp, tw);
        touch++;
    }
    C.sample("%s, bounciness %.2f %.2f, friction %.2f %.2f", who.c_str(), e1, e2, mu1, mu2);
}
// bodies of every convex shape thrown on a floor: friction cone of the whole contact, and they come to rest on it
static void settle(vh::Ctx& C) {
    // a body dug in for a moment by a rare misplaced contact is judged by its share of all bodies, one that goes through at once
    static std::map<std::string, long> seldom; static long runs = 0; runs++; bool sunk = false; auto odd = [&](const char* w) { C.count(std::string("settling bodies that ") + w); return ++seldom[w] > 3 + runs / 200; };
    vh::Rng& g = C.rng; int kind = g.below(3); Q F = oq(rt(V(), g.chance(0.5) ? rndOrient(g) : Q()).getOrientation()); V up = og::rot(F, V(0, 1, 0)); bool split = g.chance(0.7); double gr = g.uniform(3, 12); W2 W(g, up * -gr, split); W.dt = rd(g.uniform(0.005, 1 / 60.0)); W.w->setNbIterationsVelocitySolver(g.range(6, 20));
    V O = rndBox(g, 3); double e2 = g.chance(0.5) ? 0 : g.uniform(0, 0.3), mu2 = g.uniform(0.3, 1); W.body(O, F, rp::BodyType::STATIC, W.floor(kind, 25), e2, mu2, 1); double top = og::dot(O, up) + (kind == 0 ? 0.5 : 0);
    Sh s; for (int i = 0; i < 20; i++) { s = rndShape(W.h, g, g.uniform(0.5, 1.2), convexKinds()); if (s.s && (kind == 0 || s.inR > 0.2)) break; } if (!s.s || (kind && s.inR <= 0.2)) return; double e1 = g.chance(0.5) ? 0 : g.uniform(0, 0.3), mu1 = g.uniform(0.3, 1), mu = std::sqrt(mu1 * mu2), m = g.logUniform(0.2, 50); bool com0 = g.chance(0.3);
    auto* b = W.body(O + up * (s.R + (kind == 0 ? 0.5 : 0) + g.uniform(0, 0.5)), rndOrient(g), rp::BodyType::DYNAMIC, s, e1, mu1, m); if (com0) b->setLocalCenterOfMass(rv(rndBox(g, 0.3) * s.inR)); m = b->getMass(); b->setAngularDamping(decimal(0.3)); b->setLinearDamping(decimal(0.05)); b->setLinearVelocity(rv(og::rot(F, V(g.uniform(-1, 1), g.uniform(-2, 0), g.uniform(-1, 1))))); b->setAngularVelocity(rv(rndBox(g, 2)));
    W.cl.up = up; W.cl.ref = b; double T = C.thorough ? 12 : 7; int steps = int(T / W.dt); double worst = 1e300, still = 0, ld = b->getLinearDamping();
    for (int k = 0; k < steps; k++) {
        V v0 = ov(b->getLinearVelocity()); W.cl.reset(); W.w->update(decimal(W.dt)); V v1 = ov(b->getLinearVelocity()), J = (v1 - (v0 + W.G * W.dt) / (1 + ld * W.dt)) * m; double jn = og::dot(J, up), tol = m * (og::len(v0) + og::len(v1) + gr * W.dt) * (DBL ? 1e-5 : 5e-4) + m * 1e-4; double jt = og::len(J - up * jn), low = lowest(s, b, up) - top; V x = com(b); C.eval(); C.seen(vh::hashBytes(&x, sizeof x));
        if (!og::finite(v1)) { C.fail("not-finite", "%s step %d", s.o.desc.c_str(), k); return; } if (og::len(x - O) > 20) { C.count("left the floor"); return; }
        if (W.cl.points) { C.count("contact steps of settling bodies"); C.maxi("largest pulling impulse of a settling body, share of the tolerance", -jn / tol); C.maxi("largest friction of a settling body beyond its limit, share of the tolerance", (jt - 1.4143 * mu * std::max(jn, 0.0)) / tol); std::string ctx = s.o.desc + " on floor " + std::to_string(kind) + " step " + std::to_string(k) + " dt " + std::to_string(W.dt);
            if (W.cl.tilt > 0.01) { C.count("steps left out: tilted contact normal"); } else if (!(jn >= -tol - 0.02 * m * gr * W.dt)) C.fail("settle-pull", "%s: the contacts pull with %g", ctx.c_str(), jn); else if (!(jt <= 1.4143 * mu * std::max(jn, 0.0) + tol + 0.02 * m * gr * W.dt)) C.fail("settle-friction", "%s: friction %g with normal impulse %g and coefficient %g", ctx.c_str(), jt, jn, mu); }
        else { C.count("flight steps of settling bodies"); if (!(og::len(J) <= tol)) C.fail("settle-free", "%s: impulse %s without contact", s.o.desc.c_str(), vs(J).c_str()); }
        if (k * W.dt > 1) worst = std::min(worst, low); if (k * W.dt > T - 1) still = std::max(still, og::len(v1)); if (low < -std::max(0.5 * s.inR, 0.3)) { if (low < -1.5 * s.R) { C.fail("sinks-through", "%s sinks %g into floor %d", s.o.desc.c_str(), -low, kind); return; } if (!sunk && odd("sinks")) { C.fail("sinks", "%s sinks %g into floor %d, and it is not the only one", s.o.desc.c_str(), -low, kind); return; } sunk = true; }
        if (k == steps - 1) { C.count(std::string("settled: ") + skname(s.k)); C.maxi(std::string("deepest penetration after a second: ") + skname(s.k), -worst); C.maxi(std::string("highest position at the end: ") + skname(s.k), low); C.maxi(std::string("speed in the last second: ") + skname(s.k), still);
            if (sunk) {} else if (!(low < 0.02) && (low > 0.1 || odd("floats"))) C.fail("floats", "%s is %g above the floor in the end", s.o.desc.c_str(), low); if (!sunk && !(worst > -0.3) && odd("penetrates")) C.fail("penetrates", "%s penetrates the floor by %g", s.o.desc.c_str(), -worst); if (!sunk && still < 0.05 && !(low > -0.04) && (low < -0.1 || odd("rests inside"))) C.fail("rests-inside", "%s rests %g inside the floor", s.o.desc.c_str(), -low); }
    }
    C.sample("%s on floor %d, speed %.4f in the end, at most %.4f inside", s.o.desc.c_str(), kind, still, -worst);
}
// a flat box on a slope
static void slope(vh::Ctx& C) {
    vh::Rng& g = C.rng; Q F = oq(rt(V(), g.chance(0.5) ? rndOrient(g) : Q()).getOrientation()); V up = og::rot(F, V(0, 1, 0)); double az = g.uniform(0, 6.3), th = g.uniform(0.1, 0.9), gr = g.uniform(3, 12); V down = og::rot(F, V(std::cos(az), 0, std::sin(az))); W2 W(g, (down * std::sin(th) - up * std::cos(th)) * gr); int kind = 0; W.dt = rd(g.uniform(0.005, 1 / 60.0)); W.w->setNbIterationsVelocitySolver(g.range(10, 20));
    double mu1 = g.uniform(0.05, 1.2), mu2 = g.uniform(0.05, 1.2), mu = std::sqrt(mu1 * mu2); V O = rndBox(g, 3); W.body(O, F, rp::BodyType::STATIC, W.floor(kind, 25), 0, mu2, 1); V half(g.uniform(0.4, 0.8), g.uniform(0.05, 0.12), g.uniform(0.4, 0.8)); bool slides = g.chance(0.6); double v0 = slides ? g.uniform(0.5, 2) : 0;
    Q yaw = F * og::axisAngle(V(0, 1, 0), g.uniform(0, 6.3)); Sh s = mkBox(W.h, half); auto* b = W.body(O + up * (half.y + (kind == 0 ? 0.5 : 0) - 0.005), yaw, rp::BodyType::DYNAMIC, s, 0, mu1, g.logUniform(0.2, 50)); b->setLinearVelocity(rv(down * v0)); double T = 0.6; int n = int(T / W.dt); V x0 = com(b);
    for (int k = 0; k < n; k++) { W.cl.reset(); W.w->update(decimal(W.dt)); C.eval(); }
    double t = n * W.dt, x = og::dot(com(b) - x0, down), v = og::dot(ov(b->getLinearVelocity()), down), a = gr * (std::sin(th) - mu * std::cos(th)), side = og::len(com(b) - x0 - down * x - up * og::dot(com(b) - x0, up)); std::string ctx = "slope of tangent " + std::to_string(std::tan(th)) + ", friction " + std::to_string(mu) + ", gravity " + std::to_string(gr) + ", start speed " + std::to_string(v0);
    double ev = v0 + a * t, ex = v0 * t + a * t * t / 2; if (ev < 0) { ex = -v0 * v0 / (2 * a); ev = 0; } C.seen(vh::hashBytes(&x, sizeof x)); (void)side;
    if (slides) { C.count(a > 0 ? "boxes sliding faster" : "boxes braked"); double tol = 0.005 * gr * t; C.maxi("largest error of the speed of a sliding box, share of the tolerance", std::fabs(v - ev) / tol); if (!(std::fabs(v - ev) <= tol) || !(std::fabs(x - ex) <= tol * t + 0.02)) C.fail("slope", "%s: after %g s it moves with %g and came %g far instead of %g and %g", ctx.c_str(), t, v, x, ev, ex); }
    else if (mu > 1.1 * std::tan(th)) { C.count("boxes held by friction"); C.maxi("how far a held box moves", std::fabs(x)); if (!(std::fabs(x) < 0.005 && std::fabs(v) < 0.01)) C.fail("slips", "%s: the box moved by %g and has the speed %g", ctx.c_str(), x, v); }
    else if (1.5 * mu < std::tan(th)) { C.count("boxes that start to slide"); if (!(v > 0.5 * gr * (std::sin(th) - 1.4143 * mu * std::cos(th)) * t)) C.fail("sticks", "%s: the box has the speed %g after %g s", ctx.c_str(), v, t); }
}
// contacts without bounce do not add kinetic energy
static void energy(vh::Ctx& C) {
    vh::Rng& g = C.rng; W2 W(g, V()); int n = g.range(2, 6); double mu = g.chance(0.5) ? 0 : g.uniform(0, 1); std::vector<rp::RigidBody*> b; double s = g.uniform(0.8, 1.6); W.w->setNbIterationsVelocitySolver(g.range(4, 20)); if (g.chance(0.3)) W.body(V(0, -2, 0), Q(), rp::BodyType::STATIC, mkBox(W.h, V(10, 0.5, 10)), 0, mu, 1);
    for (int i = 0; i < n; i++) { Sh h = rndShape(W.h, g, 0.6, convexKinds()); if (!h.s) continue; V p = rndBox(g, s); b.push_back(W.body(p, rndOrient(g), rp::BodyType::DYNAMIC, h, 0, mu, g.logUniform(0.5, 10))); b.back()->setLinearVelocity(rv(-p * g.uniform(0, 2) + rndBox(g, 0.5))); b.back()->setAngularVelocity(rv(rndBox(g, 2))); }
    auto ke = [&] { double e = 0; for (auto* x : b) { V v = ov(x->getLinearVelocity()), w = ov(x->getAngularVelocity()), I = ov(x->getLocalInertiaTensor()); V l = og::mat(oq(x->getTransform().getOrientation())).t() * w; e += 0.5 * x->getMass() * og::dot(v, v) + 0.5 * og::dot(l, og::had(I, l)); } return e; };
    auto keAt = [&](const std::vector<og::M>& R) { double e = 0; size_t i = 0; for (auto* x : b) { V v = ov(x->getLinearVelocity()), w = ov(x->getAngularVelocity()), I = ov(x->getLocalInertiaTensor()); V l = R[i++].t() * w; e += 0.5 * x->getMass() * og::dot(v, v) + 0.5 * og::dot(l, og::had(I, l)); } return e; };
    double start = ke(), gain = 0; int steps = C.thorough ? 200 : 60;
    for (int k = 0; k < steps; k++) { std::vector<og::M> R; for (auto* x : b) R.push_back(og::mat(oq(x->getTransform().getOrientation()))); double e0 = keAt(R); W.cl.reset(); W.w->update(decimal(W.dt)); double e1 = keAt(R); if (mu == 0 && !(e1 - e0 <= 0.04 * start)) { C.fail("energy-frictionless", "step %d: contacts without bounce and friction raise the kinetic energy from %g to %g (start %g)", k, e0, e1, start); return; } C.eval(); if (!W.cl.points) continue; C.count("contact steps of colliding groups"); C.seen(vh::hashBytes(&e1, sizeof e1)); gain += std::max(0.0, e1 - e0); C.maxi(mu == 0 ? "largest gain of energy in a step without friction, share of the start" : "largest gain of energy in a step, share of the start", (e1 - e0) / start);
        if (!(e1 - e0 <= 0.08 * start)) { C.fail("energy", "step %d: contacts without bounce raise the kinetic energy from %g to %g (start %g, friction %g, %zu bodies)", k, e0, e1, start, mu, b.size()); return; } }
    C.maxi("largest sum of gains of energy, share of the start", gain / start);
}
// a box landing flat (four contact points at once): sent back with the bounciness, or not at all when slower than the threshold
static void landing(vh::Ctx& C) {
    vh::Rng& g = C.rng; Q F = oq(rt(V(), g.chance(0.5) ? rndOrient(g) : Q()).getOrientation()); V up = og::rot(F, V(0, 1, 0)); double gr = g.chance(0.5) ? g.uniform(1, 12) : 0; W2 W(g, up * -gr); W.w->setNbIterationsVelocitySolver(g.range(15, 30)); double mu1 = g.unit(), mu2 = g.unit(), e1 = bnc(g), e2 = bnc(g), e = std::max(rd(e1), rd(e2));
    V O = rndBox(g, 3); bool two = g.chance(0.3); double m = g.logUniform(0.2, 50), m2 = g.logUniform(0.2, 50); auto dim = [&]() { double x = g.uniform(0.4, 1.2); return V(x, g.uniform(0.15, 0.5), x * g.uniform(0.6, 1.6)); }; V ha = dim(), hb = two ? dim() : V(12, 0.5, 12);
    Sh sb = two ? mkBox(W.h, hb) : W.floor(0, 12), sa = mkBox(W.h, ha); Q yaw = F * og::axisAngle(V(0, 1, 0), two ? 0 : g.uniform(0, 6.3)); auto* b = W.body(O, F, two ? rp::BodyType::DYNAMIC : rp::BodyType::STATIC, sb, e2, mu2, m2);
    auto* a = W.body(O + up * (ha.y + hb.y - g.uniform(0, 0.006)), yaw, rp::BodyType::DYNAMIC, sa, e1, mu1, m); double v = W.thr * (g.chance(0.5) ? g.uniform(0.05, 0.95) : g.uniform(1.05, 3)) + (W.thr < 0.05 ? g.uniform(0.2, 2) : 0); V drift = rndBox(g, 2); a->setLinearVelocity(rv(drift - up * v)); b->setLinearVelocity(two ? rv(drift) : rp::Vector3(0, 0, 0)); if (!two) a->setLinearVelocity(rv(-up * v));
    bool fast = v > W.thr; std::string ctx = std::string(two ? "box on a box" : "box on the ground") + ", bounciness " + std::to_string(e1) + " " + std::to_string(e2) + ", approach speed " + std::to_string(v) + ", threshold " + std::to_string(W.thr); double worst = 0;
    for (int k = 0; k < 12; k++) {
        V rel = ov(a->getLinearVelocity()) - ov(b->getLinearVelocity()); double in0 = og::dot(rel, up); W.cl.reset(); W.w->update(decimal(W.dt)); if (W.cl.pairs == 0) break; if (W.cl.points < 3) { C.count("landings with fewer points"); break; } C.eval(); V r1 = ov(a->getLinearVelocity()) - ov(b->getLinearVelocity()); double in1 = og::dot(r1, up), free1 = in0 - (two ? 0 : gr * W.dt), want = std::max(in0 < -W.thr ? -e * in0 : 0.0, free1); if (std::fabs(in0 + W.thr) < 1e-3 * (1 + W.thr)) break;
        double tol = 0.003 * (v + gr * W.dt), err = std::fabs(in1 - want), spin = og::len(ov(a->getAngularVelocity()) - ov(b->getAngularVelocity())); worst = std::max(worst, err / tol); C.maxi("largest error of the speed of a flat box after a contact, share of the tolerance", err / tol); C.count(fast ? "flat boxes bouncing" : "flat boxes landing without a bounce"); C.seen(vh::hashBytes(&in1, sizeof in1));
        if (!(err <= tol)) { C.fail("flat-restitution", "%s: step %d with approach speed %g, afterwards the bodies part with %g instead of %g (spin %g)", ctx.c_str(), k, -in0, in1, want, spin); break; }
        if (in1 > 1e-3) break;
    }
}
// a pile of flat boxes on tilted ground, the load well inside the friction cone: it comes to rest and stays where it is
static void pile(vh::Ctx& C) {
    static long runs = 0, creeps = 0, sinks = 0; vh::Rng& g = C.rng; Q F = oq(rt(V(), g.chance(0.5) ? rndOrient(g) : Q()).getOrientation()); V up = og::rot(F, V(0, 1, 0)); double mu1 = g.uniform(0.5, 1.2), mu2 = g.uniform(0.5, 1.2), mu = std::min(mu1, mu2), th = std::atan(std::min(g.uniform(0.1, 0.5) * mu, 0.3)), az = g.uniform(0, 6.3), gr = g.uniform(3, 12); V down = og::rot(F, V(std::cos(az), 0, std::sin(az)));
    W2 W(g, (down * std::sin(th) - up * std::cos(th)) * gr, g.chance(0.8)); W.dt = rd(g.uniform(0.008, 1 / 60.0)); W.w->setNbIterationsVelocitySolver(g.range(6, 20)); V O = rndBox(g, 3); int kind = g.below(3); W.body(O, F, rp::BodyType::STATIC, W.floor(kind, 25), 0, mu2, 1); double top = kind == 0 ? 0.5 : 0;
    int sides = g.chance(0.4) ? g.range(5, 10) : 0, n = sides ? g.range(1, 3) : g.range(2, 5); double x = g.uniform(0.4, 1), z = x * g.uniform(0.8, 1.25), m = g.logUniform(0.5, 10), y = top; std::vector<rp::RigidBody*> b; std::vector<double> hy; Q yaw = F * og::axisAngle(V(0, 1, 0), g.uniform(0, 6.3));
    auto flat = [&](V e) { if (!sides) return mkBox(W.h, e); std::vector<V> q; for (int k = 0; k < sides; k++) for (double s : {-1.0, 1.0}) q.push_back(V(e.x * std::cos(k * 2 * M_PI / sides), s * e.y, e.z * std::sin(k * 2 * M_PI / sides))); return mkHullQuick(W.h, q); };
    for (int i = 0; i < n; i++) { double h = x * g.uniform(0.2, 0.4); y += h - 0.003; b.push_back(W.body(O + up * y, yaw, rp::BodyType::DYNAMIC, flat(V(x, h, z)), 0, mu1, m * g.uniform(0.5, 1))); y += h; hy.push_back(h); x *= g.uniform(0.9, 1); z *= g.uniform(0.9, 1); }
    int k0 = int(1.5 / W.dt), k1 = int(4.5 / W.dt); std::vector<V> p0; double deep = 0, drift = 0, v = 0;
    for (int k = 0; k < k1; k++) { W.cl.reset(); W.w->update(decimal(W.dt)); C.eval(); if (k == k0) for (auto* a : b) p0.push_back(ov(a->getTransform().getPosition())); if (k < k0) continue; double at = og::dot(O, up) + top; for (int i = 0; i < n; i++) { V p = ov(b[i]->getTransform().getPosition()); deep = std::max(deep, at - (og::dot(p, up) - hy[i])); at = og::dot(p, up) + hy[i]; drift = std::max(drift, og::len(p - p0[i])); v = std::max(v, og::len(ov(b[i]->getLinearVelocity()))); } C.seen(vh::hashBytes(&p0[0], sizeof(V))); }
    runs++; C.count(sides ? "piles of prisms" : "piles of boxes"); if (sides) for (double s : {1e-3, 1e-2, 3e-2, 1e-1}) if (drift > s) C.count("prisms moving more than " + std::to_string(s)); C.maxi(std::string(sides ? "how far a prism in a pile at rest moves" : "how far a box in a pile at rest moves") + ", floor " + std::to_string(kind), drift); C.maxi("how deep a box in a pile is inside the next", deep); 
    std::string ctx = "pile of " + std::to_string(n) + (sides ? " prisms of " + std::to_string(sides) + " sides" : std::string(" boxes")) + ", friction " + std::to_string(mu) + ", slope of tangent " + std::to_string(std::tan(th)) + ", gravity " + std::to_string(gr) + ", dt " + std::to_string(W.dt); C.sample("%s: moves %g", ctx.c_str(), drift);
    if (drift > (sides ? 0.03 : 1e-3) && (++creeps > 2 + runs / 50 || drift > (sides ? 0.2 : 0.05))) C.fail("pile-creeps", "%s: a box of the resting pile moves by %g in three seconds%s", ctx.c_str(), drift, drift > (sides ? 0.2 : 0.05) ? "" : ", and it is not the only one");
    if (deep > 0.015 && (++sinks > 2 + runs / 50 || deep > 0.05)) C.fail("pile-sinks", "%s: a box of the resting pile is %g inside the one below%s", ctx.c_str(), deep, deep > 0.05 ? "" : ", and it is not the only one");
}
static void oneCase(vh::Ctx& C) { uint32_t x = C.rng.below(27); if (C.mode == "pile" || x >= 24) pile(C); else if (x >= 20) for (int i = 0; i < 3; i++) landing(C); else if (x < 10) for (int i = 0; i < 3; i++) spheres(C); else if (x < 13) settle(C); else if (x < 16) slope(C); else energy(C); }
int main(int c, char** v) { return vh::runMain(c, v, oneCase); }
