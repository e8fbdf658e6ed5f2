// C16 (mode ""): trees of bodies held by joints keep their constraints, and report the force they exert.
// C17 (mode "limits"): limits and motors against the true angle or translation.  C18 (mode "life"): creation, readback, destruction.
#include "dyn.h"
#include <set>
static const double PI = 3.14159265358979323846;
struct Jd { rp::Joint* j = nullptr; rp::JointType t; int a, b; V la, lb, xa, xb; Q rel0; bool ngs = true, local = false; int lost = 0; double was = 1e300; rp::Vector3 ila, ilb, ixa, ixb, iw, ixw; };
struct Pose2 { V p; Q q; };
static const char* jn(rp::JointType t) { return t == rp::JointType::BALLSOCKETJOINT ? "ball" : t == rp::JointType::SLIDERJOINT ? "slider" : t == rp::JointType::HINGEJOINT ? "hinge" : "fixed"; }
static Q qinv(Q q) { return Q(-q.x, -q.y, -q.z, q.w); }
static double qang(Q q) { q = og::qunit(q); return 2 * std::atan2(std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z), std::fabs(q.w)); }
struct JW {
    PC h; rp::PhysicsWorld* w = nullptr; std::vector<rp::RigidBody*> b; std::vector<Jd> j; vh::Rng& g; std::vector<double> size;
    JW(vh::Rng& r) : g(r) {}
    rp::RigidBody* body(V p, Q q, rp::BodyType t, double density, V half, bool com) {
        int moved = g.below(4); auto* x = w->createRigidBody(moved ? rt(p, q) : rt(rndBox(g, 9), rndOrient(g))); auto* c = x->addCollider(h.createBoxShape(rv(half)), rp::Transform::identity()); c->setCollideWithMaskBits(0); c->getMaterial().setMassDensity(decimal(density)); x->updateMassPropertiesFromColliders();
        bool before = g.chance(0.5); if (before) x->setType(t); if (com) x->setLocalCenterOfMass(rv(V(g.uniform(-1, 1) * half.x, g.uniform(-1, 1) * half.y, g.uniform(-1, 1) * half.z) * 0.6)); if (!before) x->setType(t); if (!moved) x->setTransform(rt(p, q));
        x->setLinearDamping(decimal(0)); x->setAngularDamping(decimal(0)); b.push_back(x); size.push_back(og::len(half)); return x;
    }
    V P(int i) { return ov(b[i]->getTransform().getPosition()); } Q O(int i) { return oq(b[i]->getTransform().getOrientation()); }
    V com(int i) { return P(i) + og::rot(O(i), ov(b[i]->getLocalCenterOfMass())); }
    // describes joint of type t between bodies a and b with the world anchor and axis, either way
    Jd& joint(rp::JointType t, int a, int c, V anchor, V axis, bool ngs, std::function<void(rp::HingeJointInfo&)> hi = nullptr, std::function<void(rp::SliderJointInfo&)> si = nullptr, bool collide = true) {
        Jd d; d.t = t; d.a = a; d.b = c; d.ngs = ngs; d.local = g.chance(0.5); d.iw = rv(anchor); V axw = axis * (g.chance(0.3) ? g.uniform(0.3, 3) : 1.0); d.ixw = rv(axw); anchor = ov(d.iw);
        d.la = og::rot(qinv(O(a)), anchor - P(a)); d.lb = og::rot(qinv(O(c)), anchor - P(c)); d.xa = og::unit(og::rot(qinv(O(a)), axis)); d.xb = og::unit(og::rot(qinv(O(c)), axis)); d.rel0 = qinv(O(a)) * O(c);
        d.ila = rv(d.la); d.ilb = rv(d.lb); d.ixa = rv(d.xa); d.ixb = rv(d.xb); if (d.local) { d.la = ov(d.ila); d.lb = ov(d.ilb); }
        auto fin = [&](rp::JointInfo& i) { i.positionCorrectionTechnique = ngs ? rp::JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL : rp::JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS; i.isCollisionEnabled = collide; d.j = w->createJoint(i); };
        auto *A = b[a], *B = b[c];
        if (t == rp::JointType::BALLSOCKETJOINT) { if (d.local) { rp::BallAndSocketJointInfo i(A, B, d.ila, d.ilb); fin(i); } else { rp::BallAndSocketJointInfo i(A, B, d.iw); fin(i); } }
        else if (t == rp::JointType::FIXEDJOINT) { if (d.local) { rp::FixedJointInfo i(A, B, d.ila, d.ilb); fin(i); } else { rp::FixedJointInfo i(A, B, d.iw); fin(i); } }
        else if (t == rp::JointType::HINGEJOINT) { if (d.local) { rp::HingeJointInfo i(A, B, d.ila, d.ilb, d.ixa, d.ixb); if (hi) hi(i); fin(i); } else { rp::HingeJointInfo i(A, B, d.iw, d.ixw); if (hi) hi(i); fin(i); } }
        else { if (d.local) { rp::SliderJointInfo i(A, B, d.ila, d.ilb, d.ixa); if (si) si(i); fin(i); } else { rp::SliderJointInfo i(A, B, d.iw, d.ixw); if (si) si(i); fin(i); } }
        j.push_back(d); return j.back();
    }
    // how far the joint is from keeping its constraint: distance and angle
    void error(const Jd& d, double& lin, double& ang) {
        Q qa = O(d.a), qb = O(d.b); V u = P(d.b) + og::rot(qb, d.lb) - P(d.a) - og::rot(qa, d.la), ax = og::rot(qa, d.xa); ang = 0;
        if (d.t == rp::JointType::SLIDERJOINT) u = u - ax * og::dot(u, ax); lin = og::len(u);
        if (d.t == rp::JointType::HINGEJOINT) { V bx = og::rot(qb, d.xb); ang = std::atan2(og::len(og::cross(ax, bx)), og::dot(ax, bx)); }
        else if (d.t != rp::JointType::BALLSOCKETJOINT) ang = qang(qinv(qa * d.rel0) * qb);
    }
    struct Before { std::vector<V> F, T, v, w, com, aa, ab; std::vector<Q> q; std::vector<bool> sl; };
    std::vector<int> deg;
    Before before() { Before x; deg.assign(b.size(), 0); for (auto& d : j) { deg[d.a]++; deg[d.b]++; x.aa.push_back(P(d.a) + og::rot(O(d.a), d.la)); x.ab.push_back(P(d.b) + og::rot(O(d.b), d.lb)); }
        for (size_t i = 0; i < b.size(); i++) { x.F.push_back(ov(b[i]->getForce())); x.T.push_back(ov(b[i]->getTorque())); x.v.push_back(ov(b[i]->getLinearVelocity())); x.w.push_back(ov(b[i]->getAngularVelocity())); x.com.push_back(com(i)); x.q.push_back(O(i)); x.sl.push_back(b[i]->isSleeping()); } return x; }
    // the reaction a joint reports explains the motion of a body it holds alone
    void balance(vh::Ctx& C, Jd& d, const Before& B, V G, double dt, int k, const std::string& desc) {
        V s = ov(d.j->getReactionForce(decimal(dt))), tq = ov(d.j->getReactionTorque(decimal(dt))); size_t id = size_t(&d - &j[0]);
        for (int e = 0; e < 2; e++) { int i = e ? d.b : d.a; if (deg[i] != 1 || b[i]->getType() != rp::BodyType::DYNAMIC || b[i]->isSleeping() || B.sl[i]) continue; double m = b[i]->getMass(); V R = e ? s : -s, v1 = ov(b[i]->getLinearVelocity()), w1 = ov(b[i]->getAngularVelocity()), dv = (v1 - B.v[i]) * m - (B.F[i] + G * m) * dt - R * dt;
            double tol = m * (DBL ? 1e-12 : 4e-6) * (og::len(v1) + og::len(B.v[i]) + 1) + (DBL ? 1e-11 : 2e-5) * og::len(R) * dt; C.count("reaction forces compared with the motion"); C.maxi(std::string("largest mismatch of reaction force and motion, share of the tolerance: ") + jn(d.t), og::len(dv) / tol);
            if (!(og::len(dv) <= tol)) C.fail(std::string("reaction-") + jn(d.t), "step %d dt %g: %s %d-%d reports the reaction %s but the momentum of body %d (mass %g) changed by %s more than force and gravity explain;%s", k, dt, jn(d.t), d.a, d.b, vs(s).c_str(), i, m, vs((dv + R * dt)).c_str(), desc.c_str());
            og::M RR = og::mat(B.q[i]); V I = ov(b[i]->getLocalInertiaTensor()), dw = w1 - B.w[i], dL = RR * og::had(I, RR.t() * dw) - B.T[i] * dt, arm = (e || d.t == rp::JointType::SLIDERJOINT ? B.ab[id] : B.aa[id]) - B.com[i]; V X = og::cross(arm, R) * dt + tq * (e ? dt : -dt);
            double ttol = og::maxabs(I) * (DBL ? 1e-11 : 2e-5) * (og::len(w1) + og::len(B.w[i]) + 1) + (DBL ? 1e-11 : 4e-5) * (og::len(arm) * og::len(R) + og::len(tq)) * dt; C.maxi(std::string("largest mismatch of reaction torque and motion, share of the tolerance: ") + jn(d.t), og::len(dL - X) / ttol);
            if (!(og::len(dL - X) <= ttol)) C.fail(std::string("reaction-torque-") + jn(d.t), "step %d dt %g: %s %d-%d reports the force %s and torque %s, which turn body %d by %s, but its angular momentum changed by %s;%s", k, dt, jn(d.t), d.a, d.b, vs(s).c_str(), vs(tq).c_str(), i, vs(X).c_str(), vs(dL).c_str(), desc.c_str()); }
    }
};
static rp::JointType rndT(vh::Rng& g) { static const rp::JointType t[] = {rp::JointType::BALLSOCKETJOINT, rp::JointType::SLIDERJOINT, rp::JointType::HINGEJOINT, rp::JointType::FIXEDJOINT}; return t[g.below(4)]; }
static void keep(vh::Ctx& C) {
    vh::Rng& g = C.rng; JW W(g); rp::PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = g.chance(0.3); bool grav = g.chance(0.7); V G = grav ? rndUnit(g) * g.uniform(2, 12) : V(); ws.gravity = rv(G); G = ov(ws.gravity); W.w = W.h.createPhysicsWorld(ws); W.w->setNbIterationsVelocitySolver(g.range(15, 40)); W.w->setNbIterationsPositionSolver(g.range(10, 30));
    int root = g.below(4); double dens = g.logUniform(0.5, 300), L = g.uniform(0.5, 1.5); auto half = [&] { return V(g.uniform(0.2, 0.5), g.uniform(0.2, 0.5), g.uniform(0.2, 0.5)) * L; };
    W.body(rndBox(g, 5), rndOrient(g), root == 0 ? rp::BodyType::STATIC : root == 1 ? rp::BodyType::KINEMATIC : rp::BodyType::DYNAMIC, dens, half(), g.chance(0.5));
    int n = g.chance(0.4) ? 1 : g.range(1, C.thorough ? 8 : 5); V kv, kw; if (root == 1) { kv = rndBox(g, 1.5); kw = rndBox(g, 1.5); W.b[0]->setLinearVelocity(rv(kv)); W.b[0]->setAngularVelocity(rv(kw)); }
    bool reg = g.chance(0.3); // the first body is 2 of the joint as often as body 1
    for (int i = 1; i <= n; i++) {
        int p = g.chance(0.7) ? i - 1 : g.below(i); V d = rndUnit(g) * L, pos = W.P(p) + d; W.body(pos, rndOrient(g), rp::BodyType::DYNAMIC, dens * g.uniform(0.5, 2), half(), g.chance(0.4));
        V anchor = W.P(p) + d * g.uniform(0.2, 0.8) + rndBox(g, 0.2 * L); bool sw = reg || g.chance(0.3); W.joint(rndT(g), sw ? i : p, sw ? p : i, anchor, rndUnit(g), g.chance(0.6));
        if (!grav || g.chance(0.3)) { W.b[i]->setLinearVelocity(rv(rndBox(g, 1))); W.b[i]->setAngularVelocity(rv(rndBox(g, 1))); }
    }
    std::string desc; for (auto& d : W.j) desc += std::string(" ") + jn(d.t) + (d.ngs ? "" : "/baumgarte") + (d.local ? "/local" : "") + std::to_string(d.a) + "-" + std::to_string(d.b);
    int fresh = -99, steps = C.thorough ? 400 : g.range(60, 160); (void)fresh; double dt = rd(g.chance(0.7) ? 1 / 60.0 : g.uniform(1 / 240.0, 1 / 50.0));
    for (int k = 0; k < steps; k++) {
        if (g.chance(0.1)) { int i = g.below(n + 1); rp::Vector3 f = rv(rndBox(g, 6) * double(W.b[i]->getMass())); W.b[i]->applyWorldForceAtCenterOfMass(f); }
        if (g.chance(0.03)) { int i = g.below(n + 1); rp::Transform T = W.b[i]->getTransform(); rp::Quaternion q = T.getOrientation(); if (g.chance(0.5)) q = rp::Quaternion(-q.x, -q.y, -q.z, -q.w); W.b[i]->setTransform(rp::Transform(T.getPosition(), q)); } // the same orientation, given by either quaternion
        if (g.chance(0.01)) { V t = rndBox(g, 5); Q r = rndOrient(g); V o = W.P(0); kv = og::rot(r, kv); kw = og::rot(r, kw); for (auto* b : W.b) { V p = ov(b->getTransform().getPosition()), v = ov(b->getLinearVelocity()), w = ov(b->getAngularVelocity()); Q q = oq(b->getTransform().getOrientation()); b->setTransform(rt(o + t + og::rot(r, p - o), r * q)); if (b->getType() != rp::BodyType::STATIC) { b->setLinearVelocity(rv(og::rot(r, v))); b->setAngularVelocity(rv(og::rot(r, w))); } } C.count("trees of bodies put elsewhere as a whole"); fresh = k; } // everything moved and turned together: the constraints stay as they were
        double vmax = 0; auto before = W.before();
        if (k == 0 && C.verbose) for (int i = 0; i <= n; i++) C.log("body %d type %d mass %g at %s com %s", i, int(W.b[i]->getType()), double(W.b[i]->getMass()), vs(W.P(i)).c_str(), vs(W.com(i)).c_str());
        W.w->update(decimal(dt)); bool bad = false; double wmax = 0;
        for (int i = 0; i <= n; i++) { if (!og::finite(W.P(i))) { C.fail("not-finite", "step %d body %d is not finite;%s", k, i, desc.c_str()); bad = true; } V v = ov(W.b[i]->getLinearVelocity()), w = ov(W.b[i]->getAngularVelocity()); vmax = std::max(vmax, og::len(v)); wmax = std::max(wmax, og::len(w)); }
        if (bad) break;
        double slid = 0; for (auto& d : W.j) if (d.t == rp::JointType::SLIDERJOINT) slid = std::max(slid, og::len(W.P(d.b) + og::rot(W.O(d.b), d.lb) - W.P(d.a) - og::rot(W.O(d.a), d.la)));
        if (slid > L) { C.count("histories ended: slid too far"); break; }
        if (vmax > 40 * L || wmax > 25) { C.count("histories ended: too fast"); break; }
        for (auto& d : W.j) {
            double lin, ang; W.error(d, lin, ang); C.eval(); C.count(std::string(jn(d.t)) + (d.ngs ? " joint-steps" : " (Baumgarte) joint-steps"));
            std::string kk = std::string(jn(d.t)) + (d.ngs ? "" : " (Baumgarte)"); double sp = wmax * dt; (void)sp;
            double fac = n == 1 ? 0.4 : 20, tl = fac * (0.02 + 2.0 * sp * sp + (d.ngs ? 0 : 4 * sp)) * L, ta = fac * (0.02 + 2.0 * sp * sp + (d.ngs ? 0 : 4 * sp)); if (n == 1) kk += " alone"; else if (d.ngs) kk += k < 30 ? " early" : ""; if (k < 15) continue;
            C.maxi("largest distance error, share of the tolerance: " + kk, lin / tl); if (d.t != rp::JointType::BALLSOCKETJOINT) C.maxi("largest angle error, share of the tolerance: " + kk, ang / ta);
            C.log("step %d %s %d-%d lin %g ang %g (w %g)", k, kk.c_str(), d.a, d.b, lin, ang, wmax);
            if (!(lin <= tl)) C.fail(std::string("apart-") + jn(d.t), "step %d dt %g: %s %d-%d: off by %g (tolerance %g, fastest turn %g);%s root %d", k, dt, kk.c_str(), d.a, d.b, lin, tl, wmax, desc.c_str(), root);
            if (!(ang <= ta)) C.fail(std::string("misaligned-") + jn(d.t), "step %d dt %g: %s %d-%d: turned by %g (tolerance %g, fastest turn %g);%s root %d", k, dt, kk.c_str(), d.a, d.b, ang, ta, wmax, desc.c_str(), root);
            W.balance(C, d, before, G, dt, k, desc);
            V p = W.P(d.b); C.seen(vh::hashBytes(&p, sizeof p));
        }
    }
    C.sample("%d bodies, root type %d,%s", n + 1, root, desc.c_str()); W.h.destroyPhysicsWorld(W.w);
}
// own measures of the joint coordinate from the transforms: hinge angle in (-pi, pi], slider translation, cone angle
static double coord(JW& W, const Jd& d, V ref, V refb) {
    Q qa = W.O(d.a), qb = W.O(d.b);
    if (d.t == rp::JointType::HINGEJOINT) { V ax = og::rot(qa, d.xa), u = og::rot(qa, ref), v = og::rot(qb, refb); v = v - ax * og::dot(v, ax); return std::atan2(og::dot(ax, og::cross(u, v)), og::dot(u, v)); }
    if (d.t == rp::JointType::SLIDERJOINT) return og::dot(W.P(d.b) + og::rot(qb, d.lb) - W.P(d.a) - og::rot(qa, d.la), og::rot(qa, d.xa));
    V a = og::rot(qa, d.la - ov(W.b[d.a]->getLocalCenterOfMass())), b = -og::rot(qb, d.lb - ov(W.b[d.b]->getLocalCenterOfMass())); return std::atan2(og::len(og::cross(a, b)), og::dot(a, b));
}
static double rateOf(JW& W, const Jd& d) { Q qa = W.O(d.a); V ax = og::rot(qa, d.xa), w1 = ov(W.b[d.a]->getAngularVelocity()), w2 = ov(W.b[d.b]->getAngularVelocity());
    if (d.t == rp::JointType::HINGEJOINT) return og::dot(ax, w2 - w1);
    V pb = W.P(d.b) + og::rot(W.O(d.b), d.lb), va = ov(W.b[d.a]->getLinearVelocity()) + og::cross(w1, pb - W.com(d.a)), vb = ov(W.b[d.b]->getLinearVelocity()) + og::cross(w2, pb - W.com(d.b)); return og::dot(ax, vb - va); }
// a damped chain of bodies that hangs from a static one: it comes to rest, and at rest the joints are closed
static void rest(vh::Ctx& C) {
    vh::Rng& g = C.rng; JW W(g); rp::PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = false; V G = rndUnit(g) * g.uniform(3, 12); ws.gravity = rv(G); G = ov(ws.gravity); W.w = W.h.createPhysicsWorld(ws); W.w->setNbIterationsVelocitySolver(g.range(8, 20)); W.w->setNbIterationsPositionSolver(g.range(4, 10));
    double L = g.uniform(0.5, 1.5), dens = g.logUniform(0.5, 100); int n = g.range(1, 2), fixed = 0; auto half = [&] { return V(g.uniform(0.25, 0.5), g.uniform(0.25, 0.5), g.uniform(0.25, 0.5)) * L; }; W.body(rndBox(g, 5), rndOrient(g), rp::BodyType::STATIC, dens, half(), false); std::string desc;
    for (int i = 1; i <= n; i++) { V d = rndUnit(g) * L; W.body(W.P(i - 1) + d, rndOrient(g), rp::BodyType::DYNAMIC, dens * g.uniform(0.7, 1.4), half(), g.chance(0.3)); W.b[i]->setLinearDamping(decimal(0.5)); W.b[i]->setAngularDamping(decimal(2)); rp::JointType t = rndT(g); if (n > 1 && (t == rp::JointType::SLIDERJOINT || (t == rp::JointType::FIXEDJOINT && ++fixed > 1))) t = rp::JointType::BALLSOCKETJOINT; bool lim = n == 1 && g.chance(0.5), sw = g.chance(0.3); double lo = -g.uniform(0.02, 0.5), hi = g.uniform(0.02, 0.5), far = g.uniform(0.2, 6);
        W.joint(t, sw ? i : i - 1, sw ? i - 1 : i, W.P(i - 1) + d * g.uniform(0.3, 0.7), rndUnit(g), g.chance(0.7), [&](rp::HingeJointInfo& x) { x.isLimitEnabled = lim; x.minAngleLimit = decimal(lo); x.maxAngleLimit = decimal(hi); }, [&](rp::SliderJointInfo& x) { x.isLimitEnabled = true; x.minTranslationLimit = decimal(lo * far * L); x.maxTranslationLimit = decimal(hi * far * L); });
        auto& d2 = W.j.back(); desc += std::string(" ") + jn(t) + (lim && t == rp::JointType::HINGEJOINT ? "/limits" : "") + (d2.ngs ? "" : "/baumgarte") + std::to_string(d2.a) + "-" + std::to_string(d2.b); }
    int steps = 720; double el[4] = {0}, ea[4] = {0}, v = 0; uint64_t h = 0;
    for (int k = 0; k < steps; k++) { W.w->update(decimal(1 / 60.0)); C.eval(); if (k < steps - 60 && k % 10) continue; if (k < steps - 60) { for (int i = 1; i <= n; i++) v = std::max(v, og::len(ov(W.b[i]->getLinearVelocity())) / L); if (!(v < 50)) { C.count("hanging chains that run away"); for (double& e : el) e = 1; break; } if (k < steps - 70) continue; v = 0; continue; } for (auto& d : W.j) { double l, a; W.error(d, l, a); int q = int(d.t) ; el[q & 3] = std::max(el[q & 3], l / L); ea[q & 3] = std::max(ea[q & 3], a); } for (int i = 1; i <= n; i++) { v = std::max(v, og::len(ov(W.b[i]->getLinearVelocity())) / L); h = vh::hashBytes(&W.b[i]->getTransform().getPosition(), sizeof(rp::Vector3), h); } C.seen(h); if (!(v < 50)) { C.count("hanging chains that run away"); break; } }
    static long runs = 0, open_ = 0; runs++; double worst = 0; for (auto& d : W.j) { int q = int(d.t) & 3; std::string nm = std::string(n == 1 ? "alone" : "two") + " " + jn(d.t) + (d.ngs ? "" : "/baumgarte"); worst = std::max(worst, std::max(el[q], ea[q])); if (el[q] < 1e-2) C.maxi("opening of a hanging joint, " + nm, el[q]); C.count("hanging joints: " + nm); for (double s : {1e-4, 1e-3}) if (std::max(el[q], ea[q]) > s) C.count("hanging joints open by more than " + std::to_string(s)); }
    if (!(worst <= 1e-3) && ++open_ > 2 + runs / 50) C.fail("open-at-rest", "%s: with gravity %s one of the hanging joints is open by %g (relative to the size) or twisted by as much after %d steps, and it is not the only one", desc.c_str(), vs(G).c_str(), worst, steps);
    C.sample("%s: speed %g", desc.c_str(), v);
}
static void limits(vh::Ctx& C) {
    vh::Rng& g = C.rng; JW W(g); rp::PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = g.chance(0.3); V G = g.chance(0.5) ? rndUnit(g) * g.uniform(1, 10) : V(); ws.gravity = rv(G); G = ov(ws.gravity); W.w = W.h.createPhysicsWorld(ws); W.w->setNbIterationsVelocitySolver(g.range(20, 40)); W.w->setNbIterationsPositionSolver(g.range(10, 30));
    double L = g.uniform(0.5, 1.5), dens = g.logUniform(0.5, 100); int root = g.below(3); auto half = [&] { return V(g.uniform(0.25, 0.5), g.uniform(0.25, 0.5), g.uniform(0.25, 0.5)) * L; };
    W.body(rndBox(g, 5), rndOrient(g), root == 0 ? rp::BodyType::STATIC : root == 1 ? rp::BodyType::KINEMATIC : rp::BodyType::DYNAMIC, dens, half(), g.chance(0.5)); V dir = rndUnit(g) * L; W.body(W.P(0) + dir, rndOrient(g), rp::BodyType::DYNAMIC, dens * g.uniform(0.5, 2), half(), g.chance(0.4));
    rp::JointType t = g.chance(0.45) ? rp::JointType::HINGEJOINT : g.chance(0.6) ? rp::JointType::SLIDERJOINT : rp::JointType::BALLSOCKETJOINT; bool hinge = t == rp::JointType::HINGEJOINT, slid = t == rp::JointType::SLIDERJOINT, ball = !hinge && !slid;
    auto lo = [&] { return hinge ? -g.uniform(0.05, 2.2) : slid ? -g.uniform(0.02, 0.5) * L : 0.0; }; auto hi = [&] { return hinge ? g.uniform(0.05, 2.2) : slid ? g.uniform(0.02, 0.5) * L : g.chance(0.2) ? g.uniform(0.02, 0.3) : g.uniform(0.3, 2.6); };
    double m = W.b[1]->getMass(), gm = std::max(og::len(G), 1.0) * m; auto fmax = [&] { return rd(gm * (hinge ? L * 0.3 : 1) * g.logUniform(0.05, 30)); }; auto spd = [&] { return rd(g.uniform(-3, 3) * (slid ? 0.3 * L : 1)); };
    double a = rd(lo()), b = rd(hi()), mx = fmax(), ms = spd(); bool lim = g.chance(0.6), mot = !ball && g.chance(0.5); bool sw = g.chance(0.4), ngs = g.chance(0.6); V anchor = W.P(0) + dir * g.uniform(0.2, 0.8) + rndBox(g, 0.15 * L), axis = rndUnit(g); if (ball && g.chance(0.3)) anchor = W.com(0) + (W.com(1) - W.com(0)) * 0.5;
    Jd d = W.joint(t, sw, !sw, anchor, axis, ngs, [&](rp::HingeJointInfo& i) { i.isLimitEnabled = lim; i.minAngleLimit = decimal(a); i.maxAngleLimit = decimal(b); i.isMotorEnabled = mot; i.motorSpeed = decimal(ms); i.maxMotorTorque = decimal(mx); },
        [&](rp::SliderJointInfo& i) { i.isLimitEnabled = lim; i.minTranslationLimit = decimal(a); i.maxTranslationLimit = decimal(b); i.isMotorEnabled = mot; i.motorSpeed = decimal(ms); i.maxMotorForce = decimal(mx); });
    auto* hj = hinge ? static_cast<rp::HingeJoint*>(d.j) : nullptr; auto* sj = slid ? static_cast<rp::SliderJoint*>(d.j) : nullptr; auto* bj = ball ? static_cast<rp::BallAndSocketJoint*>(d.j) : nullptr; if (ball) { bj->setConeLimitHalfAngle(decimal(b)); bj->enableConeLimit(lim); }
    V ref = og::unit(og::cross(d.xa, std::fabs(d.xa.x) < 0.6 ? V(1, 0, 0) : V(0, 1, 0))), refb = og::rot(qinv(W.O(d.b)), og::rot(W.O(d.a), ref));
    for (int i = 0; i < 2; i++) if (g.chance(0.7) && W.b[i]->getType() == rp::BodyType::DYNAMIC) { W.b[i]->setLinearVelocity(rv(rndBox(g, 1))); W.b[i]->setAngularVelocity(rv(rndBox(g, 3))); }
    if (root == 1) { W.b[0]->setLinearVelocity(rv(rndBox(g, 1))); W.b[0]->setAngularVelocity(rv(rndBox(g, 1))); }
    double dt = rd(g.chance(0.7) ? 1 / 60.0 : g.uniform(1 / 200.0, 1 / 50.0)); int since = 0, steps = C.thorough ? 300 : g.range(50, 150), sinceMot = 0; std::string nm = std::string(jn(t)) + (ngs ? "" : " (Baumgarte)"), desc = " " + nm + (root == 0 ? " static" : root == 1 ? " kinematic" : " dynamic") + (sw ? " as body 2" : " as body 1"); const double tiny = DBL ? 1e-9 : 2e-5;
    auto told = [&](int k) {
        double c = coord(W, d, ref, refb), lin, ang; W.error(d, lin, ang); double rep = hinge ? hj->getAngle() : slid ? sj->getTranslation() : bj->getConeHalfAngle(), dc = rep - c; if (hinge) dc = std::remainder(dc, 2 * PI); C.count("coordinates compared: " + std::string(jn(t)));
        double ctol = hinge ? tiny * 50 + 3 * ang : tiny * (1 + og::len(W.P(0))); if (ball) ctol = DBL ? 1e-6 : 2e-3; C.maxi("largest error of a reported coordinate: " + std::string(jn(t)), std::fabs(dc));
        if (!(std::fabs(dc) <= ctol)) { C.fail(std::string("coordinate-") + jn(t), "step %d: reports %.9g but it is %.9g (misaligned by %g);%s", k, rep, c, ang, desc.c_str()); return false; } return true; };
    told(-1); double prevRate = 0; int slow = 0, hitAge = -1; double hitSpeed = 0, hitDir = 1;
    for (int k = 0; k < steps; k++) {
        if (g.chance(0.04)) { since = 0; hitAge = -1; switch (g.below(4)) {
            case 0: lim = !lim; if (hinge) hj->enableLimit(lim); else if (slid) sj->enableLimit(lim); else bj->enableConeLimit(lim); break;
            case 1: a = rd(lo()); if (hinge) hj->setMinAngleLimit(decimal(a)); else if (slid) sj->setMinTranslationLimit(decimal(a)); break;
            case 2: b = rd(hi()); if (hinge) hj->setMaxAngleLimit(decimal(b)); else if (slid) sj->setMaxTranslationLimit(decimal(b)); else bj->setConeLimitHalfAngle(decimal(b)); break;
            default: if (W.b[1]->getType() == rp::BodyType::DYNAMIC) W.b[1]->setAngularVelocity(rv(rndBox(g, 3))); } }
        if (g.chance(0.06) && !ball) { sinceMot = 0; switch (g.below(3)) {
            case 0: mot = !mot; if (hinge) hj->enableMotor(mot); else sj->enableMotor(mot); break;
            case 1: ms = spd(); if (hinge) hj->setMotorSpeed(decimal(ms)); else sj->setMotorSpeed(decimal(ms)); break;
            default: mx = fmax(); if (hinge) hj->setMaxMotorTorque(decimal(mx)); else sj->setMaxMotorForce(decimal(mx)); } }
        if (g.chance(0.03)) { int i = g.below(2); rp::Transform T = W.b[i]->getTransform(); rp::Quaternion q = T.getOrientation(); if (g.chance(0.5)) q = rp::Quaternion(-q.x, -q.y, -q.z, -q.w); W.b[i]->setTransform(rp::Transform(T.getPosition(), q)); }
        if (g.chance(0.05)) { hitAge = -1; W.b[1]->applyWorldForceAtCenterOfMass(rv(rndBox(g, 5) * m)); }
        auto B = W.before(); bool asleep = W.b[0]->isSleeping() && W.b[1]->isSleeping(); asleep |= W.b[1]->isSleeping() && root == 0; prevRate = rateOf(W, d); double c0 = coord(W, d, ref, refb);
        W.w->update(decimal(dt)); C.eval(); bool bad = false; double wmax = 0, vmax = 0; for (int i = 0; i < 2; i++) { if (!og::finite(W.P(i))) bad = true; wmax = std::max(wmax, og::len(ov(W.b[i]->getAngularVelocity()))); vmax = std::max(vmax, og::len(ov(W.b[i]->getLinearVelocity()))); }
        if (bad) { C.fail("not-finite", "step %d: a body is not finite;%s", k, desc.c_str()); break; }
        double c = coord(W, d, ref, refb), lin, ang; W.error(d, lin, ang); if (wmax > 12 || vmax > 15 * L || (slid && std::fabs(c) > L)) { C.count("histories ended: too fast or too far"); break; }
        V pb = W.P(1); C.seen(vh::hashBytes(&pb, sizeof pb));
        // 1. reported coordinate
        if (!told(k)) break;
        C.log("step %d since %d c %g rep %g lim %d [%g %g] mot %d ms %g f %g ang %g lin %g rate %g", k, since, c, hinge ? double(hj->getAngle()) : 0.0, lim, a, b, mot, ms, hinge ? double(hj->getMotorTorque(decimal(dt))) : 0.0, ang, lin, rateOf(W, d));
        // 2. limits
        double e = 0; if (lim) { e = std::max(a - c, c - b); if (hinge) e = std::min(e, std::min(std::max(a - c - 2 * PI, c + 2 * PI - b), std::max(a - c + 2 * PI, c - 2 * PI - b))); }
        double rr = ball ? wmax * 2 : std::max(std::fabs(rateOf(W, d)), std::fabs(prevRate)), scale = slid ? L : 1.0;
        if (lim && since > (ngs ? 10 : 60)) { double tol = 1.5 * rr * dt + 0.01 * scale + (ngs ? 0 : 6 * rr * dt + 0.03 * scale); C.count("steps within limits: " + nm); if (e > -1e-3 * scale) { C.count("steps at a limit: " + nm); }
            C.maxi("largest excess beyond a limit, share of the tolerance: " + nm, e / tol); if (!(e <= tol)) C.fail(std::string("limit-") + jn(t), "step %d dt %g: at %g with limits [%g, %g] (excess %g, tolerance %g, rate %g, turn %g, %d steps after the last change);%s", k, dt, c, a, b, e, tol, rr, wmax, since, desc.c_str()); }
        // 2b. a limit stops the joint, it does not throw it back
        if (!ball) { double r1 = rateOf(W, d); if (lim && !mot && og::len(G) == 0 && since > 1 && root != 1) { if (hitAge >= 0 && hitAge < 5) { double back = -hitDir * r1, lim2 = 1.1 * hitSpeed + 0.3 * scale; C.maxi("largest speed away from a limit after hitting it, share of the bound: " + nm, back / lim2); C.count("steps after hitting a limit: " + nm); if (back > lim2) C.fail(std::string("limit-throws-") + jn(t), "step %d dt %g: hit the limit at the speed %g and left it at %g, %d steps later (limits [%g, %g], at %g);%s", k, dt, hitSpeed, back, hitAge + 1, a, b, c, desc.c_str()); hitAge++; }
                double into = 0; if (e > -1e-3 * scale && k > 0) { double dirn = c > (a + b) / 2 ? 1 : -1; into = dirn * prevRate; if (into > 0.3 * scale && (hitAge < 0 || hitAge >= 5)) { hitAge = 0; hitSpeed = into; hitDir = dirn; } } } else hitAge = -1; }
        // 3. motor
        if (!ball) { double f = hinge ? hj->getMotorTorque(decimal(dt)) : sj->getMotorForce(decimal(dt)); if (!mot) { if (f != 0) C.fail("motor-off", "step %d: the motor is off but exerts %g;%s", k, f, desc.c_str()); }
            else if (!asleep && !W.b[1]->isSleeping()) { double eps = DBL ? 1e-12 : 1e-5; C.count("motor steps: " + nm); if (std::fabs(f) > mx * (1 + eps)) C.fail("motor-max", "step %d: the motor exerts %g above its maximum %g;%s", k, f, mx, desc.c_str());
                bool free = !lim || (c0 > a + 0.05 * scale && c0 < b - 0.05 * scale); double ra = rateOf(W, d); (void)ra;
                if (free) { V ax = og::rot(B.q[d.a], d.xa), w1 = ov(W.b[d.a]->getAngularVelocity()), w2 = ov(W.b[d.b]->getAngularVelocity()); double r = hinge ? og::dot(ax, w2 - w1) : og::dot(ax, ov(W.b[d.b]->getLinearVelocity()) + og::cross(w2, B.ab[0] - B.com[d.b]) - ov(W.b[d.a]->getLinearVelocity()) - og::cross(w1, B.ab[0] - B.com[d.a])), tol = (0.08 + 0.08 * wmax) * scale; bool sat = std::fabs(f) >= mx * (1 - 1e-4);
                    C.count(std::string(sat ? "saturated motor steps: " : "motor steps at the target speed: ") + nm); if (!sat) C.maxi("largest error of the motor speed, share of the tolerance: " + nm, std::fabs(r - ms) / tol);
                    slow = !sat && !(std::fabs(r - ms) <= tol) && sinceMot > 0 ? slow + 1 : 0; if (slow >= 5) C.fail(std::string("motor-speed-") + jn(t), "step %d dt %g: the motor exerts %g of at most %g but the speed is %g instead of %g (turn %g);%s", k, dt, f, mx, r, ms, wmax, desc.c_str());
                    double dirf = hinge ? f : -f; if (sat && mx > 0 && !((ms - r) * dirf >= -tol * std::fabs(f))) C.fail(std::string("motor-direction-") + jn(t), "step %d dt %g: the motor exerts %g (maximum %g) at the speed %g although its target is %g;%s", k, dt, f, mx, r, ms, desc.c_str()); } } }
        // 4. what it reports is what it does
        if (!asleep) W.balance(C, W.j[0], B, G, dt, k, desc);
        since++; sinceMot++;
    }
    C.sample("%s limits %s [%g, %g] motor %s %g of %g", desc.c_str(), lim ? "on" : "off", a, b, mot ? "on" : "off", ms, mx); W.h.destroyPhysicsWorld(W.w);
}
// a joint whose limits and motor are configured but off moves the bodies exactly like one that has none
static void off(vh::Ctx& C) {
    vh::Rng g0 = C.rng; std::vector<rp::Transform> T[2]; std::string desc; double worst = 0; (void)worst; int how = C.rng.below(5);
    for (int pass = 0; pass < 2; pass++) { vh::Rng g = g0; JW W(g); rp::PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = false; ws.gravity = rv(rndBox(g, 8)); W.w = W.h.createPhysicsWorld(ws); double L = 1; int root = g.below(3);
        W.body(rndBox(g, 5), rndOrient(g), root == 0 ? rp::BodyType::STATIC : root == 1 ? rp::BodyType::KINEMATIC : rp::BodyType::DYNAMIC, 1, V(0.4, 0.3, 0.2), g.chance(0.5)); W.body(W.P(0) + rndUnit(g), rndOrient(g), rp::BodyType::DYNAMIC, g.uniform(0.5, 2), V(0.3, 0.2, 0.4), g.chance(0.5));
        rp::JointType t = g.chance(0.4) ? rp::JointType::HINGEJOINT : g.chance(0.6) ? rp::JointType::SLIDERJOINT : rp::JointType::BALLSOCKETJOINT; bool hinge = t == rp::JointType::HINGEJOINT, slid = t == rp::JointType::SLIDERJOINT; bool sw = g.chance(0.4), ngs = g.chance(0.6); V anchor = (W.P(0) + W.P(1)) * 0.5 + rndBox(g, 0.2), axis = rndUnit(g); double a = rd(-g.uniform(0, 0.3)), b = rd(g.uniform(0, 0.3)), ms = rd(g.uniform(-3, 3)), mx = rd(g.uniform(0, 500)); bool ctor = pass == 0 && (how == 0 || how == 1);
        Jd d = W.joint(t, sw, !sw, anchor, axis, ngs, [&](rp::HingeJointInfo& i) { if (ctor) { i.minAngleLimit = decimal(a); i.maxAngleLimit = decimal(b); i.motorSpeed = decimal(ms); i.maxMotorTorque = decimal(mx); i.isLimitEnabled = i.isMotorEnabled = how == 1; } }, [&](rp::SliderJointInfo& i) { if (ctor) { i.minTranslationLimit = decimal(a); i.maxTranslationLimit = decimal(b); i.motorSpeed = decimal(ms); i.maxMotorForce = decimal(mx); i.isLimitEnabled = i.isMotorEnabled = how == 1; } });
        auto* hj = hinge ? static_cast<rp::HingeJoint*>(d.j) : nullptr; auto* sj = slid ? static_cast<rp::SliderJoint*>(d.j) : nullptr; auto* bj = !hinge && !slid ? static_cast<rp::BallAndSocketJoint*>(d.j) : nullptr;
        auto set = [&] { if (hinge) { hj->setMinAngleLimit(decimal(a)); hj->setMaxAngleLimit(decimal(b)); hj->setMotorSpeed(decimal(ms)); hj->setMaxMotorTorque(decimal(mx)); } else if (slid) { sj->setMinTranslationLimit(decimal(a)); sj->setMaxTranslationLimit(decimal(b)); sj->setMotorSpeed(decimal(ms)); sj->setMaxMotorForce(decimal(mx)); } else bj->setConeLimitHalfAngle(decimal(b)); };
        auto enable = [&](bool on) { if (hinge) { hj->enableLimit(on); hj->enableMotor(on); } else if (slid) { sj->enableLimit(on); sj->enableMotor(on); } else bj->enableConeLimit(on); };
        if (pass == 0) { if (how >= 2) set(); if (how == 3) enable(true); if (how == 1 || how == 3 || how == 4) enable(false); }
        if (g.chance(0.7)) { W.b[1]->setLinearVelocity(rv(rndBox(g, 1))); W.b[1]->setAngularVelocity(rv(rndBox(g, 3))); }
        int n = g.range(10, 40), at = g.below(n); for (int k = 0; k < n; k++) { if (pass == 0 && k == at && how == 4) { a *= 0.5; b *= 0.5; ms = -ms; set(); } W.w->update(decimal(1 / 60.0)); C.eval(); for (int i = 0; i < 2; i++) T[pass].push_back(W.b[i]->getTransform()); }
        desc = std::string(jn(t)) + " root " + std::to_string(root) + " way " + std::to_string(how); W.h.destroyPhysicsWorld(W.w); }
    C.count("joint histories with configured limits and motors that are off"); for (size_t i = 0; i < T[0].size() && i < T[1].size(); i++) if (!(T[0][i] == T[1][i])) { C.fail("off-limits", "a joint (%s) whose limits and motor are off moved its bodies differently at step %zu", desc.c_str(), i / 2); break; }
}
// ---- C18 ----
struct Set { bool lim = false, mot = false, collide = true; double a = 0, b = 0, sp = 0, mx = 0; };
static bool readsBack(vh::Ctx& C, JW& W, const Jd& d, const Set& e, const char* when) {
    bool ok = d.j->getBody1() == W.b[d.a] && d.j->getBody2() == W.b[d.b] && d.j->getType() == d.t && d.j->isCollisionEnabled() == e.collide; char b[300]; std::string got;
    if (d.t == rp::JointType::HINGEJOINT) { auto* h = static_cast<rp::HingeJoint*>(d.j); ok &= h->isLimitEnabled() == e.lim && h->isMotorEnabled() == e.mot && h->getMinAngleLimit() == decimal(e.a) && h->getMaxAngleLimit() == decimal(e.b) && h->getMotorSpeed() == decimal(e.sp) && h->getMaxMotorTorque() == decimal(e.mx);
        snprintf(b, sizeof b, "limits %d [%g,%g] motor %d speed %g max %g", h->isLimitEnabled(), double(h->getMinAngleLimit()), double(h->getMaxAngleLimit()), h->isMotorEnabled(), double(h->getMotorSpeed()), double(h->getMaxMotorTorque())); got = b; }
    if (d.t == rp::JointType::SLIDERJOINT) { auto* h = static_cast<rp::SliderJoint*>(d.j); ok &= h->isLimitEnabled() == e.lim && h->isMotorEnabled() == e.mot && h->getMinTranslationLimit() == decimal(e.a) && h->getMaxTranslationLimit() == decimal(e.b) && h->getMotorSpeed() == decimal(e.sp) && h->getMaxMotorForce() == decimal(e.mx);
        snprintf(b, sizeof b, "limits %d [%g,%g] motor %d speed %g max %g", h->isLimitEnabled(), double(h->getMinTranslationLimit()), double(h->getMaxTranslationLimit()), h->isMotorEnabled(), double(h->getMotorSpeed()), double(h->getMaxMotorForce())); got = b; }
    if (d.t == rp::JointType::BALLSOCKETJOINT) { auto* h = static_cast<rp::BallAndSocketJoint*>(d.j); ok &= h->isConeLimitEnabled() == e.lim && h->getConeLimitHalfAngle() == decimal(e.b); snprintf(b, sizeof b, "cone %d %g", h->isConeLimitEnabled(), double(h->getConeLimitHalfAngle())); got = b; }
    C.count(std::string("settings read back: ") + jn(d.t)); C.eval();
    if (!ok) C.fail(std::string("readback-") + jn(d.t), "%s: %s joint %d-%d does not report what it was given: %s, bodies %d, type %d, collision %d; expected limits %d [%g,%g] motor %d speed %g max %g collision %d", when, jn(d.t), d.a, d.b, got.c_str(), d.j->getBody1() == W.b[d.a] && d.j->getBody2() == W.b[d.b], int(d.j->getType()), d.j->isCollisionEnabled(), e.lim, e.a, e.b, e.mot, e.sp, e.mx, e.collide);
    return ok;
}
static void change(vh::Rng& g, const Jd& d, Set& e, bool& really) {
    Set o = e; bool hinge = d.t == rp::JointType::HINGEJOINT, slid = d.t == rp::JointType::SLIDERJOINT; auto* h = dynamic_cast<rp::HingeJoint*>(d.j); auto* s = dynamic_cast<rp::SliderJoint*>(d.j); auto* bs = dynamic_cast<rp::BallAndSocketJoint*>(d.j); really = false;
    if (d.t == rp::JointType::FIXEDJOINT) return;
    if (!hinge && !slid) { if (g.chance(0.5)) { e.lim = g.chance(0.5); bs->enableConeLimit(e.lim); } else { e.b = rd(g.uniform(0.3, 3)); bs->setConeLimitHalfAngle(decimal(e.b)); } }
    else switch (g.below(6)) {
        case 0: e.lim = g.chance(0.5); hinge ? h->enableLimit(e.lim) : s->enableLimit(e.lim); break;
        case 1: e.mot = g.chance(0.5); hinge ? h->enableMotor(e.mot) : s->enableMotor(e.mot); break;
        case 2: e.a = rd(-g.uniform(0, hinge ? 2 : 0.5)); hinge ? h->setMinAngleLimit(decimal(e.a)) : s->setMinTranslationLimit(decimal(e.a)); break;
        case 3: e.b = rd(g.uniform(0, hinge ? 2 : 0.5)); hinge ? h->setMaxAngleLimit(decimal(e.b)) : s->setMaxTranslationLimit(decimal(e.b)); break;
        case 4: e.sp = rd(g.uniform(-1, 1)); hinge ? h->setMotorSpeed(decimal(e.sp)) : s->setMotorSpeed(decimal(e.sp)); break;
        default: e.mx = rd(g.uniform(0, 3)); hinge ? h->setMaxMotorTorque(decimal(e.mx)) : s->setMaxMotorForce(decimal(e.mx)); }
    really = o.lim != e.lim || o.mot != e.mot || o.a != e.a || o.b != e.b || o.sp != e.sp || o.mx != e.mx;
}
static void make(JW& W, std::vector<Set>& S, rp::JointType t, int a, int b, V anchor, V axis, bool ngs, bool collide, bool configured) {
    vh::Rng& g = W.g; Set e; e.collide = collide; bool hinge = t == rp::JointType::HINGEJOINT; if (t == rp::JointType::HINGEJOINT) { e.a = -1; e.b = 1; } if (t == rp::JointType::SLIDERJOINT) { e.a = -1; e.b = 1; }
    if (configured) { e.lim = g.chance(0.5); e.mot = g.chance(0.5); e.a = rd(-g.uniform(0, hinge ? 2 : 0.5)); e.b = rd(g.uniform(0, hinge ? 2 : 0.5)); e.sp = rd(g.uniform(-1, 1)); e.mx = rd(g.uniform(0, 3)); }
    int how = g.below(3); // by fields, or by the constructors that take limits and motors
    Jd& d = W.joint(t, a, b, anchor, axis, ngs, [&](rp::HingeJointInfo& i) { if (!configured) { e.lim = i.isLimitEnabled; e.mot = i.isMotorEnabled; e.a = i.minAngleLimit; e.b = i.maxAngleLimit; e.sp = i.motorSpeed; e.mx = i.maxMotorTorque; return; } i.isLimitEnabled = e.lim; i.isMotorEnabled = e.mot; i.minAngleLimit = decimal(e.a); i.maxAngleLimit = decimal(e.b); i.motorSpeed = decimal(e.sp); i.maxMotorTorque = decimal(e.mx); },
        [&](rp::SliderJointInfo& i) { if (!configured) { e.lim = i.isLimitEnabled; e.mot = i.isMotorEnabled; e.a = i.minTranslationLimit; e.b = i.maxTranslationLimit; e.sp = i.motorSpeed; e.mx = i.maxMotorForce; return; } i.isLimitEnabled = e.lim; i.isMotorEnabled = e.mot; i.minTranslationLimit = decimal(e.a); i.maxTranslationLimit = decimal(e.b); i.motorSpeed = decimal(e.sp); i.maxMotorForce = decimal(e.mx); }, collide); (void)how;
    if (t == rp::JointType::BALLSOCKETJOINT) { e.b = rd(g.uniform(0.3, 3)); static_cast<rp::BallAndSocketJoint*>(d.j)->setConeLimitHalfAngle(decimal(e.b)); e.lim = configured && g.chance(0.5); static_cast<rp::BallAndSocketJoint*>(d.j)->enableConeLimit(e.lim); }
    S.push_back(e);
}
static void life(vh::Ctx& C) {
    vh::Rng& g = C.rng; JW W(g); std::vector<Set> S; rp::PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = g.chance(0.2); V G = g.chance(0.7) ? rndBox(g, 6) : V(); ws.gravity = rv(G); G = ov(ws.gravity); W.w = W.h.createPhysicsWorld(ws); W.w->setNbIterationsVelocitySolver(g.range(15, 30)); W.w->setNbIterationsPositionSolver(g.range(10, 25));
    double dt = rd(1 / 60.0); auto add = [&](rp::BodyType t) { return W.body(rndBox(g, 1.2), rndOrient(g), t, g.uniform(0.5, 2), V(g.uniform(0.2, 0.5), g.uniform(0.2, 0.5), g.uniform(0.2, 0.5)), g.chance(0.3)); };
    bool many = g.chance(0.12); auto fav = rndT(g); int n0 = many ? g.range(16, 60) : g.range(3, 7); if (many) C.count("histories with many joints"); for (int i = 0; i < n0; i++) add(i == 0 && g.chance(0.6) ? rp::BodyType::STATIC : i == 1 && g.chance(0.2) ? rp::BodyType::KINEMATIC : rp::BodyType::DYNAMIC);
    std::vector<int> age; auto roots = [&] { std::vector<int> r(W.b.size()); for (size_t i = 0; i < r.size(); i++) r[i] = int(i); for (auto& d : W.j) { int x = r[d.a], y = r[d.b]; for (auto& k : r) if (k == y) k = x; } return r; };
    auto dropJoint = [&](size_t k) { W.j.erase(W.j.begin() + k); S.erase(S.begin() + k); age.erase(age.begin() + k); }; int steps = C.thorough ? 250 : g.range(30, 110); bool sleepers = g.chance(0.3);
    for (int k = 0; k < steps; k++) {
        int ops = many && k < 25 ? g.range(1, 5) : g.chance(0.3) ? g.range(1, 4) : 0; for (int o = 0; o < ops; o++) switch (many && k < 25 && g.chance(0.6) ? 0 : g.below(9)) {
        case 0: case 1: case 2: { auto r = roots(); int a = g.below(uint32_t(W.b.size())), b = g.below(uint32_t(W.b.size())); if (r[a] == r[b]) break; if (many && (std::count(r.begin(), r.end(), r[a]) > 1 || std::count(r.begin(), r.end(), r[b]) > 1) && g.chance(0.9)) break; bool moves = false; for (size_t i = 0; i < r.size(); i++) if ((r[i] == r[a]) && W.b[i]->getType() != rp::BodyType::DYNAMIC) for (size_t q = 0; q < r.size(); q++) if (r[q] == r[b] && W.b[q]->getType() != rp::BodyType::DYNAMIC) moves = true;
            if (moves || (W.b[a]->getType() != rp::BodyType::DYNAMIC && W.b[b]->getType() != rp::BodyType::DYNAMIC)) break;
            V anchor = g.chance(0.5) ? (W.P(a) + W.P(b)) * 0.5 : W.P(g.chance(0.5) ? a : b) + rndUnit(g) * 0.4; make(W, S, many && g.chance(0.8) ? fav : rndT(g), a, b, anchor, rndUnit(g), g.chance(0.6), g.chance(0.6), g.chance(0.5)); C.maxi("joints at a time", double(W.j.size())); age.push_back(0); C.count(std::string("joints created: ") + jn(W.j.back().t)); readsBack(C, W, W.j.back(), S.back(), "just created"); break; }
        case 3: if (!W.j.empty()) { size_t q = g.below(uint32_t(W.j.size())); C.count("joints destroyed"); auto *x = W.b[W.j[q].a], *y = W.b[W.j[q].b]; W.w->destroyJoint(W.j[q].j); dropJoint(q); if (x->isSleeping() || y->isSleeping()) C.fail("asleep-after-destroy", "destroying a joint left one of its bodies asleep"); } break;
        case 4: if (W.b.size() > 2 && g.chance(0.6)) { int q = g.below(uint32_t(W.b.size())); C.count("bodies destroyed"); for (size_t z = W.j.size(); z-- > 0;) if (W.j[z].a == q || W.j[z].b == q) { C.count("joints destroyed with a body"); dropJoint(z); } W.w->destroyRigidBody(W.b[q]); W.b.erase(W.b.begin() + q); W.size.erase(W.size.begin() + q); for (auto& d : W.j) { if (d.a > q) d.a--; if (d.b > q) d.b--; } } break;
        case 5: if (W.b.size() < (many ? 60 : 9)) add(g.chance(0.15) ? rp::BodyType::STATIC : rp::BodyType::DYNAMIC); break;
        default: if (!W.j.empty()) { size_t q = g.below(uint32_t(W.j.size())); Jd& d = W.j[q]; bool sl = g.chance(0.4), really; if (sl) { W.b[d.a]->setIsSleeping(true); W.b[d.b]->setIsSleeping(true); } bool was = W.b[d.a]->isSleeping() || W.b[d.b]->isSleeping(); change(g, d, S[q], really); C.count("settings changed"); if (really) { age[q] = std::min(age[q], 5); if (was) C.count("settings changed while a body slept"); if (W.b[d.a]->isSleeping() || W.b[d.b]->isSleeping()) C.fail(std::string("asleep-after-change-") + jn(d.t), "step %d: changing a setting of a %s joint left one of its bodies asleep", k, jn(d.t)); } readsBack(C, W, d, S[q], "just changed"); } }
        (void)sleepers; if (g.chance(0.2)) { auto* x = W.b[g.below(uint32_t(W.b.size()))]; x->applyWorldForceAtCenterOfMass(rv(rndBox(g, 5))); }
        std::vector<BSnap> P; for (auto* x : W.b) P.push_back(BSnap::take(x)); auto B = W.before(); std::vector<int> lone(W.b.size(), 1); for (auto& d : W.j) lone[d.a] = lone[d.b] = 0;
        W.w->update(decimal(dt)); double wmax = 0, vmax = 0; bool bad = false;
        for (size_t i = 0; i < W.b.size(); i++) { V v = ov(W.b[i]->getLinearVelocity()), w = ov(W.b[i]->getAngularVelocity()); if (!og::finite(W.P(int(i))) || !og::finite(v)) { C.fail("not-finite", "step %d: body %zu is not finite", k, i); bad = true; } vmax = std::max(vmax, og::len(v)); wmax = std::max(wmax, og::len(w)); }
        if (bad) break;
        for (size_t i = 0; i < W.b.size(); i++) if (lone[i] && !P[i].fixedThisStep() && !P[i].sleeping && !W.b[i]->isSleeping()) { Pred r = predict(P[i], dt, G, true); C.eval(); C.count("steps of bodies without joints"); V v = ov(W.b[i]->getLinearVelocity()), w = ov(W.b[i]->getAngularVelocity()), x = W.com(int(i)); V p = x; C.seen(vh::hashBytes(&p, sizeof p));
            if (!(og::len(v - r.v) <= 4 * r.tv + 1e-30) || !(og::len(w - r.w) <= 4 * r.tw + 1e-30) || !(og::len(x - r.com) <= 4 * r.tx + 1e-30)) C.fail("free-body", "step %d: body %zu has no joint but did not move like a free body: velocity %s not %s, turn %s not %s, centre %s not %s", k, i, vs(v).c_str(), vs(r.v).c_str(), vs(w).c_str(), vs(r.w).c_str(), vs(x).c_str(), vs(r.com).c_str()); }
        if (vmax > 25 || wmax > 20) { C.count("histories ended: too fast"); break; } bool slid = false; for (auto& d : W.j) if (d.t == rp::JointType::SLIDERJOINT && og::len(W.P(d.b) + og::rot(W.O(d.b), d.lb) - W.P(d.a) - og::rot(W.O(d.a), d.la)) > 1.5) slid = true; if (slid) { C.count("histories ended: slid too far"); break; }
        for (size_t q = 0; q < W.j.size(); q++) { Jd& d = W.j[q]; age[q]++; readsBack(C, W, d, S[q], "after a step"); double lin, ang; W.error(d, lin, ang); double sp = wmax * dt, tol = 0.5 + 30 * sp * sp + (d.ngs ? 0 : 40 * sp); C.count(std::string(jn(d.t)) + " joint-steps"); if (age[q] < 20) continue; C.maxi(std::string("largest distance error, share of the tolerance: ") + jn(d.t), lin / tol); C.maxi(std::string("largest angle error, share of the tolerance: ") + jn(d.t), ang / tol);
            d.lost = (lin <= tol && ang <= tol) || ang > 2.5 /* opposite axes are another equilibrium */ || (lin + ang < d.was - 1e-4) /* long chains are pulled together slowly */ ? 0 : d.lost + 1; d.was = lin + ang; if (d.lost) C.maxi("largest number of steps in a row beyond the tolerance", d.lost); if (d.lost >= 15) C.fail(std::string("lost-") + jn(d.t), "step %d: the %s joint %d-%d no longer holds: distance %g angle %g (tolerance %g)", k, jn(d.t), d.a, d.b, lin, ang, tol); W.balance(C, d, B, G, dt, k, ""); }
    }
    C.sample("%d bodies, %d steps, %zu joints at the end", n0, steps, W.j.size()); W.h.destroyPhysicsWorld(W.w);
}
// two bodies joined several times: they collide exactly when no joint between them forbids it
struct CL : rp::EventListener { std::set<std::pair<void*, void*>> now; void onContact(const rp::CollisionCallback::CallbackData& d) override { for (uint32_t i = 0; i < d.getNbContactPairs(); i++) { auto p = d.getContactPair(i); if (p.getEventType() == rp::CollisionCallback::ContactPair::EventType::ContactExit) continue; void *a = p.getBody1(), *b = p.getBody2(); now.insert({std::min(a, b), std::max(a, b)}); } } };
static void filter(vh::Ctx& C) {
    vh::Rng& g = C.rng; JW W(g); std::vector<Set> S; CL L; rp::PhysicsWorld::WorldSettings ws; ws.gravity = rp::Vector3(0, 0, 0); ws.isSleepingEnabled = false; W.w = W.h.createPhysicsWorld(ws); W.w->setEventListener(&L); int n = g.range(2, 4);
    for (int i = 0; i < n; i++) { auto* b = W.w->createRigidBody(rt(V(0.3 * i, 0, 0) + rndBox(g, 0.05), rndOrient(g))); b->addCollider(W.h.createSphereShape(decimal(0.5)), rp::Transform::identity()); b->setMass(1); b->setLocalInertiaTensor(rp::Vector3(1, 1, 1)); b->setLinearDamping(20); b->setAngularDamping(20); W.b.push_back(b); if (g.chance(0.25)) b->setType(g.chance(0.5) ? rp::BodyType::STATIC : rp::BodyType::KINEMATIC); }
    int steps = g.range(10, 40); std::vector<int> quiet(n * n, 0);
    for (int k = 0; k < steps; k++) {
        int ops = g.chance(0.6) ? g.range(1, 3) : 0; for (int o = 0; o < ops; o++) { if (g.chance(0.55) && W.j.size() < 7) { int a = g.below(n), b = g.below(n); if (a == b) continue; make(W, S, rndT(g), a, b, (W.P(a) + W.P(b)) * 0.5, rndUnit(g), true, g.chance(0.4), false); C.count(S.back().collide ? "joints that allow the collision" : "joints that forbid the collision"); } else if (!W.j.empty()) { size_t q = g.below(uint32_t(W.j.size())); W.w->destroyJoint(W.j[q].j); W.j.erase(W.j.begin() + q); S.erase(S.begin() + q); C.count("joints destroyed"); } }
        for (int i = 0; i < n; i++) { W.b[i]->setTransform(rt(V(0.3 * i, 0, 0) + rndBox(g, 0.05), W.O(i))); if (W.b[i]->getType() == rp::BodyType::DYNAMIC) { W.b[i]->setLinearVelocity(rp::Vector3(0, 0, 0)); } }
        std::vector<Pose> T; for (int i = 0; i < n; i++) T.push_back(op(W.b[i]->getTransform())); L.now.clear(); W.w->update(decimal(1 / 60.0));
        for (int i = 0; i < n; i++) for (int q = i + 1; q < n; q++) { double gap = og::len(T[i].p - T[q].p) - 1; bool forbid = false; int nj = 0; for (size_t z = 0; z < W.j.size(); z++) if (std::min(W.j[z].a, W.j[z].b) == i && std::max(W.j[z].a, W.j[z].b) == q) { nj++; forbid |= !S[z].collide; } bool dyn = W.b[i]->getType() != rp::BodyType::STATIC || W.b[q]->getType() != rp::BodyType::STATIC; if (std::fabs(gap) < 0.02) continue;
            bool want = gap < 0 && !forbid && dyn, got = L.now.count({std::min<void*>(W.b[i], W.b[q]), std::max<void*>(W.b[i], W.b[q])}) > 0; C.eval(); C.count(want ? "colliding pairs" : forbid ? "pairs whose collision is forbidden" : "separate pairs"); uint64_t h = uint64_t(k) * 131 + i * 7 + q + nj * 1000 + forbid * 17 + vh::hashBytes(&gap, sizeof gap); C.seen(h);
            if (want != got) C.fail(got ? "collision-although-forbidden" : "no-collision", "step %d: bodies %d and %d overlap by %g with %d joint(s) between them, collision %s, but %s", k, i, q, -gap, nj, forbid ? "forbidden" : "allowed", got ? "a contact is reported" : "no contact is reported"); }
    }
    W.h.destroyPhysicsWorld(W.w);
}
// a joint that is destroyed before the next step leaves no trace in the motion
static void never(vh::Ctx& C) {
    vh::Rng g0 = C.rng; std::vector<rp::Transform> T[2]; 
    for (int pass = 0; pass < 2; pass++) { vh::Rng g = g0; JW W(g); std::vector<Set> S; rp::PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = false; ws.gravity = rp::Vector3(0, -5, 0); W.w = W.h.createPhysicsWorld(ws); int n = g.range(3, 6);
        W.body(V(0, -1, 0), Q(), rp::BodyType::STATIC, 1, V(6, 0.5, 6), false); for (int i = 1; i < n; i++) W.body(V(i * 1.2, g.uniform(-0.2, 1), 0), rndOrient(g), rp::BodyType::DYNAMIC, 1, V(0.4, 0.3, 0.3), g.chance(0.3)); for (auto* b : W.b) b->getCollider(0)->setCollideWithMaskBits(0xFFFF);
        int base = g.range(0, 2); for (int i = 1; i <= base; i++) make(W, S, rndT(g), i, i + 1 < n ? i + 1 : 0, (W.P(i) + W.P(i + 1 < n ? i + 1 : 0)) * 0.5, rndUnit(g), true, true, false);
        vh::Rng g2(vh::mix(C.caseIndex, pass + 7)); int steps = g.range(20, 50);
        for (int k = 0; k < steps; k++) { uint64_t keep = g.s; if (pass == 1 && g2.chance(0.3)) { int c = g2.range(1, 3); size_t had = W.j.size(); for (int z = 0; z < c; z++) { int a = 1 + g2.below(n - 1), b = g2.below(n); if (a == b) continue; make(W, S, rndT(g2), a, b, (W.P(a) + W.P(b)) * 0.5, rndUnit(g2), true, true, g2.chance(0.5)); } while (W.j.size() > had) { size_t q = had + g2.below(uint32_t(W.j.size() - had)); W.w->destroyJoint(W.j[q].j); W.j.erase(W.j.begin() + q); S.erase(S.begin() + q); C.count("joints created and destroyed between two steps"); } } g.s = keep;
            if (g.chance(0.2)) W.b[1 + g.below(n - 1)]->applyWorldForceAtCenterOfMass(rv(rndBox(g, 5))); W.w->update(decimal(1 / 60.0)); C.eval(); for (auto* b : W.b) T[pass].push_back(b->getTransform()); }
        W.h.destroyPhysicsWorld(W.w); }
    for (size_t i = 0; i < T[0].size() && i < T[1].size(); i++) if (!(T[0][i] == T[1][i])) { C.fail("trace-left", "joints that were created and destroyed between two steps changed the motion (entry %zu)", i); break; }
}
static void lifeCase(vh::Ctx& C) { uint32_t x = C.rng.below(10); if (x < 6) life(C); else if (x < 9) filter(C); else never(C); }

// C14 (mode "momentum"): contacts and joints between dynamic bodies exchange momentum, they neither create nor destroy it
struct ML : rp::EventListener { double apart = 0; int points = 0; bool slick = false; void onContact(const rp::CollisionCallback::CallbackData& d) override { for (uint32_t i = 0; i < d.getNbContactPairs(); i++) { auto p = d.getContactPair(i); for (uint32_t k = 0; k < p.getNbContactPoints(); k++) { auto c = p.getContactPoint(k); points++;
    V u = ov(p.getCollider1()->getLocalToWorldTransform() * c.getLocalPointOnCollider1() - p.getCollider2()->getLocalToWorldTransform() * c.getLocalPointOnCollider2()); apart = std::max(apart, slick ? og::len(og::cross(u, ov(c.getWorldNormal()))) : og::len(u)); } } } }; // without friction the impulses act along the normal through both points
static void momentum(vh::Ctx& C) {
    vh::Rng& g = C.rng; JW W(g); ML ml; rp::PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = false; V G = g.chance(0.3) ? rndBox(g, 10) : V(); ws.gravity = rv(G); G = ov(ws.gravity); W.w = W.h.createPhysicsWorld(ws); W.w->setEventListener(&ml);
    W.w->setNbIterationsVelocitySolver(g.range(1, 20)); W.w->setNbIterationsPositionSolver(g.range(1, 10)); if (g.chance(0.3)) W.w->setContactsPositionCorrectionTechnique(rp::ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS);
    bool forces = g.chance(0.3), joints = g.chance(0.7), contacts = !joints || g.chance(0.6); ml.slick = g.chance(0.5); int n = g.chance(0.3) ? 2 : g.range(2, 6); double dens = g.logUniform(0.5, 100), spread = g.uniform(0.8, 2.2), off = g.chance(0.3) ? 20 : 0; V C0 = rndBox(g, off), U = g.chance(0.5) ? rndBox(g, 3) : V(); double dt = rd(g.chance(0.7) ? 1 / 60.0 : g.uniform(0.004, 0.03));
    for (int i = 0; i < n; i++) {
        auto* b = W.body(C0 + rndBox(g, spread), rndOrient(g), rp::BodyType::DYNAMIC, dens * g.logUniform(0.2, 5), V(g.uniform(0.2, 0.6), g.uniform(0.2, 0.6), g.uniform(0.2, 0.6)), g.chance(0.5)); b->removeCollider(b->getCollider(0));
        int nc = g.range(1, 2); for (int k = 0; k < nc; k++) { Sh s = rndShape(W.h, g, 0.5, convexKinds()); if (!s.s) continue; auto* c = b->addCollider(s.s, k ? rt(rndBox(g, 0.5), rndOrient(g)) : rp::Transform::identity()); auto& m = c->getMaterial(); m.setBounciness(decimal(g.chance(0.5) ? 0 : g.unit())); m.setFrictionCoefficient(decimal(ml.slick || g.chance(0.2) ? 0 : g.uniform(0, 1.5))); if (!contacts) c->setCollideWithMaskBits(0); }
        if (g.chance(0.4)) b->setLocalInertiaTensor(rv(ov(b->getLocalInertiaTensor()) * g.uniform(0.5, 2))); b->setLinearVelocity(rv(U + (C0 - W.P(i)) * g.uniform(0, 3) + rndBox(g, 1))); b->setAngularVelocity(rv(rndBox(g, g.chance(0.5) ? 1 : 4)));
    }
    std::string desc; if (joints) for (int i = 1; i < n; i++) if (g.chance(0.8)) { int a = g.below(uint32_t(i)); bool sw = g.chance(0.5); V anchor = (W.P(a) + W.P(i)) * 0.5 + rndBox(g, 0.3);
        auto t = rndT(g); auto& d = W.joint(t, sw ? i : a, sw ? a : i, anchor, rndUnit(g), g.chance(0.5), [&](rp::HingeJointInfo& x) { x.isLimitEnabled = g.chance(0.6); x.isMotorEnabled = g.chance(0.5); x.minAngleLimit = decimal(-g.uniform(0, 1)); x.maxAngleLimit = decimal(g.uniform(0, 1)); x.motorSpeed = decimal(g.uniform(-5, 5)); x.maxMotorTorque = decimal(g.logUniform(0.1, 100)); }, [&](rp::SliderJointInfo& x) { x.isLimitEnabled = g.chance(0.6); x.isMotorEnabled = g.chance(0.5); x.minTranslationLimit = decimal(-g.uniform(0, 0.4)); x.maxTranslationLimit = decimal(g.uniform(0, 0.4)); x.motorSpeed = decimal(g.uniform(-2, 2)); x.maxMotorForce = decimal(g.logUniform(0.1, 100)); }, g.chance(0.5));
        if (t == rp::JointType::BALLSOCKETJOINT) { auto* bs = static_cast<rp::BallAndSocketJoint*>(d.j); bs->setConeLimitHalfAngle(decimal(g.uniform(0.1, 1.5))); bs->enableConeLimit(g.chance(0.5)); } desc += std::string(" ") + jn(t) + (d.ngs ? "" : "*"); }
    int steps = C.thorough ? g.range(50, 400) : g.range(10, 80);
    for (int k = 0; k < steps; k++) {
        V F, T; auto M = [&](int i) { return double(W.b[i]->getMass()); }; double mv = 0, mx = 0, J = 0, Jr = 0, scaleL = 0; V P0, X0, L0; std::vector<V> x0, v0, w0; std::vector<og::M> R0; V c; double mt = 0; for (int i = 0; i < n; i++) { c += W.com(i) * M(i); mt += M(i); } c = c / mt;
        if (forces) for (int i = 0; i < n; i++) if (g.chance(0.3)) { if (g.chance(0.5)) W.b[i]->applyWorldForceAtCenterOfMass(rv(rndBox(g, 20) * M(i))); else W.b[i]->applyWorldTorque(rv(rndBox(g, 2) * M(i))); }
        auto Lof = [&](int i, V w) { V I = ov(W.b[i]->getLocalInertiaTensor()); return R0[i] * og::had(I, R0[i].t() * w); };
        for (int i = 0; i < n; i++) { x0.push_back(W.com(i)); v0.push_back(ov(W.b[i]->getLinearVelocity())); w0.push_back(ov(W.b[i]->getAngularVelocity())); R0.push_back(og::mat(W.O(i))); V f = ov(W.b[i]->getForce()) + G * M(i); F += f; T += og::cross(x0[i] - c, f) + ov(W.b[i]->getTorque()); P0 += v0[i] * M(i); X0 += (x0[i] - c) * M(i); L0 += og::cross(x0[i] - c, v0[i]) * M(i) + Lof(i, w0[i]); mv += M(i) * (og::len(v0[i])) + og::len(f) * dt; }
        double apart = 0; for (auto& d : W.j) { V a = W.P(d.a) + og::rot(W.O(d.a), d.la), b = W.P(d.b) + og::rot(W.O(d.b), d.lb); if (d.t != rp::JointType::SLIDERJOINT) apart = std::max(apart, og::len(b - a)); }
        ml.apart = 0; ml.points = 0; W.w->update(decimal(dt)); V P1, X1, L1; double wmax = 0, vmax = 0, far = 0; bool bad = false;
        for (int i = 0; i < n; i++) { V v = ov(W.b[i]->getLinearVelocity()), w = ov(W.b[i]->getAngularVelocity()), x = W.com(i); if (!og::finite(v) || !og::finite(w) || !og::finite(x)) bad = true; wmax = std::max(wmax, og::len(w)); vmax = std::max(vmax, og::len(v)); double arm = og::len(x0[i] - c), Im = og::maxabs(ov(W.b[i]->getLocalInertiaTensor())); far = std::max(far, arm + 1);
            P1 += v * M(i); X1 += (x - c - v * dt) * M(i); L1 += og::cross(x0[i] - c, v) * M(i) + Lof(i, w); J += M(i) * og::len(v - v0[i]) + Im * og::len(w - w0[i]); mv += M(i) * og::len(v); mx += M(i) * (og::maxabs(x) + 1); scaleL += (M(i) * arm * (og::len(v) + og::len(v0[i])) + Im * (og::len(w) + og::len(w0[i]))); Jr += 0; }
        if (bad) { C.fail("not-finite", "step %d:%s", k, desc.c_str()); break; } if (vmax > 60 || wmax > 60) { C.count("histories ended: too fast"); break; }
        for (auto& d : W.j) Jr += og::len(ov(d.j->getReactionForce(decimal(dt)))) * dt + og::len(ov(d.j->getReactionTorque(decimal(dt)))) * dt;
        double eps = DBL ? 1e-13 : 1.5e-5, big = mv + J + Jr, tp = eps * big, tx = eps * (mx + big * dt), tl = (2 * apart + (ml.slick ? 3 : n == 2 ? 20 : 40 /* friction of bodies pressed together is not seen in their motion */) * ml.apart) * (J + Jr) + 2 * eps * (scaleL + (J + Jr) * far) * 2; C.eval(3);
        double ep = og::len(P1 - P0 - F * dt), ex = og::len(X1 - X0), el = og::len(L1 - L0 - T * dt); const char* what = ml.points ? (W.j.empty() ? "contacts" : "contacts and joints") : W.j.empty() ? "nothing" : "joints"; C.count(std::string("steps with ") + what); if (apart < 1e-3 && ml.apart < 1e-3) C.count(std::string("steps with lines of action less than 1 mm apart, with ") + what);
        C.maxi("largest error of the linear momentum, share of the tolerance", ep / tp); C.maxi("largest error of the centre of mass, share of the tolerance", ex / tx); C.maxi(std::string("largest error of the angular momentum, share of the tolerance: ") + (ml.slick ? "frictionless " : n == 2 ? "two bodies, " : "") + what, el / tl); C.seen(vh::hashBytes(&P1, sizeof P1));
        if (!(ep <= tp)) C.fail("linear", "step %d dt %g: the linear momentum of %d bodies changed by %s instead of %s (%s;%s)", k, dt, n, vs(P1 - P0).c_str(), vs(F * dt).c_str(), what, desc.c_str());
        if (!(ex <= tx)) C.fail("centre", "step %d dt %g: the common centre of mass of %d bodies left its path by %s (%s;%s)", k, dt, n, vs((X1 - X0) / mt).c_str(), what, desc.c_str());
        if (!(el <= tl)) C.fail("angular", "step %d dt %g: the angular momentum of %d bodies changed by %s instead of %s, tolerance %g, contact points %g apart, anchors %g apart (%s;%s)", k, dt, n, vs(L1 - L0).c_str(), vs(T * dt).c_str(), tl, ml.apart, apart, what, desc.c_str());
        if (!(ep <= tp && el <= tl && ex <= tx)) break;
    }
    C.sample("%d bodies, %s%s, joints:%s", n, contacts ? "contacts" : "no contacts", forces ? ", forces" : "", desc.c_str()); W.h.destroyPhysicsWorld(W.w);
}
static void oneCase(vh::Ctx& C) { if (C.mode == "rest" || (C.mode.empty() && C.rng.chance(0.1))) rest(C); else if (C.mode == "momentum") momentum(C); else if (C.mode == "limits") C.rng.chance(0.1) ? off(C) : limits(C); else if (C.mode == "life") lifeCase(C); else keep(C); }
int main(int c, char** v) { return vh::runMain(c, v, oneCase); }
