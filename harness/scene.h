// A scene as data, so that it can be built several times: moved as a whole, in parts, with the roles of bodies exchanged.
#pragma once
#include "dyn.h"
struct ColD { SK k; V e; uint64_t seed = 0; Pose at; Q aq; double density = 1, bounce = 0, mu = 0.3; };
struct BodyD { rp::BodyType t; V p; Q q; V v, w; std::vector<ColD> c; double ld = 0, ad = 0; bool grav = true; int group = 0; bool sleep = true, ghost = false; };
struct JointD { rp::JointType t; int a, b; V anchor, axis; bool ngs = true, coll = true, limit = false, motor = false; double lo = 0, hi = 0, speed = 0, force = 0, cone = -1; int group = 0; };
struct SceneD { V G; bool sleeping = false; std::vector<BodyD> b; std::vector<JointD> j; int vi = 10, pi = 5; };
struct Built {
    PC pc; rp::PhysicsWorld* w = nullptr; std::vector<rp::RigidBody*> b; std::vector<rp::Joint*> j; std::vector<Sh> shapes;
    static Q mul(Q a, Q b) { return a * b; }
    static Sh shape(rp::PhysicsCommon& pc, const ColD& c) {
        vh::Rng g(c.seed); switch (c.k) { case SK::Sphere: return mkSphere(pc, c.e.x); case SK::Capsule: return mkCapsule(pc, c.e.x, c.e.y); case SK::Box: return mkBox(pc, c.e); case SK::HullPoly: return mkHullPoly(pc, rndPoly(g, c.e.x)); case SK::HullQuick: return mkHullQuick(pc, rndHullPoints(g, c.e.x, g.range(5, 12))); default: return rndShape(pc, g, c.e.x, {c.k}); }
    }
    // keep: which bodies (and the joints between them) to build; (F, q): where the scene is put; swap: joints with the bodies exchanged; order: order in which the bodies are created
    Built(const SceneD& s, std::function<bool(int)> keep, V F, Q q, bool swap = false, const std::vector<int>* order = nullptr) {
        rp::PhysicsWorld::WorldSettings ws; ws.gravity = rv(og::rot(q, s.G)); ws.isSleepingEnabled = s.sleeping; w = pc.createPhysicsWorld(ws); w->setNbIterationsVelocitySolver(s.vi); w->setNbIterationsPositionSolver(s.pi);
        b.assign(s.b.size(), nullptr); for (size_t n = 0; n < s.b.size(); n++) { size_t i = order ? size_t((*order)[n]) : n; if (keep(int(i))) add(s.b[i], int(i), F, q); }
        for (auto& d : s.j) { j.push_back(nullptr); if (b[size_t(d.a)] && b[size_t(d.b)]) joint(d, F, q, swap); }
    }
    void add(const BodyD& d, int i, V F, Q q) {
        const rp::Transform at = rt(F + og::rot(q, d.p), q * d.q); bool later = i % 3 == 1; /* a third of the bodies is made elsewhere and put in place afterwards */ auto* x = w->createRigidBody(later ? rt(F + og::rot(q, d.p + V(3, 40, -2)), q) : at); b[size_t(i)] = x; x->setUserData(idp(i));
        for (auto& c : d.c) { shapes.push_back(shape(pc, c)); auto* k = x->addCollider(shapes.back().s, rt(c.at.p, c.aq)); if (d.ghost) k->setCollideWithMaskBits(0); k->getMaterial().setMassDensity(decimal(c.density)); k->getMaterial().setBounciness(decimal(c.bounce)); k->getMaterial().setFrictionCoefficient(decimal(c.mu)); }
        bool conc = false; for (auto& c : d.c) conc |= c.k == SK::Mesh || c.k == SK::Field; if (!conc) x->updateMassPropertiesFromColliders(); x->setType(d.t); if (later) x->setTransform(at); x->setLinearVelocity(rv(og::rot(q, d.v))); x->setAngularVelocity(rv(og::rot(q, d.w))); x->setLinearDamping(decimal(d.ld)); x->setAngularDamping(decimal(d.ad)); x->enableGravity(d.grav); x->setIsAllowedToSleep(d.sleep);
    }
    void joint(const JointD& d, V F, Q q, bool swap) {
        auto *A = b[size_t(swap ? d.b : d.a)], *B = b[size_t(swap ? d.a : d.b)]; rp::Vector3 an = rv(F + og::rot(q, d.anchor)), ax = rv(og::rot(q, d.axis)); double lo = swap ? -d.hi : d.lo, hi = swap ? -d.lo : d.hi, sp = swap ? -d.speed : d.speed;
        auto fin = [&](rp::JointInfo& i) { i.positionCorrectionTechnique = d.ngs ? rp::JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL : rp::JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS; i.isCollisionEnabled = d.coll; j.back() = w->createJoint(i); };
        if (d.t == rp::JointType::BALLSOCKETJOINT) { rp::BallAndSocketJointInfo i(A, B, an); fin(i); auto* p = static_cast<rp::BallAndSocketJoint*>(j.back()); if (d.cone > 0) { p->setConeLimitHalfAngle(decimal(d.cone)); p->enableConeLimit(true); } }
        else if (d.t == rp::JointType::FIXEDJOINT) { rp::FixedJointInfo i(A, B, an); fin(i); }
        // the slider axis is carried by the first body and the translation is that of the second: exchanged bodies translate the other way
        else if (d.t == rp::JointType::HINGEJOINT) { rp::HingeJointInfo i(A, B, an, ax); if (d.limit) { i.isLimitEnabled = true; i.minAngleLimit = decimal(lo); i.maxAngleLimit = decimal(hi); } if (d.motor) { i.isMotorEnabled = true; i.motorSpeed = decimal(sp); i.maxMotorTorque = decimal(d.force); } fin(i); }
        else { rp::SliderJointInfo i(A, B, an, ax); if (d.limit) { i.isLimitEnabled = true; i.minTranslationLimit = decimal(lo); i.maxTranslationLimit = decimal(hi); } if (d.motor) { i.isMotorEnabled = true; i.motorSpeed = decimal(sp); i.maxMotorForce = decimal(d.force); } fin(i); }
    }
    V P(int i) const { return ov(b[size_t(i)]->getTransform().getPosition()); } Q O(int i) const { return oq(b[size_t(i)]->getTransform().getOrientation()); }
    V vel(int i) const { return ov(b[size_t(i)]->getLinearVelocity()); } V ang(int i) const { return ov(b[size_t(i)]->getAngularVelocity()); }
    V com(int i) const { return P(i) + og::rot(O(i), ov(b[size_t(i)]->getLocalCenterOfMass())); }
    // kinetic and potential energy of the dynamic bodies
    double energy(V G) const { double e = 0; for (size_t i = 0; i < b.size(); i++) if (b[i] && b[i]->getType() == rp::BodyType::DYNAMIC) { V v = vel(int(i)), w2 = og::mat(O(int(i))).t() * ang(int(i)), I = ov(b[i]->getLocalInertiaTensor()); double m = b[i]->getMass(); e += 0.5 * m * og::dot(v, v) + 0.5 * og::dot(w2, og::had(I, w2)) - (b[i]->isGravityEnabled() ? m * og::dot(G, com(int(i))) : 0); } return e; }
};
inline ColD rndCol(vh::Rng& g, double s, const std::vector<SK>& kinds) {
    ColD c; c.k = g.pick(kinds); c.seed = g.next(); c.density = g.logUniform(0.5, 3); c.bounce = g.chance(0.5) ? 0 : g.uniform(0, 1); c.mu = g.uniform(0, 1);
    switch (c.k) { case SK::Sphere: c.e.x = s * g.uniform(0.5, 1); break; case SK::Capsule: c.e = V(s * g.uniform(0.3, 0.6), s * g.uniform(0.5, 1.2), 0); break; case SK::Box: { double x = s * g.uniform(0.4, 0.9), y = s * g.uniform(0.4, 0.9), z = s * g.uniform(0.4, 0.9); c.e = V(x, y, z); break; } default: c.e.x = s * g.uniform(0.6, 1); }
    return c;
}
