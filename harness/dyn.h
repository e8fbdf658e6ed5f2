// One step of a body without contacts and joints, predicted from what can be read back from it before the step.
#pragma once
#include "world.h"
struct BSnap {
    rp::Transform T; V p, com, comL, v, w, I, F, Tq, ll, al; Q q; double m = 0, ld = 0, ad = 0; bool grav = false, sleeping = false, active = false; rp::BodyType type = rp::BodyType::DYNAMIC;
    rp::Vector3 rvv, rww;
    static BSnap take(rp::RigidBody* b) {
        BSnap s; s.T = b->getTransform(); s.p = ov(s.T.getPosition()); s.q = oq(s.T.getOrientation()); s.comL = ov(b->getLocalCenterOfMass()); s.com = s.p + og::rot(s.q, s.comL);
        s.rvv = b->getLinearVelocity(); s.rww = b->getAngularVelocity(); s.v = ov(s.rvv); s.w = ov(s.rww); s.I = ov(b->getLocalInertiaTensor()); s.m = b->getMass(); s.F = ov(b->getForce()); s.Tq = ov(b->getTorque());
        s.ll = ov(b->getLinearLockAxisFactor()); s.al = ov(b->getAngularLockAxisFactor()); s.ld = b->getLinearDamping(); s.ad = b->getAngularDamping(); s.grav = b->isGravityEnabled(); s.sleeping = b->isSleeping(); s.active = b->isActive(); s.type = b->getType(); return s;
    }
    bool fixedThisStep() const { return type == rp::BodyType::STATIC || !active; }
};
struct Pred { V v, w, com; Q q; double tv, tw, tx, tq; };
inline Pred predict(const BSnap& s, double dt, V g, bool gravity) {
    Pred r; bool dyn = s.type == rp::BodyType::DYNAMIC; double im = dyn && s.m > 0 ? 1 / s.m : 0; V ii; for (int k = 0; k < 3; k++) ii[k] = dyn && s.I[k] != 0 ? 1 / s.I[k] : 0;
    V a = og::had(s.ll, s.F) * im, ga = gravity && s.grav ? og::had(s.ll, g) * (s.m * im) : V();
    og::M R = og::mat(s.q); V al = og::had(s.al, R * og::had(ii, R.t() * s.Tq));
    double fl = 1 / (1 + s.ld * dt), fa = 1 / (1 + s.ad * dt);
    r.v = (s.v + (a + ga) * dt) * fl; r.w = (s.w + al * dt) * fa; r.com = s.com + r.v * dt;
    Q dq = Q(r.w.x, r.w.y, r.w.z, 0) * s.q; r.q = og::qunit(Q(s.q.x + 0.5 * dt * dq.x, s.q.y + 0.5 * dt * dq.y, s.q.z + 0.5 * dt * dq.z, s.q.w + 0.5 * dt * dq.w));
    double iimax = og::maxabs(ii), w2 = og::len(s.w) + dt * iimax * og::len(s.Tq) * 4;
    r.tv = (DBL ? 1e-300 : 1e-36) + 8 * EPSD * (og::len(s.v) + dt * (og::len(a) + og::len(ga))); r.tw = (DBL ? 1e-300 : 1e-36) + 8 * EPSD * w2;
    r.tx = 8 * EPSD * (og::len(s.p) + og::len(s.comL) * 2 + og::len(r.v) * dt) + r.tv * dt; r.tq = 8 * EPSD * (1 + w2 * dt);
    return r;
}
inline double qdist(Q a, Q b) { double d0 = 0, d1 = 0; for (int i = 0; i < 4; i++) { double x = i == 0 ? a.x : i == 1 ? a.y : i == 2 ? a.z : a.w, y = i == 0 ? b.x : i == 1 ? b.y : i == 2 ? b.z : b.w; d0 = std::max(d0, std::fabs(x - y)); d1 = std::max(d1, std::fabs(x + y)); } return std::min(d0, d1); }
