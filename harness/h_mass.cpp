// C20: mass, centre of mass and inertia against a shadow of the colliders; kept velocity field; refused values; the motion uses them.
#include "dyn.h"
struct Part { Sh s; rp::Collider* c; double dens; V p; Q q; V vol0; };
static double hullVolume(const Sh& s) { // of the polyhedron the mesh describes (signed tetrahedra over its faces), at the scale of the shape
    double vol = 0; const auto& he = s.cm->getHalfEdgeStructure(); auto P = [&](uint32_t i) { return og::had(ov(s.cm->getVertex(i)), s.scale); }; V c; for (uint32_t i = 0; i < s.cm->getNbVertices(); i++) c += P(i); c = c / double(s.cm->getNbVertices());
    for (uint32_t f = 0; f < s.cm->getNbFaces(); f++) { const auto& fv = he.getFace(f).faceVertices; for (uint32_t i = 1; i + 1 < fv.size(); i++) vol += og::dot(P(fv[0]) - c, og::cross(P(fv[i]) - c, P(fv[i + 1]) - c)) / 6; }
    return std::fabs(vol); }
static double volume(const Sh& s) { const double pi = 3.14159265358979323846; switch (s.k) { case SK::Sphere: return 4 / 3.0 * pi * std::pow(s.o.r, 3); case SK::Capsule: return pi * s.o.r * s.o.r * (4 / 3.0 * s.o.r + 2 * s.o.halfH); case SK::Box: return 8 * s.o.ext.x * s.o.ext.y * s.o.ext.z; default: return hullVolume(s); } }
static V inertia(const Sh& s, double m) { // about the origin of the shape, in its own axes
    switch (s.k) { case SK::Sphere: { double i = 0.4 * m * s.o.r * s.o.r; return V(i, i, i); } case SK::Box: { V e = s.o.ext; return V(e.y * e.y + e.z * e.z, e.x * e.x + e.z * e.z, e.x * e.x + e.y * e.y) * (m / 3); }
    case SK::Capsule: { double r = s.o.r, h = 2 * s.o.halfH, ms = m * (4 / 3.0 * r) / (4 / 3.0 * r + h), mc = m - ms, y = ms * 0.4 * r * r + mc * r * r / 2, d = h / 2; double x = ms * (0.4 * r * r + d * d + 0.75 * r * d) + mc * (r * r / 4 + h * h / 12); return V(x, y, x); }
    default: { LocalBox b = boundsOf(s.o, Pose()); V e = (b.hi - b.lo) * 0.5; return V(e.y * e.y + e.z * e.z, e.x * e.x + e.z * e.z, e.x * e.x + e.y * e.y) * (m / 3); } } }
static void oneCase(vh::Ctx& C) {
    vh::Rng& g = C.rng; PC h; rp::PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = false; ws.gravity = rp::Vector3(0, 0, 0); auto* w = h.createPhysicsWorld(ws); const double tol = DBL ? 1e-9 : 2e-5, htol = DBL ? 1e-9 : 1e-4;
    auto* b = w->createRigidBody(rt(rndBox(g, 20), rndOrient(g))); std::vector<Part> P; double m = 1; V com, I; const char* op = "created"; double mt = tol, ct = 0, it = tol; I = ov(b->getLocalInertiaTensor()); m = b->getMass(); V v, om; rp::BodyType type = rp::BodyType::DYNAMIC; b->setLinearDamping(0); b->setAngularDamping(0);
    auto fault = [&](const char* k, const std::string& s) { std::string d; for (auto& p : P) d += " " + p.s.o.desc + "*" + std::to_string(p.dens); C.fail(k, "%s: %s; parts%s", op, s.c_str(), d.substr(0, 1500).c_str()); };
    auto expect = [&](V& ecom, double& em, V& eI, double& mtol, double& ctol, double& itol, V about) { em = 0; ecom = V(); mtol = ctol = itol = tol; double reach = 0; for (auto& p : P) { double pm = p.dens * volume(p.s); em += pm; ecom += p.p * pm; reach = std::max(reach, og::len(p.p) + 1); if (p.s.k == SK::HullPoly || p.s.k == SK::HullQuick) mtol = htol; } if (em > 0) ecom = ecom / em; ctol = mtol * reach * 2; (void)about; (void)eI; };
    auto tensor = [&](V about, V& eI, double& itol) { eI = V(); itol = tol; for (auto& p : P) { double pm = p.dens * volume(p.s); V si = inertia(p.s, pm); og::M R = og::mat(p.q); V o = p.p - about; for (int k = 0; k < 3; k++) { double x = 0; for (int z = 0; z < 3; z++) { V e; e[z] = 1; double rkz = (R * e)[k]; x += rkz * rkz * si[z]; } eI[k] += x + pm * (og::dot(o, o) - o[k] * o[k]); } if (p.s.k == SK::HullPoly || p.s.k == SK::HullQuick) itol = htol; } };
    int ops = g.range(10, 40); C.sample("%d operations", ops);
    for (int k = 0; k < ops; k++) {
        V oldCom = ov(b->getLocalCenterOfMass()); rp::Transform T0 = b->getTransform(); V vb = ov(b->getLinearVelocity()), wb = ov(b->getAngularVelocity()); bool comMoved = false; V vol;
        switch (g.below(16)) {
        case 0: case 1: case 2: if (P.size() < 6) { op = "addCollider"; static const std::vector<SK> kinds = {SK::Sphere, SK::Capsule, SK::Box, SK::HullPoly, SK::HullQuick}; Part p; p.s = rndShape(h, g, g.logUniform(0.3, 3), kinds); if (!p.s.s) { C.count("shapes not built"); break; } p.p = rdv(rndBox(g, g.chance(0.3) ? 0 : 3)); p.q = rndOrient(g); rp::Transform t = rt(p.p, p.q); p.q = oq(t.getOrientation()); p.c = b->addCollider(p.s.s, t); p.dens = p.c->getMaterial().getMassDensity(); if (g.chance(0.7)) { p.dens = rd(g.logUniform(0.1, 50)); p.c->getMaterial().setMassDensity(decimal(p.dens)); } if (g.chance(0.15)) p.c->setIsSimulationCollider(g.chance(0.5)); P.push_back(p);
            double ev = volume(p.s), gv = p.s.s->getVolume(), vt = p.s.k == SK::HullPoly || p.s.k == SK::HullQuick ? htol : tol; C.count("shape volumes compared"); C.eval(); if (!(std::fabs(gv - ev) <= vt * ev)) fault("volume", "the volume of a " + p.s.o.desc + " is " + std::to_string(gv) + " instead of " + std::to_string(ev));
            V gi = ov(p.s.s->getLocalInertiaTensor(decimal(2.5))), ei = inertia(p.s, 2.5); if (!(og::len(gi - ei) <= tol * 4 * og::len(ei))) fault("shape-inertia", "the inertia of 2.5 kg of " + p.s.o.desc + " is " + vs(gi) + " instead of " + vs(ei)); } break;
        case 3: if (!P.empty()) { op = "removeCollider"; size_t i = g.below(uint32_t(P.size())); b->removeCollider(P[i].c); P.erase(P.begin() + i); } break;
        case 4: if (!P.empty()) { op = "setLocalToBodyTransform"; auto& p = P[g.below(uint32_t(P.size()))]; p.p = rdv(rndBox(g, 3)); rp::Transform t = rt(p.p, rndOrient(g)); p.q = oq(t.getOrientation()); p.c->setLocalToBodyTransform(t); } break;
        case 5: if (!P.empty()) { op = "setMassDensity"; auto& p = P[g.below(uint32_t(P.size()))]; p.dens = g.chance(0.1) ? 0 : rd(g.logUniform(0.1, 50)); p.c->getMaterial().setMassDensity(decimal(p.dens)); } break;
        case 6: { op = "setMass"; double x = g.chance(0.25) ? -g.uniform(0.001, 5) : rd(g.logUniform(0.01, 1000)); b->setMass(decimal(x)); if (x >= 0) { m = x; mt = 0; C.count("user-set masses"); } else C.count("negative masses refused"); } break;
        case 7: { op = "setLocalInertiaTensor"; I = rdv(V(g.logUniform(0.01, 50), g.logUniform(0.01, 50), g.logUniform(0.01, 50))); it = 0; b->setLocalInertiaTensor(rv(I)); C.count("user-set inertias"); } break;
        case 8: { op = "setLocalCenterOfMass"; com = rdv(rndBox(g, 2)); ct = 0; b->setLocalCenterOfMass(rv(com)); comMoved = true; C.count("user-set centres of mass"); } break;
        case 9: { op = "updateLocalCenterOfMassFromColliders"; b->updateLocalCenterOfMassFromColliders(); double em, mtl, itl; V ei; expect(com, em, ei, mtl, ct, itl, com); comMoved = true; C.count("centres of mass computed"); } break;
        case 10: { op = "updateLocalInertiaTensorFromColliders"; b->updateLocalInertiaTensorFromColliders(); tensor(oldCom, I, it); C.count("inertias computed"); } break;
        case 11: { op = "updateMassFromColliders"; b->updateMassFromColliders(); double ctl, itl; V ec, ei; expect(ec, m, ei, mt, ctl, itl, ec); C.count("masses computed"); } break;
        case 12: case 13: { op = "updateMassPropertiesFromColliders"; b->updateMassPropertiesFromColliders(); double itl; V ei; expect(com, m, ei, mt, ct, itl, com); tensor(ov(b->getLocalCenterOfMass()), I, it); comMoved = type == rp::BodyType::DYNAMIC; if (!comMoved) vol = V(1, 0, 0); C.count("mass properties computed"); } break;
        case 14: { op = "setVelocity"; b->setLinearVelocity(rv(rndBox(g, 3))); b->setAngularVelocity(rv(rndBox(g, 3))); vb = ov(b->getLinearVelocity()); wb = ov(b->getAngularVelocity()); } break;
        default: { op = "setType"; type = g.chance(0.7) ? rp::BodyType::DYNAMIC : g.chance(0.5) ? rp::BodyType::STATIC : rp::BodyType::KINEMATIC; b->setType(type); vb = ov(b->getLinearVelocity()); wb = ov(b->getAngularVelocity()); } break;
        }
        C.eval(); V gc = ov(b->getLocalCenterOfMass()), gi = ov(b->getLocalInertiaTensor()); double gm = b->getMass(); C.seen(vh::hashBytes(&gm, 8, vh::hashBytes(&gc, sizeof gc, vh::hashBytes(&gi, sizeof gi))));
        C.maxi("largest relative error of a computed mass", mt > 0 && m > 0 ? std::fabs(gm - m) / m : 0); C.maxi("largest error of a computed centre of mass", ct > 0 ? og::len(gc - com) : 0); C.maxi("largest relative error of a computed inertia", it > 0 && og::len(I) > 0 ? og::len(gi - I) / og::len(I) : 0);
        if (!(std::fabs(gm - m) <= mt * m)) { fault("mass", "the mass is " + std::to_string(gm) + " instead of " + std::to_string(m)); break; }
        if (!(og::len(gc - com) <= ct)) { fault("centre", "the local centre of mass is " + vs(gc) + " instead of " + vs(com)); break; }
        if (!(og::len(gi - I) <= it * 4 * og::len(I))) { fault("inertia", "the local inertia is " + vs(gi) + " instead of " + vs(I)); break; }
        if (!(b->getTransform() == T0)) { fault("moved", "the body moved"); break; }
        if (type == rp::BodyType::DYNAMIC) { V v1 = ov(b->getLinearVelocity()), w1 = ov(b->getAngularVelocity()), e = vb; if (comMoved) e += og::cross(wb, og::rot(op == nullptr ? Q() : oq(T0.getOrientation()), gc - oldCom)); double vt = (comMoved ? 40 * EPSD : 0) * (og::len(vb) + og::len(wb) * (og::len(ov(T0.getPosition())) + og::len(gc) + og::len(oldCom) + 1)); C.count("velocity fields compared"); if (!(og::len(v1 - e) <= vt) || !(og::len(w1 - wb) <= 0)) { fault("velocity-field", "the velocity of the centre became " + vs(v1) + " instead of " + vs(e) + ", turn " + vs(w1) + " instead of " + vs(wb)); break; } }
        if (g.chance(0.3)) { // the simulation uses exactly these values
            op = "update after the last operation"; for (auto& p : P) p.c->setCollideWithMaskBits(0); if (type == rp::BodyType::DYNAMIC) { b->applyWorldForceAtCenterOfMass(rv(rndBox(g, 3))); b->applyWorldTorque(rv(rndBox(g, 0.3))); } BSnap s = BSnap::take(b); double dt = 1 / 60.0; dt = rd(dt); w->update(decimal(dt)); Pred r = predict(s, dt, V(), false); C.count("steps predicted from the reported values"); V v1 = ov(b->getLinearVelocity()), w1 = ov(b->getAngularVelocity()), x1 = ov(b->getTransform() * b->getLocalCenterOfMass());
            if (type != rp::BodyType::STATIC && (!(og::len(v1 - r.v) <= 4 * r.tv) || !(og::len(w1 - r.w) <= 4 * r.tw) || !(og::len(x1 - r.com) <= 4 * r.tx))) { fault("motion", "a step gave the velocity " + vs(v1) + " instead of " + vs(r.v) + ", turn " + vs(w1) + " instead of " + vs(r.w) + ", centre " + vs(x1) + " instead of " + vs(r.com)); break; }
            if (og::len(v1) > 100 || og::len(w1) > 30) { b->setLinearVelocity(rp::Vector3(0, 0, 0)); b->setAngularVelocity(rp::Vector3(0, 0, 0)); } }
    }
    h.destroyPhysicsWorld(w);
}
int main(int c, char** v) { return vh::runMain(c, v, oneCase); }
