// C26: everything readable of a world is kept beside a model of what was set. C28 (mode "active"): bodies out of the world and back.
#include "dyn.h"
#include <set>
typedef std::map<std::string, std::vector<double>> Snap;
static std::vector<double> d3(const rp::Vector3& v) { return {double(v.x), double(v.y), double(v.z)}; }
static std::vector<double> dt7(const rp::Transform& t) { auto p = t.getPosition(); auto q = t.getOrientation(); return {double(p.x), double(p.y), double(p.z), double(q.x), double(q.y), double(q.z), double(q.w)}; }
static double ptr(const void* p) { return double(uintptr_t(p) & 0xffffffffffffull); }
static std::string K(char c, int i, const char* f) { return std::string(1, c) + std::to_string(i) + "." + f; }
static void bodySnap(Snap& s, int i, rp::RigidBody* b) {
    s[K('b', i, "transform")] = dt7(b->getTransform()); s[K('b', i, "v")] = d3(b->getLinearVelocity()); s[K('b', i, "w")] = d3(b->getAngularVelocity()); s[K('b', i, "mass")] = {double(b->getMass())}; s[K('b', i, "inertia")] = d3(b->getLocalInertiaTensor()); s[K('b', i, "com")] = d3(b->getLocalCenterOfMass());
    s[K('b', i, "damping")] = {double(b->getLinearDamping())}; s[K('b', i, "angular damping")] = {double(b->getAngularDamping())}; s[K('b', i, "lock")] = d3(b->getLinearLockAxisFactor()); s[K('b', i, "angular lock")] = d3(b->getAngularLockAxisFactor()); s[K('b', i, "force")] = d3(b->getForce()); s[K('b', i, "torque")] = d3(b->getTorque());
    s[K('b', i, "gravity")] = {double(b->isGravityEnabled())}; s[K('b', i, "may sleep")] = {double(b->isAllowedToSleep())}; s[K('b', i, "asleep")] = {double(b->isSleeping())}; s[K('b', i, "active")] = {double(b->isActive())}; s[K('b', i, "type")] = {double(int(b->getType()))}; s[K('b', i, "user")] = {double(pid(b->getUserData()))}; s[K('b', i, "colliders")] = {double(b->getNbColliders())}; s[K('b', i, "debug")] = {double(b->isDebugEnabled())};
}
static void colSnap(Snap& s, int i, rp::Collider* c) {
    s[K('c', i, "local")] = dt7(c->getLocalToBodyTransform()); s[K('c', i, "category")] = {double(c->getCollisionCategoryBits())}; s[K('c', i, "mask")] = {double(c->getCollideWithMaskBits())}; s[K('c', i, "trigger")] = {double(c->getIsTrigger())}; s[K('c', i, "simulation")] = {double(c->getIsSimulationCollider())}; s[K('c', i, "query")] = {double(c->getIsWorldQueryCollider())};
    rp::Material& m = c->getMaterial(); s[K('c', i, "bounciness")] = {double(m.getBounciness())}; s[K('c', i, "friction")] = {double(m.getFrictionCoefficient())}; s[K('c', i, "density")] = {double(m.getMassDensity())}; s[K('c', i, "user")] = {double(pid(c->getUserData()))}; s[K('c', i, "body")] = {ptr(c->getBody())}; s[K('c', i, "shape")] = {ptr(c->getCollisionShape())};
}
static void shapeSnap(Snap& s, int i, const Sh& h) {
    std::vector<double> p{double(int(h.s->getType())), double(int(h.s->getName()))}; switch (h.k) { case SK::Sphere: p.push_back(static_cast<rp::SphereShape*>(h.s)->getRadius()); break; case SK::Capsule: p.push_back(static_cast<rp::CapsuleShape*>(h.s)->getRadius()); p.push_back(static_cast<rp::CapsuleShape*>(h.s)->getHeight()); break; case SK::Box: for (double x : d3(static_cast<rp::BoxShape*>(h.s)->getHalfExtents())) p.push_back(x); break; case SK::HullPoly: case SK::HullQuick: for (double x : d3(static_cast<rp::ConvexMeshShape*>(h.s)->getScale())) p.push_back(x); break; default: for (double x : d3(static_cast<rp::ConcaveShape*>(h.s)->getScale())) p.push_back(x); p.push_back(double(int(static_cast<rp::ConcaveShape*>(h.s)->getRaycastTestType()))); }
    s[K('s', i, "size")] = p;
}
static void jointSnap(Snap& s, int i, const Sim::JointRec& j) {
    s[K('j', i, "kind")] = {double(int(j.j->getType())), double(j.j->isCollisionEnabled()), ptr(j.j->getBody1()), ptr(j.j->getBody2())};
    if (j.type == rp::JointType::BALLSOCKETJOINT) { auto* p = static_cast<rp::BallAndSocketJoint*>(j.j); s[K('j', i, "limit")] = {double(p->isConeLimitEnabled())}; s[K('j', i, "min")] = {double(p->getConeLimitHalfAngle())}; }
    else if (j.type == rp::JointType::HINGEJOINT) { auto* p = static_cast<rp::HingeJoint*>(j.j); s[K('j', i, "limit")] = {double(p->isLimitEnabled())}; s[K('j', i, "motor")] = {double(p->isMotorEnabled())}; s[K('j', i, "min")] = {double(p->getMinAngleLimit())}; s[K('j', i, "max")] = {double(p->getMaxAngleLimit())}; s[K('j', i, "speed")] = {double(p->getMotorSpeed())}; s[K('j', i, "maxforce")] = {double(p->getMaxMotorTorque())}; }
    else if (j.type == rp::JointType::SLIDERJOINT) { auto* p = static_cast<rp::SliderJoint*>(j.j); s[K('j', i, "limit")] = {double(p->isLimitEnabled())}; s[K('j', i, "motor")] = {double(p->isMotorEnabled())}; s[K('j', i, "min")] = {double(p->getMinTranslationLimit())}; s[K('j', i, "max")] = {double(p->getMaxTranslationLimit())}; s[K('j', i, "speed")] = {double(p->getMotorSpeed())}; s[K('j', i, "maxforce")] = {double(p->getMaxMotorForce())}; }
}
static Snap snap(Sim& s) {
    Snap m; for (size_t i = 0; i < s.bodies.size(); i++) if (s.bodies[i].alive) bodySnap(m, int(i), s.bodies[i].b); for (size_t i = 0; i < s.cols.size(); i++) if (s.cols[i].alive) colSnap(m, int(i), s.cols[i].c); for (size_t i = 0; i < s.shapes.size(); i++) if (s.shapes[i].alive && s.shapes[i].sh.s) shapeSnap(m, int(i), s.shapes[i].sh); for (size_t i = 0; i < s.joints.size(); i++) if (s.joints[i].alive) jointSnap(m, int(i), s.joints[i]);
    auto* w = s.w; m["w0.gravity"] = d3(w->getGravity()); m["w0.gravity on"] = {double(w->isGravityEnabled())}; m["w0.sleeping"] = {double(w->isSleepingEnabled())}; m["w0.sleep v"] = {double(w->getSleepLinearVelocity())}; m["w0.sleep w"] = {double(w->getSleepAngularVelocity())}; m["w0.sleep t"] = {double(w->getTimeBeforeSleep())}; m["w0.iterations"] = {double(w->getNbIterationsVelocitySolver())}; m["w0.position iterations"] = {double(w->getNbIterationsPositionSolver())}; m["w0.debug"] = {double(w->getIsDebugRenderingEnabled())}; m["w0.bodies"] = {double(w->getNbRigidBodies())}; for (int k = 0; k < 6; k++) m["w0.item" + std::to_string(k)] = {double(w->getDebugRenderer().getIsDebugItemDisplayed(rp::DebugRenderer::DebugItem(1 << k)))};
    return m;
}
struct Exp { std::map<std::string, std::vector<double>> is; std::set<std::string> any; void set(const std::string& k, std::vector<double> v) { is[k] = v; } void free(const std::string& k) { any.insert(k); } };
static bool same(const std::vector<double>& a, const std::vector<double>& b, double rel) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || std::fabs(a[i] - b[i]) <= rel * std::max(std::fabs(a[i]), std::fabs(b[i])))) return false; return true; }
static std::string show(const std::vector<double>& v) { std::string s = "("; for (double x : v) { char b[40]; snprintf(b, sizeof b, "%s%.9g", s.size() > 1 ? "," : "", x); s += b; } return s + ")"; }
static void rescale(Sh& h, V sc) { V f(sc.x / h.scale.x, sc.y / h.scale.y, sc.z / h.scale.z); if (h.o.kind == og::Kind::Mesh) { for (auto& t : h.o.tris) for (V& p : t) p = og::had(p, f); } else { std::vector<V> p = h.o.pts; for (V& x : p) x = og::had(x, f); h.o = og::hull(p); } h.scale = sc; h.R = boundR(h.o); }
static void boxes(vh::Ctx& C, Sim& s, const char* what) {
    for (size_t i = 0; i < s.cols.size(); i++) if (s.cols[i].alive) { auto* c = s.cols[i].c; auto* b = s.bodies[s.cols[i].body].b; const Sh& h = s.shapes[s.cols[i].shape].sh; Pose T = op(c->getLocalToWorldTransform()), want = op(b->getTransform() * c->getLocalToBodyTransform()); double e = (DBL ? 1e-10 : 2e-5) * (1 + og::len(want.p) + h.R); C.eval(2);
        double d = og::len(T.p - want.p); for (V x : {V(1, 0, 0), V(0, 1, 0), V(0, 0, 1)}) d = std::max(d, og::len(T.R * x - want.R * x)); C.maxi("world pose of a collider off its body's pose, share of the tolerance", d / e); if (d > e) C.fail("pose", "after %s: the world pose of collider %zu is %g off", what, i, d);
        LocalBox o = boundsOf(h.o, want), l = boundsOf(h.o, Pose()); rp::AABB a = c->getWorldAABB(); V lo = ov(a.getMin()), hi = ov(a.getMax()); double out = 0, wide = 0; V lc = (l.lo + l.hi) * 0.5, lh = (l.hi - l.lo) * 0.5, wc = want * lc; for (int k = 0; k < 3; k++) { out = std::max(out, std::max(lo[k] - o.lo[k], o.hi[k] - hi[k])); double ext = std::fabs(want.R.row(k).x) * lh.x + std::fabs(want.R.row(k).y) * lh.y + std::fabs(want.R.row(k).z) * lh.z; wide = std::max(wide, std::max(wc[k] - ext - lo[k], hi[k] - wc[k] - ext)); }
        C.maxi("shape outside of its box, share of the tolerance", out / e); C.maxi("box larger than that of the placed local box, share of the tolerance", wide / e); if (out > e) C.fail("box", "after %s: collider %zu (%s) leaves its world box by %g", what, i, h.o.desc.c_str(), out); if (wide > 10 * e) C.fail("box-wide", "after %s: the world box of collider %zu (%s) is %g larger than that of its placed local bounds", what, i, h.o.desc.c_str(), wide);
        if (b->isActive()) { rp::AABB f = s.w->getWorldAABB(c); double o2 = 0; for (int k = 0; k < 3; k++) o2 = std::max(o2, std::max(double(f.getMin()[k]) - lo[k], hi[k] - double(f.getMax()[k]))); if (o2 > e) C.fail("fat-box", "after %s: the box of collider %zu (%s) in the world is too small by %g", what, i, h.o.desc.c_str(), o2); } }
    for (auto& b : s.bodies) if (b.alive && !b.cols.empty()) { rp::AABB a = b.b->getAABB(); double o2 = 0; for (int c : b.cols) { rp::AABB x = s.cols[c].c->getWorldAABB(); for (int k = 0; k < 3; k++) o2 = std::max(o2, double(std::max(a.getMin()[k] - x.getMin()[k], x.getMax()[k] - a.getMax()[k]))); } if (o2 > (DBL ? 1e-9 : 1e-3)) C.fail("body-box", "after %s: the box of a body is %g smaller than that of one of its colliders", what, o2); C.eval(); }
}
static void lists(vh::Ctx& C, Sim& s, const char* what) {
    std::set<rp::RigidBody*> a, b; for (auto& x : s.bodies) if (x.alive) a.insert(x.b); for (uint32_t i = 0; i < s.w->getNbRigidBodies(); i++) b.insert(s.w->getRigidBody(i)); if (a != b) C.fail("bodies", "after %s: the world lists other bodies than those alive", what);
    for (auto& x : s.bodies) if (x.alive) { std::set<rp::Collider*> m, n; for (int c : x.cols) m.insert(s.cols[c].c); for (uint32_t i = 0; i < x.b->getNbColliders(); i++) n.insert(x.b->getCollider(i)); if (m != n) C.fail("colliders", "after %s: a body lists other colliders than those added", what); }
}
static void compare(vh::Ctx& C, const Snap& old, const Snap& now, const Exp& e, const char* what) {
    for (auto& kv : now) { auto o = old.find(kv.first); auto x = e.is.find(kv.first); if (x != e.is.end()) { C.eval(); if (!same(kv.second, x->second, kv.first.find("friction") != std::string::npos ? (DBL ? 1e-14 : 1e-6) : 0)) C.fail("read-back: " + kv.first.substr(kv.first.find('.') + 1), "after %s: %s is %s, it was set to %s", what, kv.first.c_str(), show(kv.second).c_str(), show(x->second).c_str()); continue; }
        if (o == old.end()) continue; if (e.any.count(kv.first)) continue; C.eval(); if (kv.second != o->second) C.fail("changed: " + kv.first.substr(kv.first.find('.') + 1), "%s changed %s from %s to %s", what, kv.first.c_str(), show(o->second).c_str(), show(kv.second).c_str()); }
}
static void setters(vh::Ctx& C) {
    vh::Rng& g = C.rng; PC pc; WOpt o; o.maxBodies = C.thorough ? 14 : 9; o.maxColliders = 3; o.maxJoints = 6; Sim s(pc, g.next(), o); s.verbose = C.verbose; s.start(); s.populate(g.range(2, 6)); Snap old = snap(s); int n = C.thorough ? 120 : 50; boxes(C, s, "creation"); auto V3 = [&](double k) { return rv(rndBox(g, k)); }; auto dd = [&](double x) { return double(decimal(x)); };
    for (int step = 0; step < n; step++) {
        Exp e; std::string what; for (size_t i = 0; i < s.bodies.size(); i++) if (s.bodies[i].alive) e.free(K('b', int(i), "asleep")); int i = s.liveB().empty() ? -1 : g.pick(s.liveB()), c = s.liveC().empty() ? -1 : g.pick(s.liveC()); rp::RigidBody* b = i >= 0 ? s.bodies[i].b : nullptr; rp::Collider* cc = c >= 0 ? s.cols[c].c : nullptr; double x = g.unit(); auto B = [&](const char* f) { return K('b', i, f); }; auto Cc = [&](const char* f) { return K('c', c, f); };
        if (x < 0.08) { what = "a step"; s.step(1 / 60.0); for (size_t k = 0; k < s.bodies.size(); k++) if (s.bodies[k].alive) { bool still = s.bodies[k].b->getType() == rp::BodyType::STATIC || !s.bodies[k].b->isActive(); for (const char* f : {"transform", "v", "w", "force", "torque"}) if (!still || f[0] == 'f' || f[0] == 't') if (!(still && !strcmp(f, "transform"))) e.free(K('b', int(k), f)); } if (s.opCount.count("reset")) {} for (size_t k = 0; k < s.bodies.size(); k++) if (s.bodies[k].alive && og::len(ov(s.bodies[k].b->getTransform().getPosition())) > 39) e.free(K('b', int(k), "transform")); /* clampState may move runaways */
            for (size_t k = 0; k < s.bodies.size(); k++) if (s.bodies[k].alive) { auto it = old.find(K('b', int(k), "transform")); if (it != old.end() && std::hypot(std::hypot(it->second[0], it->second[1]), it->second[2]) > 39) e.free(K('b', int(k), "transform")); for (const char* f : {"v", "w"}) { auto iv = old.find(K('b', int(k), f)); if (iv != old.end() && std::hypot(std::hypot(iv->second[0], iv->second[1]), iv->second[2]) > 59) { e.free(K('b', int(k), "v")); e.free(K('b', int(k), "w")); } } if (it != old.end() && std::hypot(std::hypot(it->second[0], it->second[1]), it->second[2]) > 39) e.free(K('b', int(k), "v")); } }
        else if (x < 0.12) { what = "creation of a body"; s.newBody(); e.free("w0.bodies"); }
        else if (x < 0.15) { if (i < 0) continue; what = "destruction of a body"; for (int k : s.bodies[i].cols) (void)k; s.destroyBody(i); e.free("w0.bodies"); }
        else if (x < 0.19) { if (i < 0) continue; what = "adding a collider"; s.newCollider(i, true); e.free(B("colliders")); }
        else if (x < 0.22) { if (c < 0) continue; what = "removing a collider"; int bi = s.cols[c].body; s.removeCollider(c); e.free(K('b', bi, "colliders")); }
        else if (x < 0.25) { what = "creation of a joint"; s.newJoint(); }
        else if (x < 0.27) { what = "destruction of a joint"; s.rmJoint(); }
        else if (x < 0.33) { auto v = s.liveJ(); if (v.empty()) continue; int k = g.pick(v); auto& j = s.joints[k]; auto J = [&](const char* f) { return K('j', k, f); }; int op = g.below(6); double lo = -g.uniform(0, 3), hi = g.uniform(0, 3), sp = g.uniform(-5, 5), mf = g.uniform(0, 50); bool on = g.chance(0.5); what = "a change of a joint";
            if (j.type == rp::JointType::BALLSOCKETJOINT) { auto* p = static_cast<rp::BallAndSocketJoint*>(j.j); if (op < 3) { p->enableConeLimit(on); e.set(J("limit"), {double(on)}); } else { double a = g.uniform(0.01, 3.1); p->setConeLimitHalfAngle(decimal(a)); e.set(J("min"), {dd(a)}); } }
            else if (j.type == rp::JointType::HINGEJOINT) { auto* p = static_cast<rp::HingeJoint*>(j.j); if (op == 0) { p->enableLimit(on); e.set(J("limit"), {double(on)}); } else if (op == 1) { p->enableMotor(on); e.set(J("motor"), {double(on)}); } else if (op == 2) { p->setMinAngleLimit(decimal(lo)); e.set(J("min"), {dd(lo)}); } else if (op == 3) { p->setMaxAngleLimit(decimal(hi)); e.set(J("max"), {dd(hi)}); } else if (op == 4) { p->setMotorSpeed(decimal(sp)); e.set(J("speed"), {dd(sp)}); } else { p->setMaxMotorTorque(decimal(mf)); e.set(J("maxforce"), {dd(mf)}); } }
            else if (j.type == rp::JointType::SLIDERJOINT) { auto* p = static_cast<rp::SliderJoint*>(j.j); if (op == 0) { p->enableLimit(on); e.set(J("limit"), {double(on)}); } else if (op == 1) { p->enableMotor(on); e.set(J("motor"), {double(on)}); } else if (op == 2) { p->setMinTranslationLimit(decimal(lo)); e.set(J("min"), {dd(lo)}); } else if (op == 3) { p->setMaxTranslationLimit(decimal(hi)); e.set(J("max"), {dd(hi)}); } else if (op == 4) { p->setMotorSpeed(decimal(sp)); e.set(J("speed"), {dd(sp)}); } else { p->setMaxMotorForce(decimal(mf)); e.set(J("maxforce"), {dd(mf)}); } } }
        else if (x < 0.68) { if (i < 0) continue; bool stat = b->getType() == rp::BodyType::STATIC; int k = g.below(26); what = "setter " + std::to_string(k) + " of a body"; switch (k) {
            case 0: case 1: { auto t = rt(rndBox(g, 4), rndOrient(g)); b->setTransform(t); e.set(B("transform"), dt7(t)); break; }
            case 2: { auto v = V3(8); b->setLinearVelocity(v); if (!stat) e.set(B("v"), d3(v)); break; }
            case 3: { auto v = V3(8); b->setAngularVelocity(v); if (!stat) e.set(B("w"), d3(v)); break; }
            case 4: { double m = g.logUniform(0.1, 50); b->setMass(decimal(m)); e.set(B("mass"), {dd(m)}); break; }
            case 5: { auto v = rv(V(g.uniform(0.1, 5), g.uniform(0.1, 5), g.uniform(0.1, 5))); b->setLocalInertiaTensor(v); e.set(B("inertia"), d3(v)); break; }
            case 6: { auto v = V3(0.5); b->setLocalCenterOfMass(v); e.set(B("com"), d3(v)); e.free(B("v")); break; }
            case 7: b->updateMassPropertiesFromColliders(); s.fixMass(i); e.free(B("mass")); e.free(B("inertia")); e.free(B("com")); e.free(B("v")); break;
            case 8: b->updateMassFromColliders(); s.fixMass(i); e.free(B("mass")); break;
            case 9: b->updateLocalCenterOfMassFromColliders(); e.free(B("com")); e.free(B("v")); break;
            case 10: b->updateLocalInertiaTensorFromColliders(); e.free(B("inertia")); break;
            case 11: { double d = g.uniform(0, 2); b->setLinearDamping(decimal(d)); e.set(B("damping"), {dd(d)}); break; }
            case 12: { double d = g.uniform(0, 2); b->setAngularDamping(decimal(d)); e.set(B("angular damping"), {dd(d)}); break; }
            case 13: { rp::Vector3 l(decimal(g.below(2)), decimal(g.below(2)), decimal(g.below(2))); b->setLinearLockAxisFactor(l); e.set(B("lock"), d3(l)); break; }
            case 14: { rp::Vector3 l(decimal(g.below(2)), decimal(g.below(2)), decimal(g.below(2))); b->setAngularLockAxisFactor(l); e.set(B("angular lock"), d3(l)); break; }
            case 15: { bool on = g.chance(0.5); b->enableGravity(on); e.set(B("gravity"), {double(on)}); break; }
            case 16: { bool on = g.chance(0.5); b->setIsAllowedToSleep(on); e.set(B("may sleep"), {double(on)}); break; }
            case 17: { bool on = g.chance(0.5); b->setIsSleeping(on); if (!stat && b->isActive()) e.set(B("asleep"), {double(on)}); if (on) for (const char* f : {"v", "w", "force", "torque"}) e.free(B(f)); break; }
            case 18: case 19: { bool on = g.chance(0.6); b->setIsActive(on); e.set(B("active"), {double(on)}); if (!on) for (const char* f : {"v", "w", "force", "torque"}) e.free(B(f)); break; }
            case 20: { if (s.bodies[i].concave) break; auto t = rp::BodyType(g.below(3)); b->setType(t); e.set(B("type"), {double(int(t))}); if (t == rp::BodyType::STATIC) e.set(B("v"), {0, 0, 0}), e.set(B("w"), {0, 0, 0}); e.free(B("force")); e.free(B("torque")); break; }
            case 21: { bool on = g.chance(0.5); b->setIsDebugEnabled(on); e.set(B("debug"), {double(on)}); break; }
            case 22: b->applyWorldForceAtCenterOfMass(V3(50)); e.free(B("force")); break;
            case 23: b->applyWorldForceAtWorldPosition(V3(50), V3(4)); e.free(B("force")); e.free(B("torque")); break;
            case 24: b->resetForce(); e.set(B("force"), {0, 0, 0}); break;
            default: b->resetTorque(); e.set(B("torque"), {0, 0, 0}); } }
        else if (x < 0.88) { if (c < 0) continue; int k = g.below(13); what = "setter " + std::to_string(k) + " of a collider"; switch (k) {
            case 0: case 1: { auto t = rt(rndBox(g, 0.8), rndOrient(g)); cc->setLocalToBodyTransform(t); e.set(Cc("local"), dt7(t)); break; }
            case 2: { unsigned short m = (unsigned short)g.below(65536); cc->setCollisionCategoryBits(m); e.set(Cc("category"), {double(m)}); break; }
            case 3: { unsigned short m = (unsigned short)g.below(65536); cc->setCollideWithMaskBits(m); e.set(Cc("mask"), {double(m)}); break; }
            case 4: { bool on = g.chance(0.5); cc->setIsTrigger(on); e.set(Cc("trigger"), {double(on)}); if (on) e.set(Cc("simulation"), {0}); break; }
            case 5: { bool on = g.chance(0.5); cc->setIsSimulationCollider(on); e.set(Cc("simulation"), {double(on)}); if (on) e.set(Cc("trigger"), {0}); break; }
            case 6: { bool on = g.chance(0.5); cc->setIsWorldQueryCollider(on); e.set(Cc("query"), {double(on)}); break; }
            case 7: { double v = g.unit(); cc->getMaterial().setBounciness(decimal(v)); e.set(Cc("bounciness"), {dd(v)}); break; }
            case 8: { double v = g.uniform(0, 2); cc->getMaterial().setFrictionCoefficient(decimal(v)); e.set(Cc("friction"), {dd(v)}); break; }
            case 9: { double v = g.uniform(0.1, 5); cc->getMaterial().setMassDensity(decimal(v)); e.set(Cc("density"), {dd(v)}); break; }
            case 10: { int q = g.pick(s.liveC()); rp::Material m = s.cols[q].c->getMaterial(); cc->setMaterial(m); e.set(Cc("bounciness"), {double(m.getBounciness())}); e.set(Cc("friction"), {double(m.getFrictionCoefficient())}); e.set(Cc("density"), {double(m.getMassDensity())}); break; }
            default: { int si = s.cols[c].shape; Sh& h = s.shapes[si].sh; double r = g.uniform(0.3, 1.2); V sc(g.uniform(0.5, 2), g.uniform(0.5, 2), g.uniform(0.5, 2)); V rs = rdv(sc); what = std::string("resizing a ") + skname(h.k); std::vector<double> p{double(int(h.s->getType())), double(int(h.s->getName()))};
                switch (h.k) { case SK::Sphere: static_cast<rp::SphereShape*>(h.s)->setRadius(decimal(r)); h.o = og::sphere(rd(r)); p.push_back(rd(r)); break; case SK::Capsule: { auto* q = static_cast<rp::CapsuleShape*>(h.s); double ra = q->getRadius(), he = q->getHeight(); if (g.chance(0.5)) q->setRadius(decimal(ra = rd(r))); else q->setHeight(decimal(he = rd(r * 2))); h.o = og::capsule(ra, he); p.push_back(ra); p.push_back(he); break; } case SK::Box: static_cast<rp::BoxShape*>(h.s)->setHalfExtents(rv(sc)); h.o = og::box(rs); p.insert(p.end(), {rs.x, rs.y, rs.z}); break;
                    case SK::HullPoly: case SK::HullQuick: static_cast<rp::ConvexMeshShape*>(h.s)->setScale(rv(sc)); rescale(h, rs); p.insert(p.end(), {rs.x, rs.y, rs.z}); break; default: { auto* q = static_cast<rp::ConcaveShape*>(h.s); q->setScale(rv(sc)); rescale(h, rs); auto side = rp::TriangleRaycastSide(g.below(3)); q->setRaycastTestType(side); p.insert(p.end(), {rs.x, rs.y, rs.z, double(int(side))}); } }
                h.R = boundR(h.o); e.set(K('s', si, "size"), p); } } }
        else if (x < 0.97) { auto* w = s.w; int k = g.below(10); what = "setter " + std::to_string(k) + " of the world"; switch (k) {
            case 0: { auto v = V3(10); w->setGravity(v); e.set("w0.gravity", d3(v)); break; } case 1: { bool on = g.chance(0.5); w->setIsGravityEnabled(on); e.set("w0.gravity on", {double(on)}); break; } case 2: { bool on = g.chance(0.5); w->enableSleeping(on); e.set("w0.sleeping", {double(on)}); break; }
            case 3: { int q = g.range(1, 20); w->setNbIterationsVelocitySolver((unsigned short)q); e.set("w0.iterations", {double(q)}); break; } case 4: { int q = g.range(1, 20); w->setNbIterationsPositionSolver(q); e.set("w0.position iterations", {double(q)}); break; }
            case 5: { double q = g.uniform(0, 0.3); w->setSleepLinearVelocity(decimal(q)); e.set("w0.sleep v", {dd(q)}); break; } case 6: { double q = g.uniform(0, 0.3); w->setSleepAngularVelocity(decimal(q)); e.set("w0.sleep w", {dd(q)}); break; } case 7: { double q = g.uniform(0, 1); w->setTimeBeforeSleep(decimal(q)); e.set("w0.sleep t", {dd(q)}); break; }
            case 8: { bool on = g.chance(0.3); w->setIsDebugRenderingEnabled(on); e.set("w0.debug", {double(on)}); break; } default: { int q = g.below(6); bool on = g.chance(0.5); w->getDebugRenderer().setIsDebugItemDisplayed(rp::DebugRenderer::DebugItem(1 << q), on); e.set("w0.item" + std::to_string(q), {double(on)}); } } }
        else { if (!b) continue; what = "conversions"; Pose T = op(b->getTransform()); for (int q = 0; q < 4; q++) { V p = rndBox(g, 5), v = rndBox(g, 2); rp::Vector3 P = rv(p), Vv = rv(v); p = ov(P); v = ov(Vv); double tol = (DBL ? 1e-13 : 4e-6) * (1 + og::len(T.p) + og::len(p)); auto chk = [&](const char* n, V got, V want) { C.eval(); C.maxi("conversion error, share of the tolerance", og::len(got - want) / tol); if (og::len(got - want) > tol) C.fail(std::string("convert-") + n, "%s of %s gives %s instead of %s", n, vs(p).c_str(), vs(got).c_str(), vs(want).c_str()); };
                chk("getWorldPoint", ov(b->getWorldPoint(P)), T * p); chk("getLocalPoint", ov(b->getLocalPoint(P)), T.inv(p)); chk("getWorldVector", ov(b->getWorldVector(Vv)), T.R * v); chk("getLocalVector", ov(b->getLocalVector(Vv)), T.R.t() * v); } }
        Snap now = snap(s); compare(C, old, now, e, what.c_str()); if (g.chance(0.5) || what == "a step") { boxes(C, s, what.c_str()); lists(C, s, what.c_str()); } C.count("operations"); C.count("values compared", double(now.size())); uint64_t h = s.digest(); C.seen(h); old = now;
    }
    C.sample("%zu bodies, %zu colliders, %zu joints created in a history of %d operations", s.bodies.size(), s.cols.size(), s.joints.size(), n); s.stop();
}
#include "state_active.h"
int main(int c, char** v) { return vh::runMain(c, v, [](vh::Ctx& C) { if (C.mode == "active") active(C); else setters(C); }); }
