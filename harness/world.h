// A random "user" of the library: performs valid API calls on one world, records what it observes.
// Mutations draw from rng `r`, queries from rng `rq`, so that the same mutations can be replayed with or without queries.
#pragma once
#include "rp.h"
#include <array>

struct EvPoint { rp::Vector3 n, p1, p2; decimal depth; };
struct Ev { bool trigger; int b1, c1, b2, c2, type; std::vector<EvPoint> pts; };    // type: 0 start 1 stay 2 exit
inline void* idp(int id) { return reinterpret_cast<void*>(intptr_t(id) + 1); }
inline int pid(void* p) { return int(reinterpret_cast<intptr_t>(p)) - 1; }

struct Hash { uint64_t h = 1469598103934665603ull;
    void raw(const void* p, size_t n) { h = vh::hashBytes(p, n, h); }
    void i(long long v) { raw(&v, sizeof v); }
    void d(decimal v) { raw(&v, sizeof v); }
    void v(const rp::Vector3& a) { d(a.x); d(a.y); d(a.z); }
    void t(const rp::Transform& a) { v(a.getPosition()); rp::Quaternion q = a.getOrientation(); d(q.x); d(q.y); d(q.z); d(q.w); }
};

struct WOpt {
    double ext = 4;             // bodies are created in [-ext, ext]^3
    int maxBodies = 14, maxJoints = 10, maxColliders = 4;
    bool concave = true, hulls = true, joints = true, queries = true, debug = true, resize = true, setType = true, sleepOps = true, activeOps = true, destroy = true,
         massOps = true, filterOps = true, worldOps = true, triggers = true, jointNoCollision = true, teleport = true, clampState = true, zeroMass = true, staticJoints = true, strangeMass = true;
    double floorChance = 0.7;
};

struct Sim : rp::EventListener {
    struct ShapeRec { Sh sh; int refs = 0; bool alive = true; };
    struct BodyRec { rp::RigidBody* b = nullptr; std::vector<int> cols; bool alive = false; bool concave = false; };
    struct ColRec { rp::Collider* c = nullptr; int body = -1, shape = -1; bool alive = false; };
    struct JointRec { rp::Joint* j = nullptr; rp::JointType type; int b1 = -1, b2 = -1; bool alive = false; bool coll = true; };
    rp::PhysicsCommon& pc; rp::PhysicsWorld* w = nullptr; WOpt o; vh::Rng r, rq;
    std::vector<ShapeRec> shapes; std::vector<BodyRec> bodies; std::vector<ColRec> cols; std::vector<JointRec> joints;
    std::vector<Ev> evs;              // events of the last step
    std::vector<std::string> problems; // events naming unknown objects, callbacks outside of update ...
    std::map<std::string, long> opCount;
    Hash qh;                          // query answers
    Hash eh;                          // events
    bool inStep = false, verbose = false; long nSteps = 0, nEvents = 0, nQueries = 0, nContactPts = 0;
    std::string trace;                // the last operations

    Sim(rp::PhysicsCommon& pc, uint64_t seed, const WOpt& o = WOpt()) : pc(pc), o(o), r(vh::mix(seed, 1)), rq(vh::mix(seed, 2)) {}
    ~Sim() override {}
    void note(const char* f, ...) __attribute__((format(printf, 2, 3))) {
        char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
        std::string name(b, std::min(strlen(b), strcspn(b, " "))); opCount[name]++;
        if (verbose) { printf("  op %s\n", b); fflush(stdout); }
    }
    void start() {
        rp::PhysicsWorld::WorldSettings s; s.worldName = "w"; w = pc.createPhysicsWorld(s); w->setEventListener(this);
    }
    // --- events ---
    int bodyId(rp::Body* b) { int id = pid(b->getUserData()); if (id < 0 || id >= int(bodies.size()) || !bodies[id].alive || bodies[id].b != b) { problems.push_back("event names a body that is not alive"); return -1; } return id; }
    int colId(rp::Collider* c) { int id = pid(c->getUserData()); if (id < 0 || id >= int(cols.size()) || !cols[id].alive || cols[id].c != c) { problems.push_back("event names a collider that is not alive"); return -1; } return id; }
    void onContact(const rp::CollisionCallback::CallbackData& d) override {
        if (!inStep) problems.push_back("contact event outside of a step");
        for (rp::uint32 i = 0; i < d.getNbContactPairs(); i++) {
            rp::CollisionCallback::ContactPair p = d.getContactPair(i); Ev e; e.trigger = false;
            e.b1 = bodyId(p.getBody1()); e.b2 = bodyId(p.getBody2()); e.c1 = colId(p.getCollider1()); e.c2 = colId(p.getCollider2());
            e.type = p.getEventType() == rp::CollisionCallback::ContactPair::EventType::ContactStart ? 0 : p.getEventType() == rp::CollisionCallback::ContactPair::EventType::ContactStay ? 1 : 2;
            for (rp::uint32 k = 0; k < p.getNbContactPoints(); k++) { auto c = p.getContactPoint(k); e.pts.push_back({c.getWorldNormal(), c.getLocalPointOnCollider1(), c.getLocalPointOnCollider2(), c.getPenetrationDepth()}); }
            hashEv(e); evs.push_back(e);
        }
    }
    void onTrigger(const rp::OverlapCallback::CallbackData& d) override {
        if (!inStep) problems.push_back("trigger event outside of a step");
        for (rp::uint32 i = 0; i < d.getNbOverlappingPairs(); i++) {
            rp::OverlapCallback::OverlapPair p = d.getOverlappingPair(i); Ev e; e.trigger = true;
            e.b1 = bodyId(p.getBody1()); e.b2 = bodyId(p.getBody2()); e.c1 = colId(p.getCollider1()); e.c2 = colId(p.getCollider2());
            e.type = p.getEventType() == rp::OverlapCallback::OverlapPair::EventType::OverlapStart ? 0 : p.getEventType() == rp::OverlapCallback::OverlapPair::EventType::OverlapStay ? 1 : 2;
            hashEv(e); evs.push_back(e);
        }
    }
    void hashEv(const Ev& e) { nEvents++; eh.i(e.trigger); eh.i(e.b1); eh.i(e.b2); eh.i(e.c1); eh.i(e.c2); eh.i(e.type); for (auto& p : e.pts) { nContactPts++; eh.v(p.n); eh.v(p.p1); eh.v(p.p2); eh.d(p.depth); } }
    // --- pick helpers ---
    std::vector<int> liveB() const { std::vector<int> v; for (size_t i = 0; i < bodies.size(); i++) if (bodies[i].alive) v.push_back(int(i)); return v; }
    std::vector<int> liveC() const { std::vector<int> v; for (size_t i = 0; i < cols.size(); i++) if (cols[i].alive) v.push_back(int(i)); return v; }
    std::vector<int> liveJ() const { std::vector<int> v; for (size_t i = 0; i < joints.size(); i++) if (joints[i].alive) v.push_back(int(i)); return v; }
    std::vector<int> liveS() const { std::vector<int> v; for (size_t i = 0; i < shapes.size(); i++) if (shapes[i].alive) v.push_back(int(i)); return v; }
    int pickB(vh::Rng& g) { auto v = liveB(); return v.empty() ? -1 : g.pick(v); }
    int pickC(vh::Rng& g) { auto v = liveC(); return v.empty() ? -1 : g.pick(v); }
    rp::Transform rndT(vh::Rng& g, double e) { return rt(rndBox(g, e), rndOrient(g)); }
    // --- mutations ---
    int mkShape(bool allowConcave) {
        std::vector<int> v; for (int i : liveS()) if (allowConcave || !shapes[i].sh.concave()) v.push_back(i);
        if (!v.empty() && (v.size() > 10 || r.chance(0.5))) return r.pick(v);
        std::vector<SK> kinds = {SK::Sphere, SK::Capsule, SK::Box}; if (o.hulls) { kinds.push_back(SK::HullPoly); kinds.push_back(SK::HullQuick); }
        if (allowConcave) { kinds.push_back(SK::Mesh); kinds.push_back(SK::Field); }
        ShapeRec s; s.sh = rndShape(pc, r, r.uniform(0.4, 1.2), kinds); shapes.push_back(s); return int(shapes.size()) - 1;
    }
    void freeShape(int i) {
        Sh& h = shapes[i].sh; shapes[i].alive = false;
        switch (h.k) {
        case SK::Sphere: pc.destroySphereShape(static_cast<rp::SphereShape*>(h.s)); break;
        case SK::Capsule: pc.destroyCapsuleShape(static_cast<rp::CapsuleShape*>(h.s)); break;
        case SK::Box: pc.destroyBoxShape(static_cast<rp::BoxShape*>(h.s)); break;
        case SK::HullPoly: case SK::HullQuick: pc.destroyConvexMeshShape(static_cast<rp::ConvexMeshShape*>(h.s)); pc.destroyConvexMesh(h.cm); break;
        case SK::Mesh: pc.destroyConcaveMeshShape(static_cast<rp::ConcaveMeshShape*>(h.s)); pc.destroyTriangleMesh(h.tm); break;
        case SK::Field: pc.destroyHeightFieldShape(static_cast<rp::HeightFieldShape*>(h.s)); pc.destroyHeightField(h.hf); break;
        }
    }
    int addBody(const rp::Transform& t, rp::BodyType type) {
        BodyRec b; b.b = w->createRigidBody(t); b.alive = true; b.b->setUserData(idp(int(bodies.size()))); b.b->setType(type); bodies.push_back(b); return int(bodies.size()) - 1;
    }
    int addCollider(int body, int shape, const rp::Transform& t) {
        ColRec c; c.body = body; c.shape = shape; c.alive = true; c.c = bodies[body].b->addCollider(shapes[shape].sh.s, t); c.c->setUserData(idp(int(cols.size())));
        shapes[shape].refs++; cols.push_back(c); bodies[body].cols.push_back(int(cols.size()) - 1); if (shapes[shape].sh.concave()) bodies[body].concave = true;
        return int(cols.size()) - 1;
    }
    void removeCollider(int c) {
        int b = cols[c].body; bodies[b].b->removeCollider(cols[c].c); cols[c].alive = false; shapes[cols[c].shape].refs--;
        auto& v = bodies[b].cols; v.erase(std::find(v.begin(), v.end(), c)); bodies[b].concave = false; for (int k : v) if (shapes[cols[k].shape].sh.concave()) bodies[b].concave = true;
    }
    void destroyBody(int b) {
        for (auto& j : joints) if (j.alive && (j.b1 == b || j.b2 == b)) j.alive = false;
        for (int c : bodies[b].cols) { cols[c].alive = false; shapes[cols[c].shape].refs--; }
        rp::RigidBody* p = bodies[b].b; bodies[b].alive = false; w->destroyRigidBody(p);
    }
    void fixMass(int b) { rp::RigidBody* p = bodies[b].b; if (!maxJoints0() && p->getMass() == 0 && p->getType() == rp::BodyType::DYNAMIC) p->setMass(1); }   // no collider, no mass: infinite mass
    void newBody() {
        if (int(liveB().size()) >= o.maxBodies) return;
        rp::BodyType ty = r.chance(0.6) ? rp::BodyType::DYNAMIC : r.chance(0.6) ? rp::BodyType::STATIC : rp::BodyType::KINEMATIC;
        int b = addBody(rndT(r, o.ext), ty); note("create %d type %d", b, int(ty));
        int n = r.chance(0.08) ? 0 : r.chance(0.7) ? 1 : r.range(2, o.maxColliders);
        for (int i = 0; i < n; i++) newCollider(b, i > 0 || r.chance(0.2));
        if (r.chance(0.5)) { bodies[b].b->updateMassPropertiesFromColliders(); fixMass(b); }
    }
    void newCollider(int b, bool offset) {
        if (int(bodies[b].cols.size()) >= o.maxColliders) return;
        bool conc = o.concave && bodies[b].b->getType() == rp::BodyType::STATIC;
        int s = mkShape(conc && r.chance(0.5)); if (!shapes[s].sh.s) return;
        int c = addCollider(b, s, offset ? rndT(r, 0.8) : rp::Transform::identity()); note("collider %d on %d shape %s", c, b, skname(shapes[s].sh.k));
        if (o.triggers && r.chance(0.1)) cols[c].c->setIsTrigger(true);
        if (r.chance(0.3)) { rp::Material& m = cols[c].c->getMaterial(); m.setBounciness(decimal(r.uniform(0, 1))); m.setFrictionCoefficient(decimal(r.uniform(0, 1.5))); m.setMassDensity(decimal(r.uniform(0.2, 5))); }
    }
    void floor() {
        int b = addBody(rt(V(0, -o.ext, 0), Q()), rp::BodyType::STATIC);
        ShapeRec s; int k = r.below(o.concave ? 3 : 1);
        if (k == 0) s.sh = mkBox(pc, V(o.ext * 3, 1, o.ext * 3));
        else if (k == 1) { std::vector<V> v; std::vector<int> idx; int n = r.range(3, 8); sheet(r, n, n, o.ext * 4 / n, 0.3, v, idx); s.sh = mkMesh(pc, v, idx); }
        else { int n = r.range(4, 10); s.sh = mkField(pc, rndHeights(r, n, n, 0.3), n, n, V(o.ext * 4 / n, 1, o.ext * 4 / n)); }
        shapes.push_back(s); addCollider(b, int(shapes.size()) - 1, rp::Transform::identity()); note("floor %d", b);
    }
    rp::Vector3 rvec(double s) { V v = rndBox(r, s); if (r.chance(0.1)) v = V(); return rv(v); }
    bool maxJoints0() const { return !o.joints || o.maxJoints == 0; }   // an infinite mass and joints that cannot hold is no ordinary scene
    int newJoint() {
        if (int(liveJ().size()) >= o.maxJoints) return -1;
        auto v = liveB(); if (v.size() < 2) return -1; int a = r.pick(v), b = r.pick(v); if (a == b) return -1;
        rp::RigidBody *A = bodies[a].b, *B = bodies[b].b;
        if (!o.staticJoints && A->getType() != rp::BodyType::DYNAMIC && B->getType() != rp::BodyType::DYNAMIC) return -1;
        JointRec j; j.b1 = a; j.b2 = b; j.alive = true; j.coll = o.jointNoCollision ? r.chance(0.6) : true; bool local = r.chance(0.4);
        V pa = ov(A->getTransform().getPosition()), pb = ov(B->getTransform().getPosition());
        V anchor = pa + (pb - pa) * r.uniform(0, 1) + rndBox(r, 0.3), axis = r.chance(0.3) ? V(0, 1, 0) : rndUnit(r);
        rp::Vector3 an = rv(anchor), ax = rv(axis), la = rv(rndBox(r, 1)), lb = rv(rndBox(r, 1)), ax2 = rv(rndUnit(r));
        ax.normalize(); ax2.normalize();
        auto add = [&](rp::JointInfo& info) { info.isCollisionEnabled = j.coll; info.positionCorrectionTechnique = r.chance(0.5) ? rp::JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS : rp::JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL; j.j = w->createJoint(info); j.type = info.type; };
        decimal lo = decimal(-r.uniform(0, 3)), hi = decimal(r.uniform(0, 3)), sp = decimal(r.uniform(-5, 5)), mf = decimal(r.uniform(0, 50)); int var = r.below(3);
        switch (r.below(4)) {
        case 0: if (local) { rp::BallAndSocketJointInfo i(A, B, la, lb); add(i); } else { rp::BallAndSocketJointInfo i(A, B, an); add(i); } break;
        case 1: if (local) { if (var == 0) { rp::HingeJointInfo i(A, B, la, lb, ax, ax2); add(i); } else if (var == 1) { rp::HingeJointInfo i(A, B, la, lb, ax, ax2, lo, hi); add(i); } else { rp::HingeJointInfo i(A, B, la, lb, ax, ax2, lo, hi, sp, mf); add(i); } }
            else { if (var == 0) { rp::HingeJointInfo i(A, B, an, ax); add(i); } else if (var == 1) { rp::HingeJointInfo i(A, B, an, ax, lo, hi); add(i); } else { rp::HingeJointInfo i(A, B, an, ax, lo, hi, sp, mf); add(i); } } break;
        case 2: if (local) { if (var == 0) { rp::SliderJointInfo i(A, B, la, lb, ax); add(i); } else if (var == 1) { rp::SliderJointInfo i(A, B, la, lb, ax, lo, hi); add(i); } else { rp::SliderJointInfo i(A, B, la, lb, ax, lo, hi, sp, mf); add(i); } }
            else { if (var == 0) { rp::SliderJointInfo i(A, B, an, ax); add(i); } else if (var == 1) { rp::SliderJointInfo i(A, B, an, ax, lo, hi); add(i); } else { rp::SliderJointInfo i(A, B, an, ax, lo, hi, sp, mf); add(i); } } break;
        default: if (local) { rp::FixedJointInfo i(A, B, la, lb); add(i); } else { rp::FixedJointInfo i(A, B, an); add(i); }
        }
        joints.push_back(j); note("joint %d type %d bodies %d %d", int(joints.size()) - 1, int(j.type), a, b); return int(joints.size()) - 1;
    }
    void modJoint() {
        auto v = liveJ(); if (v.empty()) return; JointRec& j = joints[r.pick(v)]; decimal lo = decimal(-r.uniform(0, 3)), hi = decimal(r.uniform(0, 3)), sp = decimal(r.uniform(-5, 5)), mf = decimal(r.uniform(0, 50)); int k = r.below(6);
        note("modjoint type %d k %d", int(j.type), k);
        if (j.type == rp::JointType::BALLSOCKETJOINT) { auto* p = static_cast<rp::BallAndSocketJoint*>(j.j); if (k < 3) p->enableConeLimit(r.chance(0.5)); else p->setConeLimitHalfAngle(decimal(r.uniform(0.01, 3.1))); }
        else if (j.type == rp::JointType::HINGEJOINT) { auto* p = static_cast<rp::HingeJoint*>(j.j); switch (k) { case 0: p->enableLimit(r.chance(0.5)); break; case 1: p->enableMotor(r.chance(0.5)); break; case 2: p->setMinAngleLimit(lo); break; case 3: p->setMaxAngleLimit(hi); break; case 4: p->setMotorSpeed(sp); break; default: p->setMaxMotorTorque(mf); } }
        else if (j.type == rp::JointType::SLIDERJOINT) { auto* p = static_cast<rp::SliderJoint*>(j.j); switch (k) { case 0: p->enableLimit(r.chance(0.5)); break; case 1: p->enableMotor(r.chance(0.5)); break; case 2: p->setMinTranslationLimit(lo); break; case 3: p->setMaxTranslationLimit(hi); break; case 4: p->setMotorSpeed(sp); break; default: p->setMaxMotorForce(mf); } }
    }
    void rmJoint() { auto v = liveJ(); if (v.empty()) return; int i = r.pick(v); note("rmjoint %d", i); joints[i].alive = false; w->destroyJoint(joints[i].j); }
    void resizeShape() {
        auto v = liveS(); if (v.empty()) return; int i = r.pick(v); Sh& h = shapes[i].sh; double s = r.uniform(0.4, 1.2); V sc(r.uniform(0.5, 2), r.uniform(0.5, 2), r.uniform(0.5, 2)); note("resize %d %s", i, skname(h.k));
        switch (h.k) {
        case SK::Sphere: static_cast<rp::SphereShape*>(h.s)->setRadius(decimal(s)); break;
        case SK::Capsule: if (r.chance(0.5)) static_cast<rp::CapsuleShape*>(h.s)->setRadius(decimal(s)); else static_cast<rp::CapsuleShape*>(h.s)->setHeight(decimal(s * 2)); break;
        case SK::Box: static_cast<rp::BoxShape*>(h.s)->setHalfExtents(rv(sc)); break;
        case SK::HullPoly: case SK::HullQuick: static_cast<rp::ConvexMeshShape*>(h.s)->setScale(rv(sc)); break;
        default: static_cast<rp::ConcaveShape*>(h.s)->setScale(rv(sc)); if (r.chance(0.5)) static_cast<rp::ConcaveShape*>(h.s)->setRaycastTestType(rp::TriangleRaycastSide(r.below(3)));
        }
    }
    void modBody() {
        int i = pickB(r); if (i < 0) return; rp::RigidBody* b = bodies[i].b; int k = r.below(30); note("mod%d on %d", k, i);
        switch (k) {
        case 0: case 1: if (o.teleport) b->setTransform(rndT(r, o.ext)); break;
        case 2: b->setLinearVelocity(rvec(8)); break;
        case 3: b->setAngularVelocity(rvec(8)); break;
        case 4: b->applyWorldForceAtCenterOfMass(rvec(100)); break;
        case 5: b->applyLocalForceAtCenterOfMass(rvec(100)); break;
        case 6: b->applyLocalForceAtLocalPosition(rvec(50), rvec(1)); break;
        case 7: b->applyWorldForceAtLocalPosition(rvec(50), rvec(1)); break;
        case 8: b->applyLocalForceAtWorldPosition(rvec(50), rvec(o.ext)); break;
        case 9: b->applyWorldForceAtWorldPosition(rvec(50), rvec(o.ext)); break;
        case 10: b->applyWorldTorque(rvec(30)); break;
        case 11: b->applyLocalTorque(rvec(30)); break;
        case 12: b->resetForce(); break;
        case 13: b->resetTorque(); break;
        case 14: b->enableGravity(r.chance(0.6)); break;
        case 15: b->setLinearDamping(decimal(r.uniform(0, 2))); break;
        case 16: b->setAngularDamping(decimal(r.uniform(0, 2))); break;
        case 17: b->setLinearLockAxisFactor(r.chance(0.5) ? rp::Vector3(1, 1, 1) : rp::Vector3(decimal(r.below(2)), decimal(r.below(2)), decimal(r.below(2)))); break;
        case 18: b->setAngularLockAxisFactor(r.chance(0.5) ? rp::Vector3(1, 1, 1) : rp::Vector3(decimal(r.below(2)), decimal(r.below(2)), decimal(r.below(2)))); break;
        case 19: if (o.massOps) b->setMass(r.chance(0.1) && o.zeroMass && maxJoints0() ? decimal(0) : decimal(r.logUniform(0.1, 20))); break;
        case 20: if (o.massOps) b->setLocalInertiaTensor(rp::Vector3(decimal(r.uniform(0.1, 5)), decimal(r.uniform(0.1, 5)), decimal(r.uniform(0.1, 5)))); break;
        case 21: if (o.massOps) b->setLocalCenterOfMass(rvec(0.5)); break;
        case 22: if (o.massOps) { if (r.chance(0.6)) b->updateMassPropertiesFromColliders(); else if (r.chance(0.33)) b->updateLocalCenterOfMassFromColliders(); else if (r.chance(0.5)) b->updateLocalInertiaTensorFromColliders(); else b->updateMassFromColliders(); fixMass(i); } break;
        case 23: if (o.setType && !bodies[i].concave) b->setType(rp::BodyType(r.below(3))); break;
        case 24: if (o.sleepOps) b->setIsSleeping(r.chance(0.6)); break;
        case 25: if (o.sleepOps) b->setIsAllowedToSleep(r.chance(0.7)); break;
        case 26: case 27: if (o.activeOps) b->setIsActive(r.chance(0.6)); break;
        case 28: if (o.debug) b->setIsDebugEnabled(r.chance(0.7)); break;
        default: if (o.strangeMass) { b->setMass(decimal(-1)); } break;   // refused
        }
    }
    void modCollider() {
        int i = pickC(r); if (i < 0) return; rp::Collider* c = cols[i].c; int k = r.below(10); note("col%d on %d", k, i);
        switch (k) {
        case 0: case 1: c->setLocalToBodyTransform(rndT(r, 0.8)); break;
        case 2: if (o.filterOps) c->setCollisionCategoryBits((unsigned short)(r.chance(0.6) ? 1 << r.below(3) : r.below(65536))); break;
        case 3: if (o.filterOps) c->setCollideWithMaskBits(r.chance(0.4) ? 0xFFFF : (unsigned short)r.below(8)); break;
        case 4: if (o.triggers) c->setIsTrigger(r.chance(0.4)); break;
        case 5: if (o.filterOps) c->setIsSimulationCollider(r.chance(0.6)); break;
        case 6: if (o.filterOps) c->setIsWorldQueryCollider(r.chance(0.6)); break;
        case 7: { rp::Material& m = c->getMaterial(); m.setBounciness(decimal(r.uniform(0, 1))); m.setFrictionCoefficient(decimal(r.uniform(0, 1.5))); m.setMassDensity(decimal(r.uniform(0.2, 5))); break; }
        case 8: c->setMaterial(cols[pickC(r)].c->getMaterial()); break;
        default: if (o.resize) resizeShape();
        }
    }
    void modWorld() {
        if (!o.worldOps) return; int k = r.below(10); note("world%d", k);
        switch (k) {
        case 0: w->setGravity(r.chance(0.5) ? rp::Vector3(0, decimal(-9.81), 0) : rvec(10)); break;
        case 1: w->setIsGravityEnabled(r.chance(0.7)); break;
        case 2: w->enableSleeping(r.chance(0.7)); break;
        case 3: w->setNbIterationsVelocitySolver((unsigned short)r.range(1, 12)); break;
        case 4: w->setNbIterationsPositionSolver(r.range(1, 6)); break;
        case 5: w->setContactsPositionCorrectionTechnique(r.chance(0.5) ? rp::ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS : rp::ContactsPositionCorrectionTechnique::SPLIT_IMPULSES); break;
        case 6: w->setSleepLinearVelocity(decimal(r.uniform(0, 0.3))); break;
        case 7: w->setSleepAngularVelocity(decimal(r.uniform(0, 0.3))); break;
        case 8: w->setTimeBeforeSleep(decimal(r.uniform(0, 1))); break;
        default: if (o.debug) { w->setIsDebugRenderingEnabled(r.chance(0.5)); for (int b = 0; b < 6; b++) w->getDebugRenderer().setIsDebugItemDisplayed(rp::DebugRenderer::DebugItem(1 << b), r.chance(0.5)); }
        }
    }
    void mutate() {
        double x = r.unit();
        if (x < 0.10) newBody();
        else if (x < 0.13) { if (o.destroy) { int b = pickB(r); if (b >= 0) { note("destroy %d", b); destroyBody(b); } } }
        else if (x < 0.18) { int b = pickB(r); if (b >= 0) newCollider(b, r.chance(0.6)); }
        else if (x < 0.20) { if (o.destroy) { int c = pickC(r); if (c >= 0) { note("rmcollider %d", c); removeCollider(c); } } }
        else if (x < 0.21) { if (o.destroy) { for (int i : liveS()) if (!shapes[i].refs) { note("freeshape %d", i); freeShape(i); break; } } }
        else if (x < 0.30) { if (o.joints) { if (r.chance(0.5)) newJoint(); else modJoint(); } }
        else if (x < 0.32) { if (o.joints && o.destroy) rmJoint(); }
        else if (x < 0.75) modBody();
        else if (x < 0.93) modCollider();
        else modWorld();
    }
    void clampState() { // keep the scene inside ordinary ranges, as a user would
        if (!o.clampState) return;
        for (auto& b : bodies) if (b.alive) {
            V p = ov(b.b->getTransform().getPosition()), v = ov(b.b->getLinearVelocity()), a = ov(b.b->getAngularVelocity());
            if (!(og::len(v) < 300) || !(og::len(a) < 300) || !(og::len(p) < 40)) for (auto& j : joints) if (j.alive && (j.b1 == int(&b - &bodies[0]) || j.b2 == int(&b - &bodies[0]))) { j.alive = false; w->destroyJoint(j.j); } // a joint that throws its bodies away
            if (!(og::len(v) < 60)) b.b->setLinearVelocity(rp::Vector3(0, 0, 0)); if (!(og::len(a) < 60)) b.b->setAngularVelocity(rp::Vector3(0, 0, 0));
            if (!(og::len(p) < 40)) { b.b->setTransform(rp::Transform(rp::Vector3(0, decimal(o.ext), 0), rp::Quaternion::identity())); b.b->setLinearVelocity(rp::Vector3(0, 0, 0)); }
        }
    }
    void step(double dt) { evs.clear(); clampState(); if (verbose) { printf("  step %ld dt %g\n", nSteps, dt); fflush(stdout); } inStep = true; w->update(decimal(dt)); inStep = false; nSteps++; if (verbose) for (size_t i = 0; i < bodies.size(); i++) if (bodies[i].alive) { V v = ov(bodies[i].b->getLinearVelocity()), a = ov(bodies[i].b->getAngularVelocity()); if (!(og::len(v) < 300 && og::len(a) < 300)) printf("  fast body %zu type %d v %g %g %g w %g %g %g mass %g inertia %g %g %g sleeping %d active %d ncol %zu\n", i, int(bodies[i].b->getType()), v.x, v.y, v.z, a.x, a.y, a.z, double(bodies[i].b->getMass()), double(bodies[i].b->getLocalInertiaTensor().x), double(bodies[i].b->getLocalInertiaTensor().y), double(bodies[i].b->getLocalInertiaTensor().z), int(bodies[i].b->isSleeping()), int(bodies[i].b->isActive()), bodies[i].cols.size()); } }
    // --- queries ---
    struct RayCB : rp::RaycastCallback { Sim* s; int mode; std::vector<std::array<double, 12>> hits; decimal notifyRaycastHit(const rp::RaycastInfo& i) override {
        s->qh.i(s->bodyId(i.body)); s->qh.i(s->colId(i.collider)); s->qh.d(i.hitFraction); s->qh.v(i.worldPoint); s->qh.v(i.worldNormal);
        return mode == 0 ? decimal(1) : mode == 1 ? i.hitFraction : mode == 2 ? decimal(0) : decimal(-1); } };
    struct ColCB : rp::CollisionCallback { Sim* s; void onContact(const CallbackData& d) override { s->qh.i(d.getNbContactPairs()); for (rp::uint32 k = 0; k < d.getNbContactPairs(); k++) { auto p = d.getContactPair(k); s->qh.i(s->colId(p.getCollider1())); s->qh.i(s->colId(p.getCollider2())); s->qh.i(s->bodyId(p.getBody1())); s->qh.i(s->bodyId(p.getBody2()));
        for (rp::uint32 q = 0; q < p.getNbContactPoints(); q++) { auto c = p.getContactPoint(q); s->qh.v(c.getWorldNormal()); s->qh.d(c.getPenetrationDepth()); s->qh.v(c.getLocalPointOnCollider1()); s->qh.v(c.getLocalPointOnCollider2()); } } } };
    struct OvCB : rp::OverlapCallback { Sim* s; void onOverlap(CallbackData& d) override { s->qh.i(d.getNbOverlappingPairs()); for (rp::uint32 k = 0; k < d.getNbOverlappingPairs(); k++) { auto p = d.getOverlappingPair(k); s->qh.i(s->colId(p.getCollider1())); s->qh.i(s->colId(p.getCollider2())); s->qh.i(s->bodyId(p.getBody1())); s->qh.i(s->bodyId(p.getBody2())); } } };
    rp::Ray rndRay(vh::Rng& g) { V a = rndBox(g, o.ext * 1.5), b = rndBox(g, o.ext * 1.5); if (g.chance(0.3)) { b = a; b[int(g.below(3))] += g.chance(0.5) ? 5 : -5; } if (og::len(b - a) < 0.1) b = a + V(0, -5, 0); return rp::Ray(rv(a), rv(b), decimal(g.chance(0.5) ? 1.0 : g.uniform(0.1, 1.5))); }
    bool noOverlapQueries = false; int lastQuery = -1;
    void query() {
        int k = rq.below(20); if (noOverlapQueries && k >= 7 && k <= 14) k = k < 10 ? 0 : k < 12 ? 4 : 5; lastQuery = k; nQueries++; opCount["query"]++; if (verbose) { printf("  query %d\n", k); fflush(stdout); }
        int i = pickB(rq), i2 = pickB(rq), c = pickC(rq); V p = rndBox(rq, o.ext);
        switch (k) {
        case 0: case 1: case 2: { RayCB cb; cb.s = this; cb.mode = rq.below(4); rp::Ray ray = rndRay(rq); w->raycast(ray, &cb, rq.chance(0.6) ? 0xFFFF : (unsigned short)rq.below(8)); break; }
        case 3: if (i >= 0) { rp::RaycastInfo info; rp::Ray ray = rndRay(rq); bool h = bodies[i].b->raycast(ray, info); qh.i(h); if (h) { qh.v(info.worldPoint); qh.v(info.worldNormal); qh.d(info.hitFraction); } } break;
        case 4: if (c >= 0) { rp::RaycastInfo info; rp::Ray ray = rndRay(rq); bool h = cols[c].c->raycast(ray, info); qh.i(h); if (h) { qh.v(info.worldPoint); qh.v(info.worldNormal); qh.d(info.hitFraction); } } break;
        case 5: if (i >= 0) qh.i(bodies[i].b->testPointInside(rv(p))); break;
        case 6: if (c >= 0) qh.i(cols[c].c->testPointInside(rv(p))); break;
        case 7: case 8: if (i >= 0 && i != i2) qh.i(w->testOverlap(bodies[i].b, bodies[i2].b)); break;
        case 9: if (i >= 0) { OvCB cb; cb.s = this; w->testOverlap(bodies[i].b, cb); } break;
        case 10: { OvCB cb; cb.s = this; w->testOverlap(cb); break; }
        case 11: case 12: if (i >= 0 && i != i2) { ColCB cb; cb.s = this; w->testCollision(bodies[i].b, bodies[i2].b, cb); } break;
        case 13: if (i >= 0) { ColCB cb; cb.s = this; w->testCollision(bodies[i].b, cb); } break;
        case 14: { ColCB cb; cb.s = this; w->testCollision(cb); break; }
        case 15: if (i >= 0) { rp::AABB a(rv(p - V(1, 1, 1)), rv(p + V(1, 1, 1))); qh.i(bodies[i].b->testAABBOverlap(a)); rp::AABB q = bodies[i].b->getAABB(); qh.v(q.getMin()); qh.v(q.getMax()); } break;
        case 16: if (c >= 0) { rp::AABB a(rv(p - V(1, 1, 1)), rv(p + V(1, 1, 1))); qh.i(cols[c].c->testAABBOverlap(a)); rp::AABB q = w->getWorldAABB(cols[c].c); qh.v(q.getMin()); qh.v(q.getMax()); } break;
        case 17: if (i >= 0) { qh.v(bodies[i].b->getWorldPoint(rv(p))); qh.v(bodies[i].b->getLocalPoint(rv(p))); qh.v(bodies[i].b->getLocalVector(rv(p))); qh.v(bodies[i].b->getWorldVector(rv(p))); } break;
        case 18: { auto v = liveJ(); if (!v.empty()) jointDigest(qh, joints[rq.pick(v)]); break; }
        default: qh.i(w->getNbRigidBodies()); if (w->getNbRigidBodies()) qh.i(bodyId(w->getRigidBody(rq.below(w->getNbRigidBodies())))); qh.d(w->getGravity().y); qh.i((long long)w->getNbIterationsVelocitySolver()); if (o.debug) { qh.i(w->getDebugRenderer().getNbLines()); qh.i(w->getDebugRenderer().getNbTriangles()); }
        }
    }
    void jointDigest(Hash& h, const JointRec& j) {
        h.i(int(j.type)); h.i(j.j->isCollisionEnabled()); h.v(j.j->getReactionForce(decimal(0.016))); h.v(j.j->getReactionTorque(decimal(0.016)));
        if (j.type == rp::JointType::BALLSOCKETJOINT) { auto* p = static_cast<rp::BallAndSocketJoint*>(j.j); h.i(p->isConeLimitEnabled()); h.d(p->getConeLimitHalfAngle()); h.d(p->getConeHalfAngle()); }
        else if (j.type == rp::JointType::HINGEJOINT) { auto* p = static_cast<rp::HingeJoint*>(j.j); h.d(p->getAngle()); h.d(p->getMinAngleLimit()); h.d(p->getMaxAngleLimit()); h.d(p->getMotorSpeed()); h.d(p->getMaxMotorTorque()); h.d(p->getMotorTorque(decimal(0.016))); h.i(p->isLimitEnabled()); h.i(p->isMotorEnabled()); }
        else if (j.type == rp::JointType::SLIDERJOINT) { auto* p = static_cast<rp::SliderJoint*>(j.j); h.d(p->getTranslation()); h.d(p->getMinTranslationLimit()); h.d(p->getMaxTranslationLimit()); h.d(p->getMotorSpeed()); h.d(p->getMaxMotorForce()); h.d(p->getMotorForce(decimal(0.016))); h.i(p->isLimitEnabled()); h.i(p->isMotorEnabled()); }
    }
    // --- everything a user can see ---
    static void bodyDigest(Hash& h, rp::RigidBody* b) {
        h.t(b->getTransform()); h.v(b->getLinearVelocity()); h.v(b->getAngularVelocity()); h.i(b->isSleeping()); h.i(b->isActive()); h.i(int(b->getType())); h.d(b->getMass()); h.v(b->getLocalInertiaTensor()); h.v(b->getLocalCenterOfMass());
        h.v(b->getForce()); h.v(b->getTorque()); h.d(b->getLinearDamping()); h.d(b->getAngularDamping()); h.v(b->getLinearLockAxisFactor()); h.v(b->getAngularLockAxisFactor()); h.i(b->isGravityEnabled()); h.i(b->isAllowedToSleep()); h.i(b->getNbColliders());
    }
    uint64_t digest() {
        Hash h; h.i(w->getNbRigidBodies());
        for (auto& b : bodies) if (b.alive) bodyDigest(h, b.b);
        for (auto& c : cols) if (c.alive) { h.t(c.c->getLocalToBodyTransform()); h.t(c.c->getLocalToWorldTransform()); rp::AABB a = c.c->getWorldAABB(); h.v(a.getMin()); h.v(a.getMax()); h.i(c.c->getIsTrigger()); h.i(c.c->getIsSimulationCollider()); h.i(c.c->getIsWorldQueryCollider()); h.i(c.c->getCollisionCategoryBits()); h.i(c.c->getCollideWithMaskBits()); }
        for (auto& j : joints) if (j.alive) jointDigest(h, j);
        if (o.debug) { auto& dr = w->getDebugRenderer(); h.i(dr.getNbLines()); h.i(dr.getNbTriangles()); for (rp::uint32 i = 0; i < dr.getNbLines(); i++) { h.v(dr.getLines()[i].point1); h.v(dr.getLines()[i].point2); h.i(dr.getLines()[i].color1); } for (rp::uint32 i = 0; i < dr.getNbTriangles(); i++) { h.v(dr.getTriangles()[i].point1); h.v(dr.getTriangles()[i].point2); h.v(dr.getTriangles()[i].point3); } }
        h.i((long long)eh.h); return h.h;
    }
    bool finiteState() { for (auto& b : bodies) if (b.alive && (!fin(b.b->getTransform().getPosition()) || !fin(b.b->getLinearVelocity()) || !fin(b.b->getAngularVelocity()))) return false; return true; }
    void stop() { // tear down in one of several orders
        int k = r.below(4); note("stop%d", k);
        if (k == 0) { for (int j : liveJ()) { joints[j].alive = false; w->destroyJoint(joints[j].j); } for (int b : liveB()) destroyBody(b); pc.destroyPhysicsWorld(w); for (int s : liveS()) freeShape(s); }
        else if (k == 1) { auto v = liveB(); std::reverse(v.begin(), v.end()); for (int b : v) destroyBody(b); for (int s : liveS()) freeShape(s); pc.destroyPhysicsWorld(w); }
        else if (k == 2) { pc.destroyPhysicsWorld(w); for (int s : liveS()) freeShape(s); }
        w = nullptr;   // k == 3: the factory destroys everything
    }
    double rndDt() { return r.chance(0.7) ? 1.0 / 60 : r.uniform(1.0 / 240, 1.0 / 20); }
    // one round: some mutations, queries, steps
    void populate(int n) { if (r.chance(o.floorChance)) floor(); for (int i = 0; i < n; i++) newBody(); if (o.joints) for (int i = r.below(4); i > 0; i--) newJoint(); }
};
