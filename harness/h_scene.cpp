// C34 (mode "frames"): a scene moved as a whole behaves the same.  C33 (mode "groups"): groups of bodies that touch nothing of each other do not influence each other.  C31 (mode ""): long simulations.
#include "scene.h"
#include <memory>
static const char* jn(rp::JointType t) { return t == rp::JointType::BALLSOCKETJOINT ? "ball" : t == rp::JointType::SLIDERJOINT ? "slider" : t == rp::JointType::HINGEJOINT ? "hinge" : "fixed"; }
static Q qinv(Q q) { return Q(-q.x, -q.y, -q.z, q.w); }
static double qang(Q q) { q = og::qunit(q); return 2 * std::atan2(std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z), std::fabs(q.w)); }
static std::string desc(const SceneD& s) { std::string o; char t[200]; for (size_t i = 0; i < s.b.size(); i++) { auto& b = s.b[i]; snprintf(t, sizeof t, " body %zu type %d group %d %s%s", i, int(b.t), b.group, b.c.empty() ? "-" : skname(b.c[0].k), b.c.size() > 1 ? "+" : ""); o += t; } for (auto& j : s.j) { snprintf(t, sizeof t, "; %s %d-%d%s%s%s%s", jn(j.t), j.a, j.b, j.limit ? " limit" : "", j.motor ? " motor" : "", j.cone > 0 ? " cone" : "", j.ngs ? "" : " baumgarte"); o += t; } return o; }
static const std::vector<SK> CONVEX = {SK::Sphere, SK::Capsule, SK::Box, SK::HullPoly, SK::HullQuick};
static BodyD rndBody(vh::Rng& g, rp::BodyType t, V p, double s, const std::vector<SK>& k = CONVEX) { BodyD b; b.t = t; b.p = p; b.q = rndOrient(g); b.c.push_back(rndCol(g, s, k)); if (g.chance(0.25)) { ColD c = rndCol(g, s * 0.7, k); c.at.p = rndBox(g, s * 0.7); c.aq = rndOrient(g); b.c.push_back(c); } return b; }
static JointD rndJoint(vh::Rng& g, int a, int b, V anchor) {
    static const rp::JointType T[] = {rp::JointType::BALLSOCKETJOINT, rp::JointType::SLIDERJOINT, rp::JointType::HINGEJOINT, rp::JointType::FIXEDJOINT}; JointD j; j.t = T[g.below(4)]; j.a = a; j.b = b; j.anchor = anchor; j.axis = rndUnit(g); j.ngs = g.chance(0.5); j.coll = false;
    if (g.chance(0.5)) { j.limit = true; j.lo = -g.uniform(0.05, 1.5); j.hi = g.uniform(0.05, 1.5); } if (g.chance(0.4)) { j.motor = true; j.speed = g.uniform(-3, 3); j.force = g.logUniform(0.1, 30); } if (g.chance(0.4)) j.cone = g.uniform(0.2, 1.5); return j;
}
// ---- frames ----
struct Move { V t; Q q; bool exact; };
static Move rndMove(vh::Rng& g) {
    Move m; m.exact = g.chance(0.5); if (m.exact) { static const double h = std::sqrt(0.5); m.q = Q(); int n = g.range(0, 4); for (int i = 0; i < n; i++) { Q r(0, 0, 0, h); double& x = g.chance(0.34) ? r.x : g.chance(0.5) ? r.y : r.z; x = h; m.q = m.q * r; } m.q = og::qunit(m.q); } else m.q = rndOrient(g);
    if (g.chance(0.7)) m.t = rndBox(g, 10); return m;
}
static void frames(vh::Ctx& C) {
    vh::Rng& g = C.rng; SceneD s; s.vi = g.range(6, 15); s.pi = g.range(3, 8); if (g.chance(0.7)) s.G = rndUnit(g) * g.uniform(1, 10); int kind = g.below(3); // 0 bodies and joints, 1 two bodies meet, 2 a body meets two
    bool swapped = false; int N;
    if (kind == 0) {
        int n = g.range(1, 5); for (int i = 0; i < n; i++) { BodyD b = rndBody(g, i == 0 && g.chance(0.5) ? rp::BodyType::STATIC : i == 0 && g.chance(0.3) ? rp::BodyType::KINEMATIC : rp::BodyType::DYNAMIC, i == 0 ? V() : s.b[size_t(i - 1)].p + rndUnit(g) * 20.0, 1); if (i) { b.p = s.b[size_t(i - 1)].p + rndUnit(g) * g.uniform(0.5, 1.5); } b.v = rndBox(g, 2); b.w = rndBox(g, 2); b.ld = g.chance(0.5) ? 0 : g.uniform(0, 1); b.ad = g.chance(0.5) ? 0 : g.uniform(0, 1); b.grav = g.chance(0.8); b.ghost = true; s.b.push_back(b); if (i) s.j.push_back(rndJoint(g, i - 1, i, (b.p + s.b[size_t(i - 1)].p) * 0.5)); }
        swapped = g.chance(0.4); N = g.range(3, 20); if (g.chance(0.5)) N = 1;
    } else {
        s.b.push_back(rndBody(g, g.chance(0.3) ? rp::BodyType::STATIC : g.chance(0.3) ? rp::BodyType::KINEMATIC : rp::BodyType::DYNAMIC, V(), 1)); BodyD b = rndBody(g, rp::BodyType::DYNAMIC, rndUnit(g) * g.uniform(1.5, 3), 1); b.v = -og::unit(b.p) * g.uniform(1, 6) + rndBox(g, 1); b.w = rndBox(g, 3); s.b.push_back(b);
        if (kind == 2) { BodyD c = rndBody(g, g.chance(0.5) ? rp::BodyType::STATIC : rp::BodyType::DYNAMIC, -og::unit(b.p) * g.uniform(2, 4) + rndBox(g, 1), 1); s.b.push_back(c); } else swapped = g.chance(0.4); N = g.range(20, 80);
    }
    Move m = rndMove(g); double dt = g.uniform(0.004, 0.02); auto all = [](int) { return true; };
    std::vector<int> order; for (size_t i = 0; i < s.b.size(); i++) order.push_back(int(swapped ? s.b.size() - 1 - i : i)); Built A(s, all, V(), Q()), B(s, all, m.t, m.q, swapped, &order); int n = int(s.b.size()); std::string D = desc(s); C.log("kind %d exact %d swapped %d steps %d%s", kind, m.exact, swapped, N, D.c_str());
    auto touching = [](Built& X) { struct O : rp::OverlapCallback { bool hit = false; void onOverlap(CallbackData& d) override { hit |= d.getNbOverlappingPairs() > 0; } } o; X.w->testOverlap(o); return o.hit; };
    bool mixed = false, round = true; for (auto& j : s.j) mixed |= j.t == rp::JointType::HINGEJOINT || j.t == rp::JointType::SLIDERJOINT; for (auto& b : s.b) for (auto& c : b.c) round &= c.k == SK::Sphere || c.k == SK::Capsule;
    double e = 0; bool met = kind && touching(A); uint64_t h = 0; int at = 0;
    for (int k = 0; k <= N; k++) {
        double dp = 0, dq = 0, dv = 0, sc = 1; for (int i = 0; i < n; i++) {
            V ep = m.t + og::rot(m.q, A.P(i)); dp = std::max(dp, og::len(B.P(i) - ep)); dq = std::max(dq, qang(qinv(m.q * A.O(i)) * B.O(i))); dv = std::max(dv, std::max(og::len(B.vel(i) - og::rot(m.q, A.vel(i))), og::len(B.ang(i) - og::rot(m.q, A.ang(i))))); sc = std::max(sc, og::len(A.vel(i)) + og::len(A.ang(i))); }
        C.eval(); double x = std::max(dp, std::max(dq, dv / sc)); if (!(x <= e)) { e = x; at = k; } C.log("step %d dp %g dq %g dv %g sc %g", k, dp, dq, dv, sc);
        if (k == N) break; A.w->update(decimal(dt)); B.w->update(decimal(dt)); h = vh::mix(h, uint64_t(int64_t(A.P(n - 1).x * 1e3))); if (kind) met |= touching(A);
    }
    C.seen(h); C.count("scenes moved"); if (swapped) C.count("scenes with the bodies of each joint or pair exchanged"); if (m.exact) C.count("scenes turned by exact right angles");
    // what the engine computes in a chosen basis (hinges, sliders, warm started) or decides between equal candidates (faces, edges) can differ for real: judged by share
    struct Cl { const char* name; double tol, share; }; static const Cl cls[] = {
        {"without contacts, ball and fixed joints, first step", DBL ? 1e-9 : 1e-3, 0}, {"without contacts, ball and fixed joints", DBL ? 1e-7 : 2e-2, 0.002}, {"one step of trees with hinges and sliders", DBL ? 1e-9 : 2e-3, 0}, {"one step of trees with hinges and sliders, exchanged", 0.02, 0.001}, {"steps of trees with hinges and sliders", 0.02, 0.025}, {"steps of trees with hinges and sliders, exchanged", 0.3, 0.01},
        {"spheres and capsules in contact", DBL ? 1e-6 : 5e-3, 0.004}, {"polyhedra in contact", DBL ? 1e-4 : 5e-3, 0.005}, {"three bodies in contact", DBL ? 1e-4 : 5e-3, 0.005}};
    int c = kind == 0 ? (!mixed ? (N == 1 ? 0 : 1) : N == 1 ? (swapped ? 3 : 2) : swapped ? 5 : 4) : !met ? 0 : kind == 2 ? 8 : round ? 6 : 7; const Cl& k = cls[c]; C.count(std::string("scenes compared: ") + k.name); if (!met || c == 6) C.maxi(std::string("largest difference, share of the tolerance: ") + k.name, e / k.tol);
    static long total[9], bad[9]; total[c]++; if (e <= k.tol) return; bad[c]++; C.count(std::string("scenes apart: ") + k.name); C.log("apart %g at step %d (%s)", e, at, k.name);
    if (k.share == 0 || double(bad[c]) > 6 + 2 * k.share * double(total[c])) C.fail(std::string("apart-") + std::to_string(c), "%s: %ld of %ld moved scenes part from the original, this one by %g at step %d (%s, dt %g, moved by %s turned by (%g %g %g %g)):%s", k.name, bad[c], total[c], e, at, swapped ? "bodies exchanged" : "same roles", dt, vs(m.t).c_str(), m.q.x, m.q.y, m.q.z, m.q.w, D.c_str());
}
// ---- groups ----
static void groups(vh::Ctx& C) {
    vh::Rng& g = C.rng; SceneD s; s.G = V(0, -g.uniform(5, 10), 0); s.sleeping = g.chance(0.7); bool floor = g.chance(0.8); bool shared = g.chance(0.5); int K = g.range(2, 5); std::vector<int> conn(size_t(K), 0);
    if (floor) { BodyD f; f.t = rp::BodyType::STATIC; f.p = V(0, -2, 0); ColD c; c.k = SK::Box; c.e = V(400, 1, 400); c.mu = 0.5; f.c.push_back(c); f.group = -1; s.b.push_back(f); }
    for (int k = 0; k < K; k++) {
        V at = V(60.0 * (k % 3) - 60, 0, 60.0 * (k / 3) - 30) + V(g.uniform(-5, 5), g.uniform(0, 1), g.uniform(-5, 5)); int n = g.range(1, 4), first = int(s.b.size()); bool heap = g.chance(0.5);
        for (int i = 0; i < n; i++) {
            BodyD b = rndBody(g, i == 0 && g.chance(0.15) ? rp::BodyType::STATIC : i == 0 && g.chance(0.15) ? rp::BodyType::KINEMATIC : rp::BodyType::DYNAMIC, at + V(g.uniform(-1, 1) * (heap ? 0.3 : 2), heap ? i * 1.8 : g.uniform(-0.5, 2), g.uniform(-1, 1) * (heap ? 0.3 : 2)), 1); b.group = k;
            if (heap && g.chance(0.6)) b.q = Q(); if (g.chance(0.5) && b.t != rp::BodyType::STATIC) { b.v = rndBox(g, 3); b.w = rndBox(g, 3); } if (g.chance(0.5)) { b.ld = g.uniform(0, 1); b.ad = g.uniform(0, 1); } b.sleep = g.chance(0.9); s.b.push_back(b);
            if (i && g.chance(0.4)) { int o = i - 1 - int(g.below(uint32_t(std::min(i, 2)))); JointD j = rndJoint(g, first + o, first + i, (b.p + s.b[size_t(first + o)].p) * 0.5); j.group = k; j.ngs = true; s.j.push_back(j); }
        }
        // several groups may hang on the same static body, which does not connect them
        if (floor && shared && s.b[size_t(first)].t == rp::BodyType::DYNAMIC && g.chance(0.7)) { int i = first + int(g.below(uint32_t(n))); BodyD& b = s.b[size_t(i)]; if (b.t == rp::BodyType::DYNAMIC) { V an = b.p + (g.chance(0.5) ? V(0, g.uniform(0.3, 1.5), 0) : V()); JointD j = rndJoint(g, 0, i, an); j.group = k; j.ngs = true; if (g.chance(0.5)) { j.motor = false; b.v = b.w = V(); b.ad = std::max(b.ad, 0.5); b.ld = std::max(b.ld, 0.5); } s.j.push_back(j); C.count("groups jointed to the common static body"); } }
    }
    s.vi = g.range(6, 15); s.pi = g.range(3, 8); int n = int(s.b.size()), N = g.range(20, g.chance(0.3) ? 400 : 200); double dt = g.uniform(0.006, 0.02); std::string D = desc(s); C.log("floor %d sleeping %d steps %d%s", floor, s.sleeping, N, D.c_str());
    // creation order: groups interleaved in the common world, in the same relative order in their own
    std::vector<int> order; for (int i = 0; i < n; i++) order.push_back(i); if (g.chance(0.7)) { std::vector<size_t> next(size_t(K) + 1, 0); std::vector<std::vector<int>> by(size_t(K) + 1); for (int i = 0; i < n; i++) by[size_t(s.b[size_t(i)].group + 1)].push_back(i); order = by[0]; while (int(order.size()) < n) { size_t k = 1 + g.below(uint32_t(K)); if (next[k] < by[k].size()) order.push_back(by[k][next[k]++]); } }
    Built A(s, [](int) { return true; }, V(), Q(), false, &order); std::vector<std::unique_ptr<Built>> own; for (int k = 0; k < K; k++) own.push_back(std::make_unique<Built>(s, [&](int i) { return s.b[size_t(i)].group == k || s.b[size_t(i)].group < 0; }, V(), Q(), false, &order));
    std::vector<bool> gone(size_t(K), false), parted(size_t(K), false), spoiled(size_t(K), false); std::vector<int> pairs(size_t(K), 0); std::vector<double> pd(size_t(K), 0); std::vector<int> pat(size_t(K), 0); std::vector<bool> slept(size_t(K), false); int extra = 0; bool disturbed = false; uint64_t h = 0;
    struct PairCount : rp::EventListener { std::vector<int>& p; const SceneD& s; PairCount(std::vector<int>& p, const SceneD& s) : p(p), s(s) {} void onContact(const rp::CollisionCallback::CallbackData& d) override { std::vector<int> c(p.size(), 0); for (unsigned i = 0; i < d.getNbContactPairs(); i++) for (auto* b : {d.getContactPair(i).getBody1(), d.getContactPair(i).getBody2()}) { int id = pid(b->getUserData()); if (id >= 0 && id < int(s.b.size()) && s.b[size_t(id)].group >= 0) { c[size_t(s.b[size_t(id)].group)]++; break; } } for (size_t k = 0; k < p.size(); k++) p[k] = std::max(p[k], c[k]); } } pc(pairs, s); A.w->setEventListener(&pc);
    for (int st = 0; st < N; st++) {
        if (g.chance(0.02)) { // something happens to another group: only it is no longer compared
            int k = int(g.below(uint32_t(K))); size_t i; do i = g.below(uint32_t(n)); while (s.b[i].group != k); disturbed = true; int what = int(g.below(6)); if (what == 4) for (auto& j : s.j) if (j.group == k) what = 3; C.log("step %d: %d happens to group %d", st, what, k);
            if (gone[size_t(k)]) what = 5; else if (what < 5) spoiled[size_t(k)] = true;
            if (what == 0) { for (int b = 0; b < n; b++) if (s.b[size_t(b)].group == k && A.b[size_t(b)]) { A.w->destroyRigidBody(A.b[size_t(b)]); A.b[size_t(b)] = nullptr; } gone[size_t(k)] = true; C.count("groups destroyed"); }
            else if (what == 1) { A.b[i]->setIsActive(!A.b[i]->isActive()); } else if (what == 2) { A.b[i]->setIsSleeping(!A.b[i]->isSleeping()); } else if (what == 3) { if (A.b[i]->getType() == rp::BodyType::DYNAMIC) A.b[i]->applyWorldForceAtCenterOfMass(rv(rndBox(g, 200))); }
            else if (what == 4) { A.b[i]->setTransform(rt(s.b[i].p + V(0, 3, 0), rndOrient(g))); }
            else if (extra < 5) { BodyD x = rndBody(g, g.chance(0.7) ? rp::BodyType::DYNAMIC : rp::BodyType::STATIC, V(150 + 10.0 * extra, 1, g.uniform(-5, 5)), 1); x.group = -2; extra++; A.b.push_back(nullptr); A.add(x, int(A.b.size()) - 1, V(), Q()); }
        }
        // a group that has been driven apart (a slider with a long lever, say) is taken out before its numbers overflow
        for (int i = 0; i < n; i++) if (A.b[size_t(i)] && !(og::len(A.vel(i)) + og::len(A.ang(i)) < 150)) { int k = s.b[size_t(i)].group; spoiled[size_t(k)] = gone[size_t(k)] = true; for (int b = 0; b < n; b++) if (s.b[size_t(b)].group == k && A.b[size_t(b)]) { A.w->destroyRigidBody(A.b[size_t(b)]); A.b[size_t(b)] = nullptr; } C.count("groups taken out because too fast"); }
        A.w->update(decimal(dt)); for (int k = 0; k < K; k++) if (!spoiled[size_t(k)] && !parted[size_t(k)]) own[size_t(k)]->w->update(decimal(dt));
        for (int k = 0; k < K; k++) { if (spoiled[size_t(k)] || parted[size_t(k)]) continue; Built& B = *own[size_t(k)]; C.eval();
            for (int i = 0; i < n; i++) if (s.b[size_t(i)].group == k) { double e = std::max(std::max(og::len(A.P(i) - B.P(i)), og::len(A.vel(i) - B.vel(i))), og::len(A.ang(i) - B.ang(i))); bool sl = A.b[size_t(i)]->isSleeping() == B.b[size_t(i)]->isSleeping();
                h = vh::mix(h, uint64_t(int64_t(A.P(i).x * 1e3))); e = sl ? e : std::max(e, 1.0); if (A.b[size_t(i)]->isSleeping()) slept[size_t(k)] = true; if (!(e <= pd[size_t(k)])) { pd[size_t(k)] = e; pat[size_t(k)] = st; } if (e > 0.1 || !sl || og::len(A.vel(i)) > 60) { C.log("step %d: body %d of group %d parts by %g sleeping %d %d, pairs %d", st, i, k, e, A.b[size_t(i)]->isSleeping(), B.b[size_t(i)]->isSleeping(), pairs[size_t(k)]); parted[size_t(k)] = true; break; } } }
    }
    A.w->setEventListener(nullptr); C.seen(h); if (disturbed) C.count("worlds in which something happened to other groups");
    // the order in which the solver meets the contacts and joints of one group may depend on the rest of the world: judged by share
    struct Cl { const char* name; double tol, share; }; static const Cl cls[] = {{"no contact, at most one joint", 1e-5, 0}, {"no contact, several joints", 0.01, 0.01}, {"one contact pair, no joint", 0.01, 0.005}, {"one contact pair and joints", 0.01, 0.02}, {"two contact pairs", 0.05, 0.045}, {"more contact pairs", 0.3, 0.1}};
    for (int k = 0; k < K; k++) { if (spoiled[size_t(k)]) continue; int nj = 0; for (auto& j : s.j) nj += j.group == k; int np = pairs[size_t(k)], c = np == 0 ? (nj < 2 ? 0 : 1) : np == 1 ? (nj == 0 ? 2 : 3) : np == 2 ? 4 : 5; const Cl& cl = cls[c]; C.count(std::string("groups compared: ") + cl.name); if (c < 2) C.maxi(std::string("largest difference, share of the tolerance: ") + cl.name, pd[size_t(k)] / cl.tol);
        if (slept[size_t(k)]) C.count("groups of which a body fell asleep");
        static long total[6], bad[6]; total[c]++; if (pd[size_t(k)] <= cl.tol) continue; bad[c]++; C.count(std::string("groups apart: ") + cl.name); C.log("group %d apart by %g at step %d", k, pd[size_t(k)], pat[size_t(k)]);
        if (cl.share == 0 || double(bad[c]) > 6 + 2 * cl.share * double(total[c])) C.fail(std::string("influenced-") + std::to_string(c), "%s: %ld of %ld groups move differently in a world of their own, this one (group %d of %d%s) by %g at step %d (dt %g, %s):%s", cl.name, bad[c], total[c], k, K, disturbed ? ", something happened to others" : "", pd[size_t(k)], pat[size_t(k)], dt, floor ? "on a floor" : "no floor", D.c_str()); }
}
// ---- long simulations ----
static ColD boxD(V e, double mu) { ColD c; c.k = SK::Box; c.e = e; c.mu = mu; c.density = 1; return c; }
static BodyD fixedBox(V p, V e, double mu) { BodyD b; b.t = rp::BodyType::STATIC; b.p = p; b.c.push_back(boxD(e, mu)); return b; }
static double reach(const BodyD& b) { double r = 0; for (auto& c : b.c) r = std::max(r, og::len(c.at.p) + (c.k == SK::Box ? og::len(c.e) : c.k == SK::Capsule ? c.e.x + c.e.y / 2 : c.k == SK::Sphere ? c.e.x : c.e.x * 1.3)); return r; }
static void longrun(vh::Ctx& C) {
    vh::Rng& g = C.rng; SceneD s; s.G = V(0, -g.uniform(5, 12), 0); s.sleeping = g.chance(0.7); s.vi = g.range(8, 20); s.pi = g.range(4, 10); int kind = g.below(5); double dt = g.uniform(0.008, 0.018), mu = g.uniform(0.3, 0.9), half = 0; int N = C.thorough ? g.range(600, 3000) : g.range(300, 900);
    std::vector<double> top; V extent;
    if (kind == 0) { // a heap in a container
        half = g.uniform(3, 6); s.b.push_back(fixedBox(V(0, -1, 0), V(30, 1, 30), mu)); for (int k = 0; k < 4; k++) s.b.push_back(fixedBox(V(k < 2 ? (k ? 1 : -1) * (half + 1) : 0, 450, k < 2 ? 0 : (k == 3 ? 1 : -1) * (half + 1)), V(k < 2 ? 1 : 30, 460, k < 2 ? 30 : 1), g.uniform(0, 0.5)));
        int n = g.range(4, 22); bool bouncy = g.chance(0.3); for (int i = 0; i < n; i++) { BodyD b = rndBody(g, rp::BodyType::DYNAMIC, V(), 1); double r = reach(b); b.p = V(g.uniform(-1, 1) * (half - r - 0.1), 1.5 + 2.2 * i * g.uniform(0.5, 1) , g.uniform(-1, 1) * (half - r - 0.1)); if (i) b.p.y = std::max(b.p.y, s.b.back().p.y + 0.3); b.v = rndBox(g, 2); b.w = rndBox(g, 2); for (auto& c : b.c) { if (!bouncy) c.bounce = g.uniform(0, 0.2); c.mu = mu; } s.b.push_back(b); }
        for (size_t i = 5; i < s.b.size(); i++) for (size_t j = 5; j < i; j++) if (og::len(s.b[i].p - s.b[j].p) < reach(s.b[i]) + reach(s.b[j])) { double r = reach(s.b[i]) + reach(s.b[j]); s.b[i].p.y = std::max(s.b[i].p.y, s.b[j].p.y + r); j = 4; if (s.b[i].p.y > 300) break; }
    } else if (kind == 1) { // a stack of boxes
        s.b.push_back(fixedBox(V(0, -1, 0), V(30, 1, 30), std::max(mu, 0.5))); int n = g.range(1, 5); s.vi = std::max(s.vi, 10); dt = std::min(dt, 0.0167); double y = 0; V e(g.uniform(0.4, 1), g.uniform(0.3, 0.6), g.uniform(0.4, 1)); double turn = g.uniform(0, 6.28); bool turned = g.chance(0.3);
        for (int i = 0; i < n; i++) { BodyD b; b.t = rp::BodyType::DYNAMIC; if (g.chance(0.5) && i) { e.x *= g.uniform(0.8, 1); e.z *= g.uniform(0.8, 1); } b.c.push_back(boxD(e, std::max(mu, 0.5))); b.c[0].density = g.uniform(0.5, 2); y += e.y; b.p = V(g.uniform(-0.05, 0.05), y, g.uniform(-0.05, 0.05)); y += e.y; b.q = og::axisAngle(V(0, 1, 0), turn + (turned ? g.uniform(-0.3, 0.3) : 0)); s.b.push_back(b); }
    } else if (kind == 2) { // a hanging chain
        int n = g.range(1, 7); s.b.push_back(fixedBox(V(0, 0, 0), V(0.3, 0.3, 0.3), mu)); V dir = og::unit(V(g.uniform(-1, 1), g.uniform(-1, 0.3), g.uniform(-1, 1))); rp::JointType jt = g.chance(0.6) ? rp::JointType::BALLSOCKETJOINT : g.chance(0.5) ? rp::JointType::HINGEJOINT : rp::JointType::FIXEDJOINT; if (jt == rp::JointType::FIXEDJOINT) n = std::min(n, 3); if (jt == rp::JointType::HINGEJOINT) n = std::min(n, 2); s.pi = std::max(s.pi, 6); V hax = og::unit(og::cross(dir, rndUnit(g)));
        for (int i = 0; i < n; i++) { BodyD b; b.t = rp::BodyType::DYNAMIC; b.c.push_back(rndCol(g, 0.4, {SK::Sphere, SK::Capsule, SK::Box})); b.c[0].density = g.uniform(0.7, 1.5); b.p = dir * (0.8 * (i + 1)); b.ghost = true; if (g.chance(0.3)) { b.ld = g.uniform(0, 0.3); b.ad = g.uniform(0, 0.3); } s.b.push_back(b); JointD j; j.t = jt; j.a = i; j.b = i + 1; j.anchor = dir * (0.8 * i + 0.4); j.axis = hax; j.coll = false; s.j.push_back(j); }
    } else if (kind == 3) { // bodies held together fall on a floor
        s.b.push_back(fixedBox(V(0, -2, 0), V(60, 2, 60), mu)); int n = g.range(2, 4); V at(0, g.uniform(3, 6), 0);
        for (int i = 0; i < n; i++) { BodyD b; b.t = rp::BodyType::DYNAMIC; b.c.push_back(rndCol(g, 0.6, {SK::Sphere, SK::Capsule, SK::Box})); b.c[0].density = g.uniform(0.7, 1.5); b.c[0].bounce = g.uniform(0, 0.3); b.c[0].mu = mu; b.p = at; b.q = rndOrient(g); at = at + og::unit(V(g.uniform(-1, 1), g.uniform(-0.3, 0.6), g.uniform(-1, 1))) * 1.4; s.b.push_back(b); if (i) { JointD j = rndJoint(g, i, i + 1, (s.b[size_t(i)].p + s.b[size_t(i + 1)].p) * 0.5); j.motor = false; j.ngs = true; s.j.push_back(j); } }
    } else { // fast bodies thrown at a wall and the floor
        half = 10; s.b.push_back(fixedBox(V(0, -1, 0), V(60, 1, 60), mu)); for (int k = 0; k < 4; k++) s.b.push_back(fixedBox(V(k < 2 ? (k ? 1 : -1) * (half + 1) : 0, 450, k < 2 ? 0 : (k == 3 ? 1 : -1) * (half + 1)), V(k < 2 ? 1 : 30, 460, k < 2 ? 30 : 1), mu));
        int n = g.range(1, 4); for (int i = 0; i < n; i++) { BodyD b = rndBody(g, rp::BodyType::DYNAMIC, V(-6 + 4 * i, g.uniform(2, 5), g.uniform(-4, 4)), 1); double r = 1e9; for (auto& c : b.c) r = std::min(r, c.k == SK::Box ? std::min(c.e.x, std::min(c.e.y, c.e.z)) : c.e.x * 0.5); b.v = rndUnit(g) * g.uniform(1, 0.7 * r / dt); b.w = rndBox(g, 8); s.b.push_back(b); }
    }
    std::string D = desc(s); C.log("kind %d steps %d dt %g sleeping %d%s", kind, N, dt, s.sleeping, D.c_str()); Built A(s, [](int) { return true; }, V(), Q()); int n = int(s.b.size()); double e0 = A.energy(s.G), emax = e0, base = 0; int nd = 0; double mass = 0, e1 = 0;
    // A tumbling body keeps its angular velocity in this engine (no gyroscopic term), so its energy varies with its orientation: e1 takes the largest inertia.
    for (int i = 0; i < n; i++) if (s.b[size_t(i)].t == rp::BodyType::DYNAMIC) { nd++; mass += A.b[size_t(i)]->getMass(); V I = ov(A.b[size_t(i)]->getLocalInertiaTensor()), w = A.ang(i), w2 = og::mat(A.O(i)).t() * w; e1 += 0.5 * (og::maxabs(I) * og::dot(w, w) - og::dot(w2, og::had(I, w2))); } e1 += e0; base = kind == 2 ? -mass * og::len(s.G) * 0.8 * (nd + 1) : 0; // the lowest potential energy it can reach
    double pen = 0, jerr = 0, drift = 0, kin = 0, sink = 0; int asleep = 0; uint64_t h = 0;
    for (int st = 0; st < N; st++) {
        A.w->update(decimal(dt)); C.eval(); double e = A.energy(s.G); emax = std::max(emax, e); asleep = 0; kin = 0;
        for (int i = 0; i < n; i++) { if (s.b[size_t(i)].t != rp::BodyType::DYNAMIC) { if (A.P(i).x != double(rp::decimal(s.b[size_t(i)].p.x))) C.fail("static-moved", "static body %d moved", i); continue; }
            Q q = A.O(i); V p = A.P(i), c = A.com(i); double qn = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w); if (!og::finite(p) || !og::finite(A.vel(i)) || !og::finite(A.ang(i)) || !(std::fabs(qn - 1) < 1e-3)) { C.fail("not-finite", "step %d: body %d at %s, velocity %s, orientation length %g:%s", st, i, vs(p).c_str(), vs(A.vel(i)).c_str(), qn, D.c_str()); return; }
            if (kind != 2) { double d = -c.y; if (half > 0) d = std::max(d, std::max(std::fabs(c.x), std::fabs(c.z)) - half); pen = std::max(pen, d); }
            if (A.b[size_t(i)]->isSleeping()) asleep++; kin = std::max(kin, og::len(A.vel(i)) + og::len(A.ang(i)));
            if (kind == 1) { drift = std::max(drift, std::hypot(p.x - s.b[size_t(i)].p.x, p.z - s.b[size_t(i)].p.z)); sink = std::max(sink, std::fabs(p.y - s.b[size_t(i)].p.y)); } }
        for (auto& j : s.j) { V la = og::rot(qinv(s.b[size_t(j.a)].q), j.anchor - s.b[size_t(j.a)].p), lb = og::rot(qinv(s.b[size_t(j.b)].q), j.anchor - s.b[size_t(j.b)].p); V u = A.P(j.b) + og::rot(A.O(j.b), lb) - A.P(j.a) - og::rot(A.O(j.a), la); if (j.t != rp::JointType::SLIDERJOINT) jerr = std::max(jerr, og::len(u)); }
        if (st % 16 == 0) h = vh::mix(h, uint64_t(int64_t(A.P(n - 1).y * 1e3)));
    }
    static const char* kn[] = {"a heap in a container", "a stack", "a hanging chain", "jointed bodies falling on a floor", "fast bodies in a box"}; static const double maxGain[] = {0.05, 0.02, 0.05, 0.05, 0.1}, hardGain[] = {0.2, 0.1, 0.2, 0.2, 0.4};
    double E = std::max(e1 - base, 1e-9), gain = (emax - e1) / E; C.seen(h); C.count(std::string("scenes run: ") + kn[kind]); C.count("steps", N); C.count("body steps", double(N) * nd); C.maxi(std::string("largest gain of energy: ") + kn[kind], gain); C.maxi(std::string("deepest centre behind a surface: ") + kn[kind], pen); C.maxi(std::string("largest joint error: ") + kn[kind], jerr);
    auto bad = [&](const char* key, const char* what, double x) { C.fail(key, "%s: %s %g after %d steps of %g (gravity %g, %d/%d iterations):%s", kn[kind], what, x, N, dt, og::len(s.G), s.vi, s.pi, D.c_str()); };
    // a single steep collision or sharp stack may exceed a limit a little: the soft limit is judged by share, the hard limit always
    static long runs[5], over[5][6]; runs[kind]++; auto judge = [&](int m, const char* key, const char* what, double x, double soft, double hard) { if (!(x <= soft)) { over[kind][m]++; C.count(std::string("beyond a soft limit: ") + key); } if (!(x <= hard) || (!(x <= soft) && over[kind][m] > 4 + 0.02 * double(runs[kind]))) bad(key, what, x); };
    judge(0, "energy", "the energy rose by the share", gain, maxGain[kind], hardGain[kind]); judge(2, "through", "the centre of a body went behind the surface of a floor or wall by", pen, 0.4, kind == 3 ? 2 : 0.6); judge(1, "joint-apart", "the ends of a joint were apart by", jerr, kind == 2 ? 0.3 : 0.5, 2);
    if (kind == 1) { C.maxi("largest sideways shift of a stacked box", drift); C.maxi("largest rise or sink of a stacked box", sink); judge(4, "stack-drift", "a box of the stack shifted by", drift, 0.12, 1e9); judge(5, "stack-sink", "a box of the stack rose or sank by", sink, 0.1, 1e9); judge(3, "stack-moves", "a box of the stack moves with", kin, 0.5, 1e9);
        if (s.sleeping && N * dt > 4) { static long total, awake; total++; if (asleep < nd) awake++; C.count("stacks that should sleep"); if (asleep == nd) C.count("stacks asleep"); if (double(awake) > 5 + 0.1 * double(total)) bad("stack-awake", "stacks still awake, share", double(awake) / double(total)); } }
    if ((kind == 0 || kind == 3) && !(A.energy(s.G) <= e1 * 0.95 + 1e-6) && N * dt > 6) bad("no-loss", "energy did not fall; the share left is", A.energy(s.G) / e0);
}
int main(int c, char** v) { return vh::runMain(c, v, [](vh::Ctx& C) { if (C.mode == "frames") frames(C); else if (C.mode == "groups") groups(C); else longrun(C); }); }
