// C05: dynamic AABB tree against a brute-force model; and the world's overlap pairs against brute force.
#include "rp.h"
#include <set>

struct Model { int node; V lo, hi; V flo, fhi; uint32_t data; };
static V flo(const rp::AABB& a) { return ov(a.getMin()); }
static V fhi(const rp::AABB& a) { return ov(a.getMax()); }
static bool ovl(V alo, V ahi, V blo, V bhi) { for (int i = 0; i < 3; i++) if (ahi[i] < blo[i] || bhi[i] < alo[i]) return false; return true; }
static bool contains(V alo, V ahi, V blo, V bhi) { for (int i = 0; i < 3; i++) if (blo[i] < alo[i] || bhi[i] > ahi[i]) return false; return true; }

struct RayCb : rp::DynamicAABBTreeRaycastCallback {
    struct Vis { int id; double mf, r; }; std::vector<Vis> visits; std::function<double(int, double)> f;
    rp::decimal raycastBroadPhaseShape(rp::int32 id, const rp::Ray& ray) override { double r = f(id, ray.maxFraction); visits.push_back({id, double(ray.maxFraction), r}); return rp::decimal(r); }
};
// entry fraction of the segment into the box, and how decided
static int raybox(V lo, V hi, V a, V d, double tmax, double& tin, double tol) {   // 1 hit, 0 miss, -1 unsure
    double t0 = 0, t1 = tmax; double L = og::len(d); bool unsure = false;
    for (int i = 0; i < 3; i++) {
        if (std::fabs(d[i]) < 1e-12 * L) { if (a[i] < lo[i] - tol || a[i] > hi[i] + tol) return 0; if (a[i] < lo[i] + tol || a[i] > hi[i] - tol) unsure = true; continue; }
        double u = (lo[i] - a[i]) / d[i], v = (hi[i] - a[i]) / d[i]; if (u > v) std::swap(u, v);
        t0 = std::max(t0, u); t1 = std::min(t1, v);
    }
    tin = t0; double m = (t1 - t0) * L;
    if (m < -tol) return 0;
    if (m < tol || unsure) return -1;
    return 1;
}

static void treeCase(vh::Ctx& c) {
    struct A : rp::MemoryAllocator { void* allocate(size_t n) override { return ::operator new(n); } void release(void* p, size_t) override { ::operator delete(p); } } al;
    double pct = c.rng.chance(0.3) ? 0.0 : c.rng.uniform(0, 0.3);
    rp::DynamicAABBTree tree(al, rp::decimal(pct));
    std::vector<Model> ms; uint32_t nextData = 1; double world = c.rng.logUniform(1, 200);
    int pattern = c.rng.below(4), steps = c.thorough ? 1200 : 350; double seq = 0; int target = c.rng.range(3, 250);
    bool onGrid = c.rng.chance(0.2);
    auto rndB = [&](V& lo, V& hi) {
        V p = rndBox(c.rng, world), e(c.rng.logUniform(1e-3, 0.3) * world, c.rng.logUniform(1e-3, 0.3) * world, c.rng.logUniform(1e-3, 0.3) * world);
        if (pattern == 1) { p = V(seq += world * 0.05, c.rng.uniform(-1, 1), 0); e = e * 0.1; }        // sorted insertion
        if (pattern == 2) { p = p * 0.05; }                                                              // heavy overlap
        if (pattern == 3 && c.rng.chance(0.2)) e = e * 8;
        if (c.rng.chance(0.05)) e[int(c.rng.below(3))] = 0;
        lo = rdv(p - e); hi = rdv(p + e);
        if (onGrid) { for (int i = 0; i < 3; i++) { lo[i] = std::floor(lo[i]); hi[i] = lo[i] + 1 + c.rng.below(3); } }
    };
    auto box = [&](V lo, V hi) { return rp::AABB(rv(lo), rv(hi)); };
    auto checkAll = [&](const char* after) {
        for (auto& m : ms) {
            const rp::AABB& f = tree.getFatAABB(m.node); c.eval();
            if (!contains(flo(f), fhi(f), m.lo, m.hi)) { c.fail("fat-box-does-not-contain", "after %s node %d: fat %s..%s given %s..%s", after, m.node, vs(flo(f)).c_str(), vs(fhi(f)).c_str(), vs(m.lo).c_str(), vs(m.hi).c_str()); return; }
            if (!(og::len(flo(f) - m.flo) == 0 && og::len(fhi(f) - m.fhi) == 0)) { c.fail("fat-box-changed", "after %s: the stored box of object %u changed", after, m.data); return; }
            if (uint32_t(tree.getNodeDataInt(m.node)) != m.data) { c.fail("data-changed", "after %s: data of object %u reads %d", after, m.data, tree.getNodeDataInt(m.node)); return; }
        }
    };
    auto inflated = [&](Model& m, const char* what) { // the stored box right after an (re)insertion
        const rp::AABB& f = tree.getFatAABB(m.node); V e = (m.hi - m.lo) * (rd(pct) * 0.5); double tol = 8 * EPSD * (og::maxabs(m.lo) + og::maxabs(m.hi) + 1);
        if (og::maxabs(flo(f) - (m.lo - e)) > tol || og::maxabs(fhi(f) - (m.hi + e)) > tol) c.fail("fat-box-size", "%s: stored box %s..%s for %s..%s inflate %g", what, vs(flo(f)).c_str(), vs(fhi(f)).c_str(), vs(m.lo).c_str(), vs(m.hi).c_str(), pct);
        m.flo = flo(f); m.fhi = fhi(f); };
    for (int s = 0; s < steps; s++) {
        int op = c.rng.below(100); double pAdd = int(ms.size()) < target ? 45 : 12;
        if (ms.empty() && c.rng.chance(0.3)) op = 99;
        else if (ms.empty()) op = 0;
        if (op < pAdd) {
            Model m; rndB(m.lo, m.hi); m.data = nextData++; m.node = tree.addObject(box(m.lo, m.hi), m.data);
            for (auto& o : ms) if (o.node == m.node) { c.fail("node-id-reused", "live node id %d handed out twice", m.node); return; }
            inflated(m, "add"); ms.push_back(m); c.count("add");
        } else if (op < pAdd + 30 && !ms.empty()) {
            Model& m = ms[c.rng.below(uint32_t(ms.size()))]; V lo, hi;
            int kind = c.rng.below(4);
            if (kind == 0) rndB(lo, hi);
            else if (kind == 1) { V d = rndBox(c.rng, 0.3) ; V e = m.hi - m.lo; lo = rdv(m.lo + og::had(d, e) * 0.1); hi = rdv(m.hi + og::had(d, e) * 0.1); }
            else if (kind == 2) { V e = (m.hi - m.lo) * c.rng.uniform(0, 0.4); lo = rdv(m.lo + e); hi = rdv(m.hi - e); }     // shrink
            else { V e = (m.hi - m.lo) * c.rng.uniform(0, 0.4); lo = rdv(m.lo - e); hi = rdv(m.hi + e); }
            bool force = c.rng.chance(0.2), fits = contains(m.flo, m.fhi, lo, hi);
            bool r = tree.updateObject(m.node, box(lo, hi), force); c.eval();
            if (r != (force || !fits)) c.fail("update-return", "updateObject returned %d (force=%d, still fits=%d)", r, force, fits);
            m.lo = lo; m.hi = hi; if (r) { inflated(m, "update"); c.count("reinserted"); } else c.count("kept");
        } else if (op < pAdd + 45 && !ms.empty()) {
            uint32_t k = c.rng.below(uint32_t(ms.size())); tree.removeObject(ms[k].node); ms[k] = ms.back(); ms.pop_back(); c.count("remove");
        } else if (op < pAdd + 46 && c.rng.chance(0.1)) { tree.reset(); ms.clear(); c.count("reset"); }
        if (s % 16 == 0) checkAll("operation");
        // queries
        if (s % 3 == 0) {
            V lo, hi; rndB(lo, hi); if (!ms.empty() && c.rng.chance(0.3)) { auto& m = ms[c.rng.below(uint32_t(ms.size()))]; lo = m.fhi; hi = m.fhi + V(1, 1, 1); hi = rdv(hi); }   // touching
            rp::Array<int> out(al); tree.reportAllShapesOverlappingWithAABB(box(lo, hi), out);
            std::multiset<int> got; for (uint32_t i = 0; i < out.size(); i++) got.insert(out[i]);
            std::multiset<int> want; for (auto& m : ms) if (ovl(m.flo, m.fhi, lo, hi)) want.insert(m.node);
            c.eval(); c.count("box-hits", double(want.size())); if (want.size()) c.seen(vh::mix(want.size(), vh::mix(ms.size(), s)));
            if (got != want) c.fail("box-query", "%zu objects: got %zu expected %zu", ms.size(), got.size(), want.size());
        }
        if (s % 20 == 7 && !ms.empty()) {
            rp::Array<rp::int32> q(al); int k = c.rng.range(1, 8); std::vector<int> qs; for (int i = 0; i < k; i++) { int n = ms[c.rng.below(uint32_t(ms.size()))].node; q.add(n); qs.push_back(n); }
            uint32_t b = c.rng.below(k), e = b + c.rng.below(k - b + 1);
            rp::Array<rp::Pair<rp::int32, rp::int32>> out(al); tree.reportAllShapesOverlappingWithShapes(q, b, e, out);
            std::multiset<std::pair<int, int>> got, want; for (uint32_t i = 0; i < out.size(); i++) got.insert({out[i].first, out[i].second});
            for (uint32_t i = b; i < e; i++) { auto* me = &ms[0]; for (auto& m : ms) if (m.node == qs[i]) me = &m; for (auto& m : ms) if (ovl(m.flo, m.fhi, me->flo, me->fhi)) want.insert({qs[i], m.node}); }
            c.eval(); if (got != want) c.fail("shapes-query", "got %zu expected %zu", got.size(), want.size());
        }
        if (s % 4 == 1) {
            V a = rdv(rndBox(c.rng, world * 1.5)), b = rdv(rndBox(c.rng, world * 1.5));
            if (c.rng.chance(0.3)) { int ax = c.rng.below(3); for (int i = 0; i < 3; i++) if (i != ax) b[i] = a[i]; }                 // axis-parallel
            if (!ms.empty() && c.rng.chance(0.4)) { auto& m = ms[c.rng.below(uint32_t(ms.size()))]; V t = (m.flo + m.fhi) * 0.5; if (c.rng.chance(0.5)) b = rdv(t); else a = rdv(t); }
            if (og::len(b - a) < 1e-3 * world) continue;
            double frac = rd(c.rng.chance(0.5) ? 1.0 : c.rng.uniform(0.05, 1.3)), tol = 3e-5 * world * (DBL ? 1e-6 : 1) + 100 * EPSD * (seq + 5 * world);
            RayCb cb; int pol = c.rng.below(4); double stopAt = c.rng.below(6); std::map<int, Model*> byNode; for (auto& m : ms) byNode[m.node] = &m;
            cb.f = [&](int id, double cur) -> double { if (pol == 0) return cur; if (pol == 1) return -1; if (pol == 2) { double t = 0; auto it = byNode.find(id); if (it == byNode.end()) return -1; raybox(it->second->flo, it->second->fhi, a, b - a, frac, t, tol); return t > 1e-6 ? t : -1; } return cb.visits.size() >= stopAt ? 0.0 : cur; };
            tree.raycast(rp::Ray(rv(a), rv(b), rp::decimal(frac)), cb);
            double cur = frac; std::set<int> vis; bool stopped = false; c.eval();
            for (size_t i = 0; i < cb.visits.size(); i++) {
                auto [id, mf, r] = cb.visits[i]; if (!byNode.count(id)) { c.fail("ray-unknown-node", "visited %d", id); break; }
                if (!vis.insert(id).second) c.fail("ray-twice", "node visited twice");
                if (stopped) c.fail("ray-after-stop", "visited after the callback returned 0");
                if (std::fabs(mf - cur) > 1e-6) c.fail("ray-fraction", "visit %zu sees max fraction %g, expected %g", i, mf, cur);
                double t = 0; if (raybox(byNode[id]->flo, byNode[id]->fhi, a, b - a, cur, t, tol) == 0) c.fail("ray-extra", "visited a box the ray does not cross");
                if (rd(r) == 0) stopped = true; else if (r > 0 && rd(r) < cur) cur = rd(r);
            }
            if (!stopped) for (auto& m : ms) { double t = 0; if (raybox(m.flo, m.fhi, a, b - a, cur, t, tol) == 1 && t < cur - 1e-5 && !vis.count(m.node)) { c.fail("ray-missed", "a box crossed at %g (max %g) was not visited; ray %s -> %s box %s..%s", t, cur, vs(a).c_str(), vs(b).c_str(), vs(m.flo).c_str(), vs(m.fhi).c_str()); break; } }
            c.count("ray-visits", double(cb.visits.size()));
        }
        if (s % 25 == 0 && ms.size() > 1) {
            int h = tree.computeHeight(); double lim = 2.5 * std::log2(double(ms.size()) + 1) + 3; c.eval(); c.maxi("height/log2", h / std::log2(double(ms.size()) + 1));
            if (h > lim) c.fail("unbalanced", "height %d for %zu objects", h, ms.size());
            const rp::AABB& r = tree.getRootAABB(); for (auto& m : ms) if (!contains(flo(r), fhi(r), m.flo, m.fhi)) { c.fail("root-box", "the root box does not contain a stored box"); break; }
        }
    }
    checkAll("end"); c.seen(vh::mix(nextData, ms.size())); c.maxi("objects", double(ms.size()));
    if (c.caseIndex % 50 == 0) c.sample("case %ld: %u objects added, %zu live, inflate %g, pattern %d", c.caseIndex, nextData - 1, ms.size(), pct, pattern);
}

// world mode: many spheres, boxes; pairs reported by the overlap query equal brute force after every change
struct OC : rp::OverlapCallback { std::multiset<std::pair<unsigned, unsigned>> s; void onOverlap(CallbackData& d) override { for (uint32_t i = 0; i < d.getNbOverlappingPairs(); i++) { auto p = d.getOverlappingPair(i); unsigned a = p.getBody1()->getEntity().id, b = p.getBody2()->getEntity().id; s.insert({std::min(a, b), std::max(a, b)}); } } };
static void worldCase(vh::Ctx& c) {
    PC pc; rp::PhysicsWorld::WorldSettings st; st.isSleepingEnabled = false; st.gravity = rp::Vector3(0, 0, 0); rp::PhysicsWorld* w = pc.createPhysicsWorld(st);
    struct B { rp::RigidBody* b; double r; V v; rp::SphereShape* sh; rp::Collider* col; bool active = true; bool st = false; }; std::vector<B> bs; double W = c.rng.uniform(4, 15); int n = c.rng.range(5, 70);
    std::vector<rp::SphereShape*> shapes; 
    auto add = [&]() { double r = rd(c.rng.uniform(0.3, 1.5)); auto* s = pc.createSphereShape(rp::decimal(r)); auto* b = w->createRigidBody(rt(rndBox(c.rng, W), rndQ(c.rng))); bool st = c.rng.chance(0.3); b->setType(st ? rp::BodyType::STATIC : rp::BodyType::KINEMATIC);
        auto* col = b->addCollider(s, rp::Transform::identity()); col->setIsTrigger(false); V v = rndBox(c.rng, c.rng.chance(0.3) ? 30 : 3); if (!st) b->setLinearVelocity(rv(v)); bs.push_back({b, r, v, s, col, true, st}); };
    for (int i = 0; i < n; i++) add();
    int steps = c.thorough ? 60 : 25;
    for (int s = 0; s < steps; s++) {
        for (int k = 0; k < 3; k++) { int op = c.rng.below(10); if (bs.empty()) { add(); continue; } uint32_t i = c.rng.below(uint32_t(bs.size()));
            if (op == 0) add();
            else if (op == 1) { w->destroyRigidBody(bs[i].b); bs[i] = bs.back(); bs.pop_back(); }
            else if (op < 4 && bs[i].active) bs[i].b->setTransform(rt(rndBox(c.rng, W), rndQ(c.rng)));
            else if (op == 4 && !bs[i].st) bs[i].b->setLinearVelocity(rv(rndBox(c.rng, 20)));
            else if (op == 5) { double r = rd(c.rng.uniform(0.3, 1.8)); bs[i].sh->setRadius(rp::decimal(r)); bs[i].r = r; }
            else if (op == 6 && bs[i].active) { bs[i].b->setIsActive(false); bs[i].active = false; } }
        if (c.rng.chance(0.6)) w->update(rp::decimal(1.0 / 60));
        std::set<std::pair<unsigned, unsigned>> want, unsure;
        for (size_t i = 0; i < bs.size(); i++) for (size_t j = 0; j < i; j++) { if (!bs[i].active || !bs[j].active) continue; double g = og::len(ov(bs[i].b->getTransform().getPosition()) - ov(bs[j].b->getTransform().getPosition())) - bs[i].r - bs[j].r; unsigned a = bs[i].b->getEntity().id, b = bs[j].b->getEntity().id; std::pair<unsigned, unsigned> k{std::min(a, b), std::max(a, b)}; if (bs[i].st && bs[j].st) unsure.insert(k); else if (g < -1e-4) want.insert(k); else if (g < 1e-4) unsure.insert(k); }
        OC oc; w->testOverlap(oc); c.eval(); c.count("world-pairs", double(want.size())); c.seen(vh::mix(want.size(), vh::mix(bs.size(), s)));
        for (auto& k : want) if (oc.s.count(k) != 1) { c.fail("world-pair-missed", "step %d: overlapping pair %u,%u reported %zu times (%zu bodies)", s, k.first, k.second, oc.s.count(k), bs.size()); break; }
        for (auto& k : oc.s) if (!want.count(k) && !unsure.count(k)) { c.fail("world-pair-extra", "step %d: pair %u,%u reported but apart", s, k.first, k.second); break; }
    }
}
int main(int argc, char** argv) { return vh::runMain(argc, argv, [](vh::Ctx& c) { if (c.mode == "world") worldCase(c); else treeCase(c); }); }
