// C03 (determinism), C27 (queries leave no trace): the same random history performed several times under different conditions.
#include "world.h"
#include <deque>
#include <set>
#include <unordered_map>
#include <sys/mman.h>

// An allocator whose addresses and memory contents are unlike malloc's: downward or scattered placement, chosen fill.
struct OddAlloc : rp::MemoryAllocator {
    static constexpr size_t CAP = size_t(1) << 31; char* base; size_t lo = 0, hi = CAP; int style; vh::Rng g; std::unordered_map<size_t, std::deque<void*>> freeL;
    OddAlloc(int style, uint64_t seed) : style(style), g(seed) { base = (char*)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) { perror("mmap"); abort(); } }
    ~OddAlloc() override { munmap(base, CAP); }
    void* allocate(size_t n) override {
        size_t s = (n + 15) / 16 * 16; if (!s) s = 16; void* p = nullptr; auto& q = freeL[s];
        if (!q.empty() && (style != 2 || g.chance(0.7))) { if (style == 1) { p = q.front(); q.pop_front(); } else { p = q.back(); q.pop_back(); } }
        else { if (style == 1 || (style == 2 && g.chance(0.5))) { hi -= s + 16 * (style == 2 ? g.below(20) : 0); p = base + hi; } else { lo += 16 * (style == 2 ? g.below(20) : 0); p = base + lo; lo += s; } if (lo >= hi) { fprintf(stderr, "OddAlloc exhausted\n"); abort(); } }
        if (style == 0) memset(p, 0, n); else if (style == 1) memset(p, 0xFF, n); else { unsigned char c = (unsigned char)g.below(256); if (n > 65536) memset(p, c, n); else for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)(c + i * 37); }
        return p;
    }
    void release(void* p, size_t n) override { size_t s = (n + 15) / 16 * 16; if (!s) s = 16; if (style == 1) memset(p, 0xEE, n); freeL[s].push_back(p); }
};
struct Plan { uint64_t seed; WOpt o; int rounds; double mut, q; int pop; };
static Plan mkPlan(vh::Ctx& C) { vh::Rng g(vh::mix(C.seed * 31 + 7, C.caseIndex)); Plan p; p.seed = vh::mix(C.seed * 7 + 3, C.caseIndex); p.o.ext = g.uniform(1.5, 4); p.o.maxBodies = g.range(2, C.thorough ? 30 : 14); p.o.maxColliders = g.range(1, 4); p.o.maxJoints = g.range(0, 8);
    p.rounds = g.range(10, C.thorough ? 120 : 50); p.mut = g.logUniform(0.2, 4); p.q = g.uniform(0.5, 3); p.pop = g.range(2, p.o.maxBodies); return p; }
struct Rec { std::vector<uint64_t> state, query; std::vector<std::string> ops; };
// queries: 0 none; 1 once; 2 each twice (overlap and collision queries only between two steps, where nothing has been changed yet); 3 all kinds, the observable state just before and just after must agree
static Rec perform(vh::Ctx& C, const Plan& p, rp::PhysicsCommon& pc, int queries, const std::function<void(int)>& between = nullptr) {
    Rec r; Sim s(pc, p.seed, p.o); s.verbose = C.verbose; s.start(); s.populate(p.pop); vh::Rng g(p.seed ^ 0x55);
    auto ask = [&](int k, bool fresh) {
        int nq = int(g.uniform(0, p.q + 1)); s.noOverlapQueries = queries == 2 && !fresh;
        if (queries) for (int i = 0; i < nq; i++) {
            vh::Rng save = s.rq; Hash a; uint64_t before = queries == 3 ? s.digest() : 0; long ev = s.nEvents; s.qh = Hash(); s.query(); a = s.qh; r.query.push_back(a.h);
            if (queries == 2) { long before = s.nQueries; s.rq = save; s.qh = Hash(); s.query(); C.eval(); if (s.qh.h != a.h) C.fail("query-not-repeatable", "round %d: repeating query number %ld (kind %d) at once gave another answer", k, before, s.lastQuery); s.nQueries = before; }
            if (queries == 3) { C.eval(); if (s.digest() != before || s.nEvents != ev) C.fail("query-visible", "round %d: a query of kind %d changed something observable or raised an event", k, s.lastQuery); }
        }
    };
    for (int k = 0; k < p.rounds; k++) {
        for (double m = p.mut; m > 0; m -= 1) if (m >= 1 || g.chance(m)) s.mutate();
        ask(k, false);
        int n = g.chance(0.15) ? 0 : g.chance(0.1) ? 8 : g.range(1, 2);
        for (int i = 0; i < n; i++) { s.step(s.rndDt()); if (i + 1 < n) { s.clampState(); ask(k, true); } }
        if (between) between(k);
        r.state.push_back(s.digest());
    }
    C.count("steps", s.nSteps); C.count("events", s.nEvents); C.count("queries", s.nQueries); if (queries) C.count("contact points", s.nContactPts);
    for (auto& m : s.problems) { C.fail("bad-event", "%s", m.c_str()); break; }
    s.stop(); return r;
}
static void compare(vh::Ctx& C, const char* what, const Rec& a, const Rec& b, bool q) {
    for (size_t i = 0; i < a.state.size(); i++) { C.eval(); if (a.state[i] != b.state[i]) { C.fail(std::string("state-") + what, "observable state differs after round %zu of %zu", i, a.state.size()); break; } }
    if (q) for (size_t i = 0; i < a.query.size(); i++) { C.eval(); if (a.query[i] != b.query[i]) { C.fail(std::string("query-") + what, "answer of query %zu of %zu differs", i, a.query.size()); break; } }
}
static void determinism(vh::Ctx& C) {
    Plan p = mkPlan(C); p.o.debug = C.rng.chance(0.3); Rec ref;
    { PC pc; ref = perform(C, p, pc, 1); }
    for (uint64_t h : ref.state) C.seen(h);
    { PC pc; compare(C, "second-run", ref, perform(C, p, pc, 1), true); }
    for (int style = 0; style < 3; style++) { OddAlloc al(style, vh::mix(p.seed, style)); rp::PhysicsCommon pc(&al); compare(C, style == 0 ? "zeroed-memory" : style == 1 ? "descending-addresses" : "scattered-addresses", ref, perform(C, p, pc, 1), true); }
    { // other worlds of the same factory used before and in between
        PC pc; Plan p2 = mkPlan(C); p2.seed ^= 0x1234567; p2.rounds = 6; perform(C, p2, pc, 1);
        Sim n(pc, p.seed + 99, p.o); n.start(); n.populate(6); auto r = perform(C, p, pc, 1, [&](int) { n.mutate(); n.query(); n.step(1.0 / 60); }); n.stop();
        compare(C, "other-worlds", ref, r, true); }
    C.count("histories"); if (C.caseIndex % 40 == 0) C.sample("case %ld: %d rounds replayed 5 times, %zu query answers compared per replay", C.caseIndex, p.rounds, ref.query.size());
}
static void queriesNoTrace(vh::Ctx& C) {
    Plan p = mkPlan(C); p.o.debug = C.rng.chance(0.3); Rec ref;
    { PC pc; ref = perform(C, p, pc, 0); }
    for (uint64_t h : ref.state) C.seen(h);
    { PC pc; auto r = perform(C, p, pc, 2); compare(C, "with-queries", ref, r, false); C.count("histories"); if (C.caseIndex % 40 == 0) C.sample("case %ld: %d rounds with %zu queries (each asked twice) and without", C.caseIndex, p.rounds, r.query.size()); }
    { PC pc; perform(C, p, pc, 3); }
}
static void runCase(vh::Ctx& C) { if (C.mode == "queries") queriesNoTrace(C); else determinism(C); }
int main(int argc, char** argv) { return vh::runMain(argc, argv, runCase); }
