// C04: separate factories in separate threads: no data race, and each thread gets what it would get alone.
#include "world.h"
#include <thread>
#include <atomic>
#include <sched.h>
#include <sstream>
struct Job { uint64_t seed; WOpt o; int rounds; bool logger; };
static std::vector<uint64_t> perform(const Job& j, std::atomic<int>* gate, int n, vh::Rng yield) {
    if (gate) { gate->fetch_add(1); while (gate->load() < n) { } }
    std::vector<uint64_t> out;
    for (int life = 0; life < 2; life++) {
        rp::PhysicsCommon pc; Sim s(pc, j.seed + life, j.o); s.start(); s.populate(5);
        for (int k = 0; k < j.rounds; k++) { s.mutate(); s.mutate(); s.query(); s.step(s.rndDt()); out.push_back(s.digest() ^ s.qh.h); if (gate && yield.chance(0.2)) sched_yield(); }
        s.stop();
    }
    return out;
}
static void runCase(vh::Ctx& C) {
    vh::Rng g(vh::mix(C.seed * 23 + 1, C.caseIndex)); int n = g.range(2, 6); std::vector<Job> jobs; bool same = g.chance(0.3);
    for (int i = 0; i < n; i++) { Job j; j.seed = same ? C.seed * 1000 + 7 : g.next(); j.o.ext = g.uniform(1.5, 3); j.o.maxBodies = 10; j.rounds = g.range(3, C.thorough ? 30 : 10); if (same && i) { j.rounds = jobs[0].rounds; j.o = jobs[0].o; } jobs.push_back(j); }
    // half of the cases: one logger, shared by all threads, receives everything
    std::ostringstream text; rp::PhysicsCommon* lpc = nullptr; rp::DefaultLogger* lg = nullptr;
    if (g.chance(0.5)) { lpc = new rp::PhysicsCommon(); lg = lpc->createDefaultLogger(); lg->addStreamDestination(text, uint(rp::Logger::Level::Information) | uint(rp::Logger::Level::Warning) | uint(rp::Logger::Level::Error), g.chance(0.5) ? rp::DefaultLogger::Format::Text : rp::DefaultLogger::Format::HTML); rp::PhysicsCommon::setLogger(lg); C.count("cases with a shared logger"); }
    std::vector<std::vector<uint64_t>> par(n), alone(n); std::atomic<int> gate{0}; std::vector<std::thread> th;
    for (int i = 0; i < n; i++) { vh::Rng y(g.next()); th.emplace_back([&, i, y] { par[i] = perform(jobs[i], &gate, n, y); }); }
    for (auto& t : th) t.join();
    for (int i = 0; i < n; i++) { alone[i] = perform(jobs[i], nullptr, n, vh::Rng(1)); C.eval(); for (uint64_t h : alone[i]) C.seen(h); if (alone[i] != par[i]) { size_t k = 0; while (k < alone[i].size() && alone[i][k] == par[i][k]) k++; C.fail("thread-result", "thread %d of %d: state after round %zu differs from the one obtained without other threads", i, n, k); } }
    // several worlds of one factory, interleaved, against each of them alone in a factory
    { rp::PhysicsCommon pc; std::vector<std::unique_ptr<Sim>> s; std::vector<std::vector<uint64_t>> d(n); for (int i = 0; i < n; i++) { s.emplace_back(new Sim(pc, jobs[i].seed, jobs[i].o)); s[i]->start(); s[i]->populate(5); }
      bool left = true; std::vector<int> k(n, 0); while (left) { left = false; int i = g.below(n); for (int t = 0; t < n; t++, i = (i + 1) % n) if (k[i] < jobs[i].rounds) { Sim& w = *s[i]; w.mutate(); w.mutate(); w.query(); w.step(w.rndDt()); d[i].push_back(w.digest() ^ w.qh.h); k[i]++; left = true; break; } }
      for (int i = 0; i < n; i++) { C.eval(); if (!std::equal(d[i].begin(), d[i].end(), alone[i].begin())) C.fail("interleaved-worlds", "world %d of %d of one factory behaves otherwise than alone", i, n); s[i]->stop(); } }
    if (lg) { rp::PhysicsCommon::setLogger(nullptr); delete lpc; C.count("characters logged", double(text.str().size())); }
    C.count("threads", n); C.count("worlds", n * 5); for (auto& j : jobs) C.count("rounds", j.rounds * 2);
    if (C.caseIndex % 20 == 0) C.sample("case %ld: %d threads, %d rounds each%s", C.caseIndex, n, jobs[0].rounds, same ? ", same history in every thread" : "");
}
int main(int argc, char** argv) { return vh::runMain(argc, argv, runCase); }
