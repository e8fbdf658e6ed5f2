// C01: random valid API histories under AddressSanitizer, UBSan and the library's own assertions.
#include "world.h"
static void runCase(vh::Ctx& C) {
    WOpt o; vh::Rng g(vh::mix(C.seed, C.caseIndex)); o.ext = g.uniform(1.5, 4); o.maxBodies = g.range(2, C.thorough ? 40 : 16); o.maxJoints = g.range(0, 12); o.maxColliders = g.range(1, 5);
    int nw = g.chance(0.2) ? 2 : 1, rounds = g.range(5, C.thorough ? 160 : 60); double mutRate = g.logUniform(0.3, 8), qRate = g.uniform(0, 3);
    { PC pc; std::vector<std::unique_ptr<Sim>> s;
      for (int i = 0; i < nw; i++) { s.emplace_back(new Sim(pc, vh::mix(C.seed * 7919 + i, C.caseIndex), o)); s[i]->verbose = C.verbose; s[i]->start(); s[i]->populate(g.range(1, o.maxBodies)); }
      for (int k = 0; k < rounds; k++) for (auto& p : s) {
          for (double m = mutRate; m > 0; m -= 1) if (m >= 1 || g.chance(m)) p->mutate();
          if (o.queries) for (double m = qRate; m > 0; m -= 1) if (m >= 1 || g.chance(m)) p->query();
          int n = g.chance(0.2) ? 0 : g.chance(0.1) ? g.range(5, 30) : 1; for (int i = 0; i < n; i++) { p->step(p->rndDt()); C.eval(); }
          if (g.chance(0.3)) C.seen(p->digest());
          if (!p->finiteState()) C.fail("nonfinite", "a body state is not finite after step %ld", p->nSteps);
          if (!p->problems.empty()) C.fail("event-names-dead-object", "%s", p->problems[0].c_str());
      }
      for (auto& p : s) { C.count("steps", p->nSteps); C.count("events", p->nEvents); C.count("contact points", p->nContactPts); C.count("queries", p->nQueries); for (auto& kv : p->opCount) C.count("op " + kv.first, kv.second); C.count("joints", p->joints.size()); C.count("bodies", p->bodies.size()); p->stop(); }
      if (C.caseIndex % 50 == 0) C.sample("case %ld: %d world(s), %d rounds, %zu bodies, %zu joints, %ld events", C.caseIndex, nw, rounds, s[0]->bodies.size(), s[0]->joints.size(), s[0]->nEvents);
    }
    C.count("histories");
}
int main(int argc, char** argv) { return vh::runMain(argc, argv, runCase); }
