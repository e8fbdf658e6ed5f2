// C02: memory discipline. Modes: "drive" (the internal allocators alone), "" (random histories of the whole library over a recording allocator),
// "cycles" (repeated create/simulate/destroy cycles must not hold ever more memory).
#include "world.h"
#include <unordered_map>
#include <map>
#include <sys/mman.h>
#include <sstream>

// Checks everything that reaches the user's allocator. style 0: own block with guard zones; 1: blocks side by side in one arena, address order reused at random.
struct RecAlloc : rp::MemoryAllocator {
    vh::Ctx& C; int style; vh::Rng g; std::map<uintptr_t, size_t> live; size_t bytes = 0, peak = 0; long nAlloc = 0, nRel = 0;
    static constexpr size_t CAP = size_t(1) << 32; char* base = nullptr; size_t top = 0; std::map<size_t, std::vector<void*>> freeL; long fails = 0;
    RecAlloc(vh::Ctx& C, int style, uint64_t seed) : C(C), style(style), g(seed) { if (style == 1) { base = (char*)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) { perror("mmap"); abort(); } } }
    ~RecAlloc() override { if (base) munmap(base, CAP); else for (auto& l : live) free((char*)l.first - 64); }
    void* allocate(size_t n) override {
        size_t s = std::max<size_t>(16, (n + 15) / 16 * 16); char* p; nAlloc++;
        if (style == 0) { if (posix_memalign((void**)&p, 64, s + 128)) abort(); memset(p, 0xA5, 64); memset(p + 64 + n, 0xA5, s - n + 64); p += 64; memset(p, 0xCD, n); }
        else { auto& f = freeL[s]; if (!f.empty() && g.chance(0.8)) { p = (char*)f.back(); f.pop_back(); } else { p = base + top; top += s; if (top > CAP) { fprintf(stderr, "arena exhausted\n"); abort(); } } memset(p, 0xCD, n < (1 << 20) ? n : (1 << 20)); }
        live[(uintptr_t)p] = n; bytes += n; peak = std::max(peak, bytes); return p;
    }
    void release(void* q, size_t n) override {
        nRel++; C.eval(); auto it = live.find((uintptr_t)q);
        if (it == live.end()) { C.fail("release-unknown", "a pointer that is not a live block was released (quoting %zu bytes)", n); return; }
        if (it->second != n) { C.fail("release-size", "a block obtained with %zu bytes was released quoting %zu", it->second, n); n = it->second; }
        check(it->first, n); live.erase(it); bytes -= n; char* p = (char*)q; size_t s = std::max<size_t>(16, (n + 15) / 16 * 16);
        if (style == 0) { memset(p, 0xEE, n); free(p - 64); } else freeL[s].push_back(p);
    }
    void check(uintptr_t a, size_t n) {
        if (style) return; size_t s = std::max<size_t>(16, (n + 15) / 16 * 16); unsigned char* p = (unsigned char*)a;
        for (int i = 1; i <= 64; i++) if (p[-i] != 0xA5) { C.fail("write-outside", "the library wrote %d bytes before a block of %zu bytes", i, n); return; }
        for (size_t i = n; i < s + 64; i++) if (p[i] != 0xA5) { C.fail("write-outside", "the library wrote %zu bytes past a block of %zu bytes", i - n, n); return; }
    }
    void checkAll() { for (auto& l : live) check(l.first, l.second); }
    // the block lies inside memory obtained from here
    bool owns(uintptr_t a, size_t n) { auto it = live.upper_bound(a); if (it == live.begin()) return false; --it; return a >= it->first && a + n <= it->first + it->second; }
};

struct Blk { unsigned char* p; size_t n; unsigned char seed; };
static void fillB(const Blk& b) { for (size_t i = 0; i < b.n; i++) b.p[i] = (unsigned char)(b.seed + i * 31); }
static bool okB(const Blk& b) { for (size_t i = 0; i < b.n; i++) if (b.p[i] != (unsigned char)(b.seed + i * 31)) return false; return true; }
static size_t rndSize(vh::Rng& g) { switch (g.below(8)) { case 0: return 1 + g.below(16); case 1: case 2: return 1 + g.below(1024); case 3: return 8 * (1 + g.below(128)); case 4: return 1020 + g.below(10); case 5: return 1 + size_t(g.logUniform(1, 20000)); case 6: return g.chance(0.1) ? size_t(g.logUniform(20000, 3000000)) : 16 + g.below(200); default: return 1 + g.below(64); } }

template<class A> static void driveOne(vh::Ctx& C, const char* name, A& al, RecAlloc* rec, bool frame, const std::function<void()>& reset, vh::Rng g) {
    std::vector<Blk> v; std::map<uintptr_t, size_t> iv; int n = g.range(20, C.thorough ? 4000 : 1200); size_t total = 0;
    auto rel = [&](size_t i) { Blk b = v[i]; if (!okB(b)) C.fail(std::string(name) + "-content", "the content of a live block of %zu bytes was changed", b.n); iv.erase((uintptr_t)b.p); total -= b.n; al.release(b.p, b.n); v[i] = v.back(); v.pop_back(); };
    for (int k = 0; k < n; k++) {
        double bias = 0.5 + 0.45 * std::sin(k * 0.01 * (1 + g.below(2)));
        if (v.empty() || (g.chance(bias) && total < (size_t(24) << 20))) {
            size_t s = rndSize(g); Blk b{(unsigned char*)al.allocate(s), s, (unsigned char)g.below(256)}; C.eval(); C.seen(vh::mix(vh::hashStr(name), s * 64 + std::min<size_t>(v.size(), 63)));
            if (!b.p) { C.fail(std::string(name) + "-null", "allocate(%zu) gave null", s); continue; }
            if ((uintptr_t)b.p % 16) C.fail(std::string(name) + "-alignment", "block of %zu bytes at an address that is not a multiple of 16", s);
            auto it = iv.lower_bound((uintptr_t)b.p); bool ov = it != iv.end() && it->first < (uintptr_t)b.p + s; if (it != iv.begin()) { --it; ov |= it->first + it->second > (uintptr_t)b.p; }
            if (ov) { C.fail(std::string(name) + "-overlap", "a block of %zu bytes overlaps a live block", s); return; }
            if (rec && !rec->owns((uintptr_t)b.p, s)) { C.fail(std::string(name) + "-foreign", "a block of %zu bytes does not lie within memory obtained from the base allocator", s); return; }
            iv[(uintptr_t)b.p] = s; fillB(b); v.push_back(b); total += s;
        } else rel(g.below(uint32_t(v.size())));
        if (frame && g.chance(0.02)) { // end of the frame: what has not been released inside the buffer dies with it; blocks outside must be released by their owner
            while (!v.empty()) rel(v.size() - 1); reset(); C.count("frames"); }
        if (g.chance(0.002)) while (!v.empty()) rel(g.below(uint32_t(v.size())));
    }
    for (auto& b : v) if (!okB(b)) C.fail(std::string(name) + "-content", "the content of a live block of %zu bytes was changed", b.n);
    while (!v.empty()) rel(g.below(uint32_t(v.size())));
    C.count(std::string("requests ") + name, n); if (rec) rec->checkAll();
}
static void drive(vh::Ctx& C) {
    vh::Rng g = C.rng; int style = g.below(2); RecAlloc rec(C, style, g.next()); size_t init = g.chance(0.3) ? 0 : g.chance(0.5) ? 64 + 16 * g.below(100) : 4096 + g.below(200000);
    {
        rp::HeapAllocator heap(rec, init);
        { rp::PoolAllocator pool(heap); rp::SingleFrameAllocator fr(heap); vh::Rng a(g.next()), b(g.next()), c(g.next()); int cyc = g.range(1, 3);
          for (int k = 0; k < cyc; k++) { // the three in turn, over the same heap
            driveOne(C, "heap", heap, &rec, false, [] {}, a); driveOne(C, "pool", pool, &rec, false, [] {}, b); driveOne(C, "frame", fr, &rec, true, [&] { fr.reset(); }, c);
          }
          // no growth when exactly the same requests are repeated
          std::vector<size_t> foot; vh::Rng s(g.next()); for (int k = 0; k < 8; k++) { driveOne(C, "heap", heap, &rec, false, [] {}, s); driveOne(C, "pool", pool, &rec, false, [] {}, s); fr.reset(); driveOne(C, "frame", fr, &rec, true, [&] { fr.reset(); }, s); fr.reset(); foot.push_back(rec.bytes); }
          C.eval(); if (foot[7] > foot[3]) C.fail("drive-growth", "repeating identical requests: memory held went from %zu to %zu bytes", foot[3], foot[7]);
        }
    }
    if (!rec.live.empty()) C.fail("drive-leak", "%zu blocks (%zu bytes) were not given back when the allocators were destroyed", rec.live.size(), rec.bytes);
    C.maxi("largest footprint", double(rec.peak)); C.count("drives");
}
static WOpt rndOpt(vh::Rng& g, bool thorough) { WOpt o; o.ext = g.uniform(1.5, 4); o.maxBodies = g.range(2, thorough ? 40 : 16); o.maxJoints = g.range(0, 12); o.maxColliders = g.range(1, 5); return o; }
static void crowd(Sim& s, vh::Rng& g, int n) { // many overlapping bodies: the buffer of the frame overflows
    int sh = s.mkShape(false); for (int i = 0; i < n; i++) { int b = s.addBody(rt(rndBox(g, 1.2), rndOrient(g)), rp::BodyType::DYNAMIC); s.addCollider(b, sh, rp::Transform::identity()); }
}
static void histories(vh::Ctx& C) {
    vh::Rng g(vh::mix(C.seed * 13 + 5, C.caseIndex)); int style = g.below(2); RecAlloc rec(C, style, g.next());
    int nw = g.chance(0.3) ? 2 : 1, rounds = g.range(3, C.thorough ? 80 : 30); double mr = g.logUniform(0.3, 8), qr = g.uniform(0, 2);
    {
        rp::PhysicsCommon pc(&rec); std::vector<std::unique_ptr<Sim>> s; rp::DefaultLogger* lg = nullptr; std::ostringstream ls;
        if (g.chance(0.3)) { lg = pc.createDefaultLogger(); lg->addStreamDestination(ls, rp::uint32(rp::Logger::Level::Information) | rp::uint32(rp::Logger::Level::Error), rp::DefaultLogger::Format::Text); pc.setLogger(lg); }
        for (int i = 0; i < nw; i++) { s.emplace_back(new Sim(pc, vh::mix(C.seed * 7919 + i, C.caseIndex), rndOpt(g, C.thorough))); s[i]->verbose = C.verbose; s[i]->start(); s[i]->populate(g.range(1, 10)); }
        if (g.chance(0.1)) { crowd(*s[0], g, C.thorough ? 120 : 45); rounds = std::min(rounds, 6); C.count("crowds"); }
        for (int k = 0; k < rounds; k++) for (auto& p : s) {
            for (double m = mr; m > 0; m -= 1) if (m >= 1 || g.chance(m)) p->mutate();
            for (double m = qr; m > 0; m -= 1) if (m >= 1 || g.chance(m)) p->query();
            if (!g.chance(0.2)) p->step(p->rndDt());
            if (g.chance(0.1)) rec.checkAll();
            C.seen(p->digest());
        }
        for (auto& p : s) { C.count("steps", p->nSteps); C.count("events", p->nEvents); p->stop(); }
        if (lg) { pc.setLogger(nullptr); if (g.chance(0.5)) pc.destroyDefaultLogger(lg); }
    }
    C.eval(); if (!rec.live.empty()) { size_t n = rec.live.size(), first = rec.live.begin()->second; C.fail("leak", "%zu blocks (%zu bytes) were not given back when the factory was destroyed, the first has %zu bytes", n, rec.bytes, first); }
    C.count("requests", rec.nAlloc); C.count("releases", rec.nRel); C.maxi("largest footprint", double(rec.peak)); C.count("histories");
    if (C.caseIndex % 50 == 0) C.sample("case %ld: %d worlds, %d rounds, %ld requests reached the user's allocator, peak %zu bytes", C.caseIndex, nw, rounds, rec.nAlloc, rec.peak);
}
static void cycles(vh::Ctx& C) {
    vh::Rng g(vh::mix(C.seed * 17 + 3, C.caseIndex)); RecAlloc rec(C, 0, g.next()); uint64_t seed = g.next(); WOpt o = rndOpt(g, false); o.maxBodies = 20; int kind = g.below(3);
    {
        rp::PhysicsCommon pc(&rec); std::vector<size_t> foot; std::unique_ptr<Sim> keep; std::vector<long> held;
        if (kind == 1) { keep.reset(new Sim(pc, seed, o)); keep->start(); }
        int N = C.thorough ? 60 : 14; if (kind == 1) N = C.thorough ? 500 : 150;   // entity indices are recycled only beyond a thousand free ones
        for (int k = 0; k < N; k++) {
            if (kind == 0) { Sim s(pc, seed, o); s.start(); s.populate(6); for (int i = 0; i < 12; i++) { s.mutate(); s.query(); s.step(1.0 / 60); }
                for (int j : s.liveJ()) { s.joints[j].alive = false; s.w->destroyJoint(s.joints[j].j); } for (int b : s.liveB()) s.destroyBody(b); pc.destroyPhysicsWorld(s.w); for (int i : s.liveS()) s.freeShape(i); }
            else if (kind == 1) { Sim& s = *keep; s.r = vh::Rng(seed); s.rq = vh::Rng(seed + 1); s.populate(14); for (int i = 0; i < 5; i++) { s.mutate(); s.query(); s.step(1.0 / 60); }
                for (int j : s.liveJ()) { s.joints[j].alive = false; s.w->destroyJoint(s.joints[j].j); } for (int b : s.liveB()) s.destroyBody(b); s.step(1.0 / 60); for (int i : s.liveS()) s.freeShape(i); }
            else { vh::Rng q(seed); for (int i = 0; i < 12; i++) { Sh h = rndShape(pc, q, 1, allKinds()); Sim t(pc, 1); t.shapes.push_back({h, 0, true}); t.freeShape(0); } }
            foot.push_back(rec.bytes); held.push_back(long(rec.live.size())); C.eval();
        }
        int h = kind == 1 ? N * 3 / 5 : N / 2; if (foot[N - 1] > foot[h] || held[N - 1] > held[h]) C.fail("cycle-growth", "after %d identical create/simulate/destroy cycles (kind %d) the library holds %zu bytes in %ld blocks, after %d cycles %zu in %ld", N, kind, foot[N - 1], held[N - 1], h + 1, foot[h], held[h]);
        C.seen(vh::mix(kind, foot[N - 1])); C.count("cycles", N);
        if (keep) pc.destroyPhysicsWorld(keep->w);
    }
    if (!rec.live.empty()) C.fail("leak", "%zu blocks were not given back when the factory was destroyed", rec.live.size());
}
static void runCase(vh::Ctx& C) { if (C.mode == "drive") drive(C); else if (C.mode == "cycles") cycles(C); else histories(C); }
int main(int argc, char** argv) { return vh::runMain(argc, argv, runCase); }
