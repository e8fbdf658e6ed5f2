// C30: what destinations receive, against a record of every message that was logged.
#include "world.h"
#include <filesystem>
#include <fstream>
#include <mutex>
#include <regex>
#include <set>
#include <sstream>
#include <thread>
#include <unistd.h>
typedef rp::Logger L;
struct Rec { L::Level lv; std::string w; L::Category c; std::string m, f; int line; };
struct Tee : L { L* to = nullptr; std::vector<Rec> rec; std::mutex mx; void log(Level l, const std::string& w, Category c, const std::string& m, const char* f, int n) override { { std::lock_guard<std::mutex> g(mx); rec.push_back({l, w, c, m, f, n}); } if (to) to->log(l, w, c, m, f, n); } };
static const char* lvName(L::Level l) { return l == L::Level::Error ? "Error" : l == L::Level::Warning ? "Warning" : "Information"; }
static const char* catName(L::Category c) { switch (c) { case L::Category::PhysicCommon: return "PhysicsCommon"; case L::Category::World: return "World"; case L::Category::Body: return "Body"; case L::Category::Joint: return "Joint"; default: return "Collider"; } }
static bool admits(int flags, L::Level l) { return flags & 4 ? true : flags & 2 ? l != L::Level::Information : flags & 1 ? l == L::Level::Error : false; }
struct Dest { int flags; bool html; std::ostringstream* s = nullptr; std::string file; size_t from, to = SIZE_MAX; };
static std::string strip(const std::string& s) { std::string o; bool tag = false, sp = false; for (char c : s) { if (c == '<') { tag = true; sp = true; } else if (c == '>') tag = false; else if (!tag) { if (isspace((unsigned char)c)) sp = true; else { if (sp && !o.empty()) o += ' '; sp = false; o += c; } } } return o; }
static std::string lower(std::string s) { for (char& c : s) c = char(tolower(c)); return s; }
static void judge(vh::Ctx& C, const Dest& d, const std::vector<Rec>& rec, const std::string& out, bool ended) {
    const char* kind = d.html ? "HTML" : "text"; size_t pos = 0, n = 0; C.count(std::string("destinations judged: ") + kind + (d.s ? " stream" : " file")); C.eval();
    if (d.html ? out.compare(0, 15, "<!DOCTYPE HTML>") != 0 : out.compare(0, 19, "ReactPhysics3D Logs") != 0) C.fail("header", "a %s destination does not start with its header", kind); if (out.find(rp::RP3D_VERSION) == std::string::npos) C.fail("header-version", "the header of a %s destination names no version", kind);
    pos = d.html ? out.find("<div class='line") : out.find("-----\n"); if (!d.html && pos != std::string::npos) { pos += 6; while (pos < out.size() && (out[pos] == '\n' || out[pos] == '-')) pos++; }
    for (size_t i = d.from; i < std::min(d.to, rec.size()); i++) { auto& r = rec[i]; if (!admits(d.flags, r.lv)) continue; n++; C.eval(); char where[60]; snprintf(where, sizeof where, "message %zu of %zu", i, rec.size()); auto bad = [&](const char* k, const std::string& got) { C.fail(k, "%s destination with levels %d, %s (%s, %s, \"%s\"): it has \"%s\"", kind, d.flags, where, lvName(r.lv), catName(r.c), r.m.c_str(), got.substr(0, 200).c_str()); };
        if (pos == std::string::npos || pos >= out.size()) { bad("missing", "nothing more"); return; }
        if (!d.html) { std::string want = "World:" + r.w + "\n" + lvName(r.lv) + " " + catName(r.c) + " " + r.m + "\n (in file " + r.f + " at line " + std::to_string(r.line) + ")\n"; if (!(isdigit((unsigned char)out[pos]) && out.size() > pos + 9 && out[pos + 2] == ':' && out[pos + 5] == ':' && out[pos + 8] == ' ')) { bad("time", out.substr(pos, 100)); return; } if (out.compare(pos + 9, want.size(), want) != 0) { bad("text", out.substr(pos, want.size() + 9)); return; } pos += 9 + want.size(); }
        else { size_t next = out.find("<div class='line", pos + 1), end = next != std::string::npos ? next : ended ? out.find("</body>", pos) : out.size(); std::string one = out.substr(pos, end - pos), want = r.w + " " + lvName(r.lv) + " " + catName(r.c) + " " + r.m + " (in file " + r.f + " at line " + std::to_string(r.line) + ")"; std::string got = strip(one), w2 = strip(want); if (got.size() < 9 || got.substr(9) != w2) { bad("html", got); return; } if (one.find("'line " + lower(catName(r.c)) + " " + lower(lvName(r.lv)) + "'") == std::string::npos) { bad("html-class", one); return; } pos = next == std::string::npos ? std::string::npos : next; if (next == std::string::npos && end != std::string::npos) pos = std::string::npos; } }
    C.count("messages judged", double(n)); if (d.html ? (pos != std::string::npos && (n > 0 || pos < out.size())) : (pos < out.size() && out.find_first_not_of("\n", pos) != std::string::npos)) C.fail("surplus", "a %s destination with levels %d has more than the %zu messages for it: \"%s\"", kind, d.flags, n, out.substr(pos, 200).c_str());
    if (ended && d.html && (out.find("</html>") == std::string::npos || out.find("</html>") != out.rfind("</html>"))) C.fail("tail", "an HTML destination that was removed has no tail");
}
static std::string word(vh::Rng& g) { static const char* al = "abcdefghijklmnopqrstuvwxyzABC0123456789 _-.,:;=+*/"; std::string s = "m"; int n = g.below(g.chance(0.1) ? 300 : 30); for (int i = 0; i < n; i++) { char c = al[g.below(50)]; if (c == ' ' && s.back() == ' ') c = '.'; s += c; } s += 'z'; return s; }
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void single(vh::Ctx& C) {
    vh::Rng& g = C.rng; char dir[] = "/tmp/vlogXXXXXX"; if (!mkdtemp(dir)) { C.fail("scratch", "no scratch directory"); return; } std::vector<Dest> ds; std::vector<std::unique_ptr<std::ostringstream>> ss; Tee tee;
    { PC pc; rp::DefaultLogger* lg = pc.createDefaultLogger(); rp::DefaultLogger* lg2 = g.chance(0.3) ? pc.createDefaultLogger() : nullptr; tee.to = lg; rp::PhysicsCommon::setLogger(&tee); int nf = 0;
        auto addD = [&]() { static const int fl[] = {0, 1, 2, 3, 4, 6, 7, 7, 3}; Dest d; d.flags = fl[g.below(9)]; d.html = g.chance(0.5); d.from = tee.rec.size(); auto f = d.html ? rp::DefaultLogger::Format::HTML : rp::DefaultLogger::Format::Text; if (g.chance(0.7)) { ss.emplace_back(new std::ostringstream); d.s = ss.back().get(); lg->addStreamDestination(*d.s, rp::uint(d.flags), f); } else { d.file = std::string(dir) + "/f" + std::to_string(nf++); lg->addFileDestination(d.file, rp::uint(d.flags), f); } ds.push_back(d); };
        for (int i = g.below(4); i > 0; i--) addD(); std::vector<rp::PhysicsWorld*> ws; std::vector<std::string> names; for (int i = 0; i < 2; i++) { rp::PhysicsWorld::WorldSettings s; s.worldName = word(g); names.push_back(s.worldName); size_t r0 = tee.rec.size(); ws.push_back(pc.createPhysicsWorld(s)); for (size_t k = r0; k < tee.rec.size(); k++) if (tee.rec[k].w != names.back() && tee.rec[k].w != "PhysicsCommon") C.fail("world-name", "a message about the creation of world '%s' names '%s'", names.back().c_str(), tee.rec[k].w.c_str()); }
        std::vector<std::vector<rp::RigidBody*>> bs(2); std::vector<std::vector<rp::Joint*>> js(2); auto* box = pc.createBoxShape(rv(V(1, 1, 1))); auto* sph = pc.createSphereShape(1); int n = g.range(5, 40);
        for (int k = 0; k < n; k++) { int wi = g.below(2); auto* w = ws[size_t(wi)]; auto& B = bs[size_t(wi)]; size_t r0 = tee.rec.size(); bool direct = false; std::string err; rp::RigidBody* b = B.empty() ? nullptr : g.pick(B); bool must = false;
            switch (g.below(16)) { case 0: addD(); direct = true; break; case 1: if (g.chance(0.2)) { lg->removeAllDestinations(); for (auto& d : ds) if (d.to == SIZE_MAX) d.to = tee.rec.size(); } direct = true; break;
                case 2: case 3: case 4: { L::Level lv = g.chance(0.3) ? L::Level::Error : g.chance(0.5) ? L::Level::Warning : L::Level::Information; auto c = L::Category(g.below(5)); std::string f = word(g); (g.chance(0.5) ? (L*)&tee : rp::PhysicsCommon::getLogger())->log(lv, word(g), c, word(g), f.c_str(), g.below(100000)); direct = true; break; }
                case 5: case 6: B.push_back(w->createRigidBody(rt(rndBox(g, 5), rndOrient(g)))); must = true; break; case 7: if (b) b->addCollider(g.chance(0.5) ? (rp::CollisionShape*)box : sph, rp::Transform::identity()), must = true; break;
                case 8: if (B.size() > 1 && B[0] != B[1]) { rp::BallAndSocketJointInfo i(B[0], B[1], rp::Vector3(0, 0, 0)); js[size_t(wi)].push_back(w->createJoint(i)); must = true; } break; case 9: if (!js[size_t(wi)].empty()) { w->destroyJoint(js[size_t(wi)].back()); js[size_t(wi)].pop_back(); must = true; } break;
                case 10: if (b) { decimal m = b->getMass(); b->setMass(decimal(-1)); err = "a negative mass"; C.eval(); if (b->getMass() != m) C.fail("error-changes", "a negative mass that was refused changed the mass"); } break;
                case 11: if (b && g.chance(0.5)) b->setMass(decimal(g.uniform(0.1, 5))), must = true; else w->setGravity(rp::Vector3(0, -1, 0)), must = true; break; case 12: w->update(decimal(1 / 60.0)); break;
                case 13: { std::vector<rp::Message> ms; std::vector<rp::Vector3> v = {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}}; rp::VertexArray va(v.data(), sizeof(rp::Vector3), g.chance(0.5) ? 3 : 2, DBL ? rp::VertexArray::DataType::VERTEX_DOUBLE_TYPE : rp::VertexArray::DataType::VERTEX_FLOAT_TYPE); auto* m = pc.createConvexMesh(va, ms); C.eval(); if (m || ms.empty()) C.fail("hull-message", "points on a line are not refused with a message"); direct = true; break; }
                case 14: { std::vector<rp::Message> ms; std::vector<rp::Vector3> v = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}; std::vector<rp::uint32> ix = {0, 1, rp::uint32(g.chance(0.5) ? 7 : 1)}; rp::TriangleVertexArray ta(3, v.data(), sizeof(rp::Vector3), 1, ix.data(), 3 * sizeof(rp::uint32), DBL ? rp::TriangleVertexArray::VertexDataType::VERTEX_DOUBLE_TYPE : rp::TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, rp::TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); auto* m = pc.createTriangleMesh(ta, ms); C.eval(); if (m || ms.empty()) C.fail("mesh-message", "a triangle mesh without a valid triangle is not refused with a message"); direct = true; break; }
                default: if (b && g.chance(0.3)) { for (auto* j : js[size_t(wi)]) w->destroyJoint(j); js[size_t(wi)].clear(); w->destroyRigidBody(b); B.erase(std::find(B.begin(), B.end(), b)); must = true; } else if (b) { b->setTransform(rt(rndBox(g, 5), rndOrient(g))); must = true; } }
            if (direct) continue; bool error = false; for (size_t q = r0; q < tee.rec.size(); q++) { auto& r = tee.rec[q]; error |= r.lv == L::Level::Error; C.eval(); if (r.w != names[size_t(wi)]) C.fail("world-name", "\"%s\" about an operation in world '%s' names '%s'", r.m.c_str(), names[size_t(wi)].c_str(), r.w.c_str()); if (r.lv == L::Level::Error && err.empty()) C.fail("error-invented", "an ordinary operation is reported as an error: %s", r.m.c_str()); } C.eval(); if (!err.empty() && !error) C.fail("error-silent", "%s is not reported as an error", err.c_str()); if (must && tee.rec.size() == r0) C.fail("silent", "an operation on the world is not logged"); C.count("operations logged"); }
        uint64_t h = tee.rec.size(); for (auto& r : tee.rec) h = vh::mix(h, vh::hashBytes(r.m.data(), r.m.size())); C.seen(h); bool end = g.chance(0.5); if (end) lg->removeAllDestinations(); size_t total = tee.rec.size();
        if (end) { for (auto& d : ds) if (d.to == SIZE_MAX) d.to = total; for (auto& d : ds) judge(C, d, tee.rec, d.s ? d.s->str() : slurp(d.file), true); } else for (auto& d : ds) if (d.to == SIZE_MAX && d.s) judge(C, d, tee.rec, d.s->str(), false);
        if (g.chance(0.3) && lg2) { rp::PhysicsCommon::setLogger(lg2); if (g.chance(0.5)) pc.destroyDefaultLogger(lg2); } else rp::PhysicsCommon::setLogger(g.chance(0.5) ? nullptr : (L*)lg); if (rp::PhysicsCommon::getLogger() == lg && g.chance(0.5)) { pc.destroyDefaultLogger(lg); ws[0]->createRigidBody(rp::Transform::identity()); } }
    { PC pc2; pc2.createPhysicsWorld()->createRigidBody(rp::Transform::identity()); C.eval(); if (rp::PhysicsCommon::getLogger() != nullptr && rp::PhysicsCommon::getLogger() != &tee) C.fail("stale", "the logger of a factory that is gone is still the current one"); } rp::PhysicsCommon::setLogger(nullptr); std::error_code ec; std::filesystem::remove_all(dir, ec);
}
static void threads(vh::Ctx& C) { // worlds of several factories in several threads log through one logger
    vh::Rng& g = C.rng; std::ostringstream o, o2; PC pc; auto* lg = pc.createDefaultLogger(); lg->addStreamDestination(o, 7, rp::DefaultLogger::Format::Text); lg->addStreamDestination(o2, 7, rp::DefaultLogger::Format::HTML); rp::PhysicsCommon::setLogger(lg); int n = g.range(2, 6), m = g.range(5, 40); std::vector<std::thread> ts; std::vector<uint64_t> seeds; for (int i = 0; i < n; i++) seeds.push_back(g.next());
    for (int t = 0; t < n; t++) ts.emplace_back([&, t] { vh::Rng q(seeds[size_t(t)]); PC mine; rp::PhysicsWorld::WorldSettings s; s.worldName = "t" + std::to_string(t); auto* w = mine.createPhysicsWorld(s); for (int k = 0; k < m; k++) { lg->log(L::Level::Warning, s.worldName, L::Category::World, "n" + std::to_string(k) + std::string(size_t(q.below(200)), char('a' + t)) + "e", "file.cpp", k); if (q.chance(0.2)) w->createRigidBody(rp::Transform::identity()); if (q.chance(0.1)) w->update(decimal(0.016)); if (q.chance(0.1)) std::this_thread::yield(); } }); for (auto& t : ts) t.join();
    rp::PhysicsCommon::setLogger(nullptr); std::string out = o.str(); std::istringstream in(out); std::string line; std::vector<int> next(size_t(n), 0); std::string world; int interleaved = 0, last = -1; uint64_t h = 0;
    std::regex re("^Warning World n([0-9]+)([a-z]*)e$"); while (std::getline(in, line)) { size_t p = line.find(" World:"); if (p == 8) { world = line.substr(15); continue; } std::smatch mt; if (line.compare(0, 13, "Warning World") == 0) { C.eval(); if (!std::regex_match(line, mt, re)) { C.fail("mangled", "a line is mangled: %s", line.substr(0, 150).c_str()); break; } int t = world.size() > 1 && world[0] == 't' ? atoi(world.c_str() + 1) : -1, k = atoi(mt[1].str().c_str()); std::string fill = mt[2].str(); if (t < 0 || t >= n || fill.find_first_not_of(char('a' + t)) != std::string::npos) { C.fail("mixed", "the text of one thread stands under the world of another: %s", line.substr(0, 100).c_str()); break; } if (k != next[size_t(t)]) { C.fail("order", "thread %d: message %d follows %d", t, k, next[size_t(t)] - 1); break; } next[size_t(t)]++; interleaved += t != last; last = t; h = vh::mix(h, uint64_t(t)); } }
    for (int t = 0; t < n; t++) if (next[size_t(t)] != m) C.fail("lost", "thread %d logged %d messages, %d arrived", t, m, next[size_t(t)]); C.count("messages of threads", double(n * m)); C.count("changes of thread between messages", double(interleaved)); C.seen(h);
    size_t c = 0; for (size_t p = o2.str().find("<div class='line"); p != std::string::npos; p = o2.str().find("<div class='line", p + 1)) c++; size_t c1 = 0; for (size_t p = out.find(" (in file "); p != std::string::npos; p = out.find(" (in file ", p + 1)) c1++; C.eval(); if (c != c1) C.fail("destinations-differ", "%zu messages in one destination, %zu in the other", c1, c);
}
int main(int c, char** v) { return vh::runMain(c, v, [](vh::Ctx& C) { if (C.mode == "threads") threads(C); else single(C); }); }
