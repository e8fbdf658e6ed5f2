// C24: the internal containers against executable models, with life-cycle tracking of every element.
#include "rp.h"
#include <reactphysics3d/containers/Stack.h>
#include <reactphysics3d/containers/Deque.h>
#include <reactphysics3d/containers/LinkedList.h>
#include <reactphysics3d/containers/Set.h>
#include <reactphysics3d/containers/Map.h>
#include <deque>
#include <set>
using namespace vh;

static long gLive = 0, gBadLife = 0;
struct Tok { int v; };
// Element whose life cycle is observable. Relocatable by memmove (the array does that) but not copyable bytewise.
struct El {
    int v; Tok* t; unsigned magic;
    El(int x = 0) : v(x), t(new Tok{x}), magic(0xE1E1E1E1u) { gLive++; }
    El(const El& o) : v(o.v), t(new Tok{o.v}), magic(0xE1E1E1E1u) { if (o.magic != 0xE1E1E1E1u || o.t->v != o.v) gBadLife++; gLive++; }
    El& operator=(const El& o) { if (magic != 0xE1E1E1E1u || o.magic != 0xE1E1E1E1u) gBadLife++; v = o.v; t->v = o.v; return *this; }
    ~El() { if (magic != 0xE1E1E1E1u) { gBadLife++; return; } magic = 0xDEADDEADu; delete t; t = nullptr; gLive--; }
    bool operator==(const El& o) const { return v == o.v; }
    bool operator!=(const El& o) const { return v != o.v; }
    bool ok() const { return magic == 0xE1E1E1E1u && t->v == v; }
};
static int gHashMode = 0;
namespace std { template<> struct hash<El> { size_t operator()(const El& e) const {
    switch (gHashMode) { case 0: return size_t(e.v); case 1: return size_t(e.v % 7); case 2: return 42; case 3: return size_t(e.v) * 0x9E3779B97F4A7C15ull; default: return size_t(e.v) << 32; } } }; }

// allocator that checks every release and the sizes
struct ChkAlloc : rp::MemoryAllocator {
    std::map<void*, size_t> live; long bad = 0, n = 0;
    void* allocate(size_t s) override { void* p = nullptr; if (posix_memalign(&p, 16, s ? s : 1)) return nullptr; memset(p, 0xFF, s); live[p] = s; n++; return p; }
    void release(void* p, size_t s) override { auto it = live.find(p); if (it == live.end() || it->second != s) { bad++; if (it == live.end()) return; } live.erase(it); free(p); }
};

static void lifeCheck(Ctx& c, const char* w, long expect) {
    c.eval();
    if (gBadLife) { c.fail(std::string(w) + ":element-life", "%s: an element was copied from or destroyed outside its life time (%ld times)", w, gBadLife); gBadLife = 0; }
    if (gLive != expect) { c.fail(std::string(w) + ":element-count", "%s: %ld live elements, the containers hold %ld", w, gLive, expect); gLive = expect; }
}

// ---------------------------------------------------------------- Array
template<class T> static int val(const T& t) { return t; }
template<> int val(const El& e) { return e.v; }
template<class T> static void arrays(Ctx& c, ChkAlloc& al, bool tracked) {
    Rng& r = c.rng; const int K = 3; std::vector<rp::Array<T>*> a; std::vector<std::vector<int>> m(K);
    for (int i = 0; i < K; i++) { int cap = r.chance(0.5) ? 0 : r.range(1, 40); a.push_back(new rp::Array<T>(al, cap)); if (int(a[i]->capacity()) < cap) c.fail("array:capacity", "constructor capacity"); }
    auto fails = [&](const char* k, int i) { std::string s; for (int x : m[i]) s += std::to_string(x) + ","; c.fail(std::string("array:") + k, "array: %s; model %s", k, s.substr(0, 200).c_str()); };
    auto check = [&](int i, const char* op) {
        rp::Array<T>& x = *a[i]; auto& y = m[i]; c.eval();
        if (x.size() != y.size()) { fails((std::string(op) + "/size").c_str(), i); return; }
        if (x.capacity() < x.size()) fails("capacity", i);
        for (size_t k = 0; k < y.size(); k++) if (val(x[k]) != y[k]) { fails((std::string(op) + "/content").c_str(), i); return; }
        size_t n = 0; for (auto it = x.begin(); it != x.end(); ++it, ++n) if (n >= y.size() || val(*it) != y[n]) { fails("iteration", i); return; }
        if (n != y.size()) fails("iteration-length", i);
        if (x.end() - x.begin() != std::ptrdiff_t(y.size())) fails("iterator-distance", i);
        n = y.size(); auto it = x.end(); while (it != x.begin()) { --it; --n; if (val(*it) != y[n]) { fails("reverse-iteration", i); return; } }
        if (!y.empty()) { size_t k = r.below(unsigned(y.size())); if (val(*(x.begin() + k)) != y[k] || val(*(x.end() - (y.size() - k))) != y[k]) fails("iterator-arith", i);
            auto p = x.begin(); p += k; auto q = x.begin(); if (!(p >= q) || (k > 0) != (p > q) || (k > 0) != (q < p) || !(q <= p)) fails("iterator-order", i); auto b = p++; if (val(*b) != y[k] || p - b != 1) fails("iterator-postinc", i); b = p--; if (b - p != 1) fails("iterator-postdec", i); }
        for (size_t k = 0; k < y.size(); k++) if (!tracked) break; else if (!reinterpret_cast<const El*>(&x[k])->ok()) { fails("element-corrupt", i); return; }
        uint64_t h = hashBytes(y.data(), y.size() * sizeof(int)); c.seen(mix(h, hashStr(op)));
    };
    int ops = r.range(20, c.thorough ? 400 : 160); int range = r.pick(std::vector<int>{4, 50, 100000});
    for (int k = 0; k < ops; k++) {
        int i = int(r.below(K)), j = int(r.below(K)); rp::Array<T>& x = *a[i]; auto& y = m[i]; int v = r.range(0, range); const char* op = "";
        size_t n = y.size();
        switch (r.below(14)) {
        case 0: case 1: case 2: op = "add"; { int cnt = r.chance(0.2) ? r.range(1, 40) : 1; for (int q = 0; q < cnt; q++) { x.add(T(v + q)); y.push_back(v + q); } } break;
        case 3: op = "emplace"; x.emplace(v); y.push_back(v); break;
        case 4: if (n) { op = "removeAt"; size_t p = r.below(unsigned(n)); auto it = x.removeAt(p); y.erase(y.begin() + p); if (p < y.size() ? (it == x.end() || val(*it) != y[p]) : it != x.end()) fails("removeAt-iterator", i); } break;
        case 5: if (n) { op = "removeValue"; int w = y[r.below(unsigned(n))]; x.remove(T(w)); y.erase(std::find(y.begin(), y.end(), w)); } break;
        case 6: if (n) { op = "replaceByLast"; size_t p = r.below(unsigned(n)); x.removeAtAndReplaceByLast(p); y[p] = y.back(); y.pop_back(); } break;
        case 7: { op = "find"; auto it = x.find(T(v)); auto f = std::find(y.begin(), y.end(), v); if (f == y.end() ? it != x.end() : (it == x.end() || it - x.begin() != f - y.begin())) fails("find", i); } break;
        case 8: if (i != j && n + m[j].size() < 3000) { op = "addRange"; size_t s = r.below(unsigned(m[j].size() + 1)); if (r.chance(0.5)) s = 0; x.addRange(*a[j], s); y.insert(y.end(), m[j].begin() + s, m[j].end()); } break;
        case 9: { op = "reserve"; size_t cap = r.below(unsigned(n * 2 + 20)); x.reserve(cap); if (x.capacity() < cap) fails("reserve", i); } break;
        case 10: if (r.chance(0.3)) { op = "clear"; bool rel = r.chance(0.5); x.clear(rel); y.clear(); if (rel && x.capacity() != 0) fails("clear-release", i); } break;
        case 11: op = "assign"; x = *a[j]; m[i] = std::vector<int>(m[j]); break;
        case 12: { op = "copy"; rp::Array<T>* z = new rp::Array<T>(*a[j]); delete a[i]; a[i] = z; if (i != j) m[i] = m[j]; } break;
        case 13: { op = "equal"; bool e = m[i] == m[j]; if ((*a[i] == *a[j]) != e || (*a[i] != *a[j]) == e) fails("equality", i); if (n && i != j && !m[i].empty()) { size_t p = r.below(unsigned(m[i].size())); (*a[i])[p] = T(v); m[i][p] = v; } } break;
        }
        c.count("array-ops");
        for (int q = 0; q < K; q++) check(q, op);      // all of them: an operation on one must not touch the others
        if (tracked) { long e = 0; for (auto& q : m) e += long(q.size()); lifeCheck(c, "array", e); }
    }
    if (!tracked) { // uninitialised growth
        rp::Array<T>& x = *a[0]; size_t n = x.size(); size_t add = r.below(60); x.addWithoutInit(add); c.eval(); if (x.size() != n + add || x.capacity() < x.size()) fails("addWithoutInit", 0); for (size_t k = 0; k < n; k++) if (val(x[k]) != m[0][k]) { fails("addWithoutInit/content", 0); break; } for (size_t k = n; k < x.size(); k++) x[k] = T(7); }
    for (auto* x : a) delete x;
}

// ---------------------------------------------------------------- Deque
static void deques(Ctx& c, ChkAlloc& al) {
    Rng& r = c.rng; const int K = 3; std::vector<rp::Deque<El>*> a; std::vector<std::deque<int>> m(K);
    for (int i = 0; i < K; i++) a.push_back(new rp::Deque<El>(al));
    auto fails = [&](const char* k, int i) { std::string s; for (int x : m[i]) s += std::to_string(x) + ","; c.fail(std::string("deque:") + k, "deque: %s; model (size %zu) %s", k, m[i].size(), s.substr(0, 200).c_str()); };
    auto check = [&](int i, const char* op) {
        rp::Deque<El>& x = *a[i]; auto& y = m[i]; c.eval();
        if (x.size() != y.size()) { fails((std::string(op) + "/size").c_str(), i); return; }
        for (size_t k = 0; k < y.size(); k++) if (x[k].v != y[k] || !x[k].ok()) { fails((std::string(op) + "/content").c_str(), i); return; }
        size_t n = 0; for (auto it = x.begin(); it != x.end(); ++it, ++n) if (n >= y.size() || (*it).v != y[n]) { fails("iteration", i); return; }
        if (n != y.size() || x.end() - x.begin() != std::ptrdiff_t(y.size())) fails("iteration-length", i);
        if (!y.empty()) { if (x.getFront().v != y.front() || x.getBack().v != y.back()) fails("front-back", i);
            size_t k = r.below(unsigned(y.size())); auto p = x.begin() + k; if ((*p).v != y[k] || p->v != y[k]) fails("iterator-arith", i); auto q = x.end() - (y.size() - k); if (!(p == q)) fails("iterator-equal", i); auto b = p++; if (p - b != 1 || !(b < p)) fails("iterator-postinc", i); b = p--; if (b - p != 1 || !(b > p)) fails("iterator-postdec", i); }
        uint64_t h = hashStr(op); for (int v : y) h = mix(h, v); c.seen(h);
    };
    int ops = r.range(20, c.thorough ? 500 : 200); double bias = r.uniform(0.2, 0.8), front = r.unit();
    for (int k = 0; k < ops; k++) {
        int i = int(r.below(K)), j = int(r.below(K)); const char* op = ""; int v = r.range(0, 1000);
        if (k % 40 == 39) { bias = r.uniform(0.1, 0.9); front = r.unit(); }
        if (r.chance(0.85)) { int cnt = r.chance(0.1) ? r.range(2, 30) : 1;
            for (int q = 0; q < cnt; q++) if (r.chance(bias)) { if (r.chance(front)) { op = "addFront"; a[i]->addFront(El(v + q)); m[i].push_front(v + q); } else { op = "addBack"; a[i]->addBack(El(v + q)); m[i].push_back(v + q); } }
            else if (r.chance(front)) { op = "popBack"; a[i]->popBack(); if (!m[i].empty()) m[i].pop_back(); } else { op = "popFront"; a[i]->popFront(); if (!m[i].empty()) m[i].pop_front(); } }
        else switch (r.below(5)) {
            case 0: op = "assign"; *a[i] = *a[j]; if (i != j) m[i] = m[j]; break;
            case 1: { op = "copy"; auto* z = new rp::Deque<El>(*a[j]); delete a[i]; a[i] = z; if (i != j) m[i] = m[j]; } break;
            case 2: op = "clear"; if (r.chance(0.4)) { a[i]->clear(); m[i].clear(); } break;
            case 3: { op = "equal"; bool e = m[i] == m[j]; if ((*a[i] == *a[j]) != e || (*a[i] != *a[j]) == e) fails("equality", i); } break;
            default: op = "write"; if (!m[i].empty()) { size_t p = r.below(unsigned(m[i].size())); (*a[i])[p] = El(v); m[i][p] = v; } break; }
        c.count("deque-ops");
        long e = 0; for (int q = 0; q < K; q++) { check(q, op); e += long(m[q].size()); }
        lifeCheck(c, "deque", e);
    }
    for (auto* x : a) delete x;
}

// ---------------------------------------------------------------- Stack, linked list
static void stacks(Ctx& c, ChkAlloc& al) {
    Rng& r = c.rng; rp::Stack<El>* s = new rp::Stack<El>(al, r.chance(0.5) ? 0 : r.range(1, 20)); std::vector<int> m; double bias = 0.6;
    rp::LinkedList<El>* l = new rp::LinkedList<El>(al); std::vector<int> lm;
    int ops = r.range(20, 300);
    for (int k = 0; k < ops; k++) {
        int v = r.range(0, 1000); if (k % 30 == 29) bias = r.uniform(0.2, 0.9);
        switch (r.below(12)) {
        case 0: { rp::Stack<El>* t = new rp::Stack<El>(*s); if (r.chance(0.5)) std::swap(s, t); if (t->size() && r.chance(0.5)) { t->pop(); t->push(El(-5)); } delete t; } break;
        case 1: if (r.chance(0.2)) { s->clear(); m.clear(); } break;
        case 2: l->insert(El(v)); lm.insert(lm.begin(), v); break;
        case 3: if (r.chance(0.2)) { l->reset(); lm.clear(); } break;
        case 4: if (!m.empty()) { s->top() = El(v); m.back() = v; } break;
        default: if (r.chance(bias)) { s->push(El(v)); m.push_back(v); } else if (!m.empty()) { El e = s->pop(); c.eval(); if (e.v != m.back() || !e.ok()) c.fail("stack:pop", "stack: pop returned %d, model %d", e.v, m.back()); m.pop_back(); }
        }
        c.count("stack-ops"); c.eval(2);
        if (s->size() != m.size() || s->capacity() < s->size()) c.fail("stack:size", "stack size %llu, model %zu", (unsigned long long)s->size(), m.size());
        if (!m.empty() && s->top().v != m.back()) c.fail("stack:top", "stack top %d, model %d", s->top().v, m.back());
        size_t n = 0; for (auto* e = l->getListHead(); e; e = e->next, n++) if (n >= lm.size() || e->data.v != lm[n] || !e->data.ok()) { c.fail("list:content", "linked list differs from model at %zu", n); break; }
        if (n != lm.size()) c.fail("list:size", "linked list has %zu elements, model %zu", n, lm.size());
        lifeCheck(c, "stack+list", long(m.size() + lm.size()));
        c.seen(mix(hashBytes(m.data(), m.size() * 4), hashBytes(lm.data(), lm.size() * 4)));
    }
    while (!m.empty()) { El e = s->pop(); c.eval(); if (e.v != m.back()) { c.fail("stack:pop", "stack: final pop order differs"); break; } m.pop_back(); }
    delete s; delete l;
}

// ---------------------------------------------------------------- Set
static void sets(Ctx& c, ChkAlloc& al) {
    Rng& r = c.rng; const int K = 3; typedef rp::Set<El> S; std::vector<S*> a; std::vector<std::set<int>> m(K); gHashMode = int(r.below(5));
    for (int i = 0; i < K; i++) a.push_back(new S(al, r.chance(0.5) ? 0 : r.range(1, 60)));
    auto fails = [&](const char* k, int i) { std::string s; for (int x : m[i]) s += std::to_string(x) + ","; c.fail(std::string("set:") + k, "set (hash mode %d): %s; model (size %zu) %s", gHashMode, k, m[i].size(), s.substr(0, 200).c_str()); };
    int range = r.pick(std::vector<int>{6, 30, 300, 100000});
    auto check = [&](int i, const char* op) {
        S& x = *a[i]; auto& y = m[i]; c.eval(); if (x.size() != y.size()) { fails((std::string(op) + "/size").c_str(), i); return; }
        std::set<int> got; size_t n = 0; for (auto it = x.begin(); it != x.end(); ++it) { if (n++ > y.size()) break; if (!(*it).ok()) { fails("element-corrupt", i); return; } got.insert(it->v); }
        if (n != y.size() || got != y) { fails((std::string(op) + "/content").c_str(), i); return; }
        for (int q = 0; q < 3; q++) { int v = r.range(0, range); if (!y.empty() && r.chance(0.4)) v = *std::next(y.begin(), r.below(unsigned(y.size()))); bool in = y.count(v); if (x.contains(El(v)) != in) fails("contains", i); auto f = x.find(El(v)); if ((f != x.end()) != in || (in && (*f).v != v)) fails("find", i); }
        uint64_t h = mix(hashStr(op), gHashMode); for (int v : y) h = mix(h, v); c.seen(h);
    };
    int ops = r.range(20, c.thorough ? 500 : 200); double bias = 0.7;
    for (int k = 0; k < ops; k++) {
        int i = int(r.below(K)), j = int(r.below(K)); const char* op = ""; S& x = *a[i]; auto& y = m[i]; int v = r.range(0, range); if (k % 40 == 39) bias = r.uniform(0.2, 0.9);
        switch (r.below(12)) {
        case 0: case 1: case 2: case 3: case 4: { int cnt = r.chance(0.15) ? r.range(2, 30) : 1; for (int q = 0; q < cnt; q++, v = r.range(0, range)) if (r.chance(bias)) { op = "add"; bool in = y.insert(v).second; if (x.add(El(v)) != in) fails("add-result", i); } else { op = "remove"; if (!y.empty() && r.chance(0.7)) v = *std::next(y.begin(), r.below(unsigned(y.size()))); x.remove(El(v)); y.erase(v); } } break;
        case 5: { op = "sweep"; std::set<int> seen; int mod = r.range(2, 4); auto it = x.begin(); size_t g = 0; while (it != x.end() && g++ < 5000) { int w = it->v; if (!seen.insert(w).second) { fails("sweep-repeats", i); break; } if (w % mod == 0) { it = x.remove(it); y.erase(w); } else ++it; } std::set<int> exp = seen; for (int w : y) if (!seen.count(w)) { fails("sweep-misses", i); break; } } break;
        case 6: { op = "reserve"; size_t cap = r.below(unsigned(y.size() * 3 + 40)); x.reserve(cap); if (x.capacity() < cap) fails("reserve", i); } break;
        case 7: if (r.chance(0.5)) { op = "clear"; x.clear(r.chance(0.5)); y.clear(); } break;
        case 8: op = "assign"; x = *a[j]; if (i != j) m[i] = m[j]; break;
        case 9: { op = "copy"; S* z = new S(*a[j]); delete a[i]; a[i] = z; if (i != j) m[i] = m[j]; } break;
        case 10: { op = "equal"; bool e = m[i] == m[j]; if ((*a[i] == *a[j]) != e || (*a[i] != *a[j]) == e) fails("equality", i); } break;
        case 11: { op = "toArray"; rp::Array<El> t = x.toArray(al); std::multiset<int> g; for (size_t q = 0; q < t.size(); q++) g.insert(t[q].v); if (g != std::multiset<int>(y.begin(), y.end())) fails("toArray", i); } break;
        }
        c.count("set-ops"); long e = 0; for (int q = 0; q < K; q++) { check(q, op); e += long(m[q].size()); } lifeCheck(c, "set", e);
    }
    for (auto* x : a) delete x;
}

// ---------------------------------------------------------------- Map
static void maps(Ctx& c, ChkAlloc& al) {
    Rng& r = c.rng; const int K = 3; typedef rp::Map<El, El> S; std::vector<S*> a; std::vector<std::map<int, int>> m(K); gHashMode = int(r.below(5));
    for (int i = 0; i < K; i++) a.push_back(new S(al, r.chance(0.5) ? 0 : r.range(1, 60)));
    auto fails = [&](const char* k, int i) { std::string s; for (auto& x : m[i]) s += std::to_string(x.first) + ":" + std::to_string(x.second) + ","; c.fail(std::string("map:") + k, "map (hash mode %d): %s; model (size %zu) %s", gHashMode, k, m[i].size(), s.substr(0, 200).c_str()); };
    int range = r.pick(std::vector<int>{6, 30, 300, 100000});
    auto someKey = [&](std::map<int, int>& y) { return !y.empty() && r.chance(0.6) ? std::next(y.begin(), r.below(unsigned(y.size())))->first : r.range(0, range); };
    auto check = [&](int i, const char* op) {
        S& x = *a[i]; auto& y = m[i]; c.eval(); if (x.size() != y.size()) { fails((std::string(op) + "/size").c_str(), i); return; }
        std::map<int, int> got; size_t n = 0; for (auto it = x.begin(); it != x.end(); ++it) { if (n++ > y.size()) break; if (!it->first.ok() || !(*it).second.ok()) { fails("element-corrupt", i); return; } got[it->first.v] = it->second.v; }
        if (n != y.size() || got != y) { fails((std::string(op) + "/content").c_str(), i); return; }
        for (int q = 0; q < 3; q++) { int v = someKey(y); bool in = y.count(v); if (x.containsKey(El(v)) != in) fails("containsKey", i); auto f = x.find(El(v)); if ((f != x.end()) != in || (in && (f->first.v != v || f->second.v != y[v]))) fails("find", i); if (in && (x[El(v)].v != y[v] || static_cast<const S&>(x)[El(v)].v != y[v])) fails("index", i); }
        uint64_t h = mix(hashStr(op), gHashMode); for (auto& v : y) h = mix(h, mix(v.first, v.second)); c.seen(h);
    };
    int ops = r.range(20, c.thorough ? 500 : 200); double bias = 0.7;
    for (int k = 0; k < ops; k++) {
        int i = int(r.below(K)), j = int(r.below(K)); const char* op = ""; S& x = *a[i]; auto& y = m[i]; int w = r.range(0, 1000); if (k % 40 == 39) bias = r.uniform(0.2, 0.9);
        switch (r.below(12)) {
        case 0: case 1: case 2: case 3: case 4: { int cnt = r.chance(0.15) ? r.range(2, 30) : 1; for (int q = 0; q < cnt; q++) if (r.chance(bias)) { op = "add"; int v = r.range(0, range); if (y.count(v) && r.chance(0.5)) continue; bool present = y.count(v); if (!x.add(rp::Pair<El, El>(El(v), El(w + q)), present || r.chance(0.3))) fails("add-result", i); y[v] = w + q; } else { op = "remove"; int v = someKey(y); x.remove(El(v)); y.erase(v); } } break;
        case 5: { op = "sweep"; std::set<int> seen; int mod = r.range(2, 4); auto it = x.begin(); size_t g = 0; while (it != x.end() && g++ < 5000) { int v = it->first.v; if (!seen.insert(v).second) { fails("sweep-repeats", i); break; } if (v % mod == 0) { it = x.remove(it); y.erase(v); } else it++; } for (auto& v : y) if (!seen.count(v.first)) { fails("sweep-misses", i); break; } } break;
        case 6: { op = "reserve"; size_t cap = r.below(unsigned(y.size() * 3 + 40)); x.reserve(cap); if (x.capacity() < cap) fails("reserve", i); } break;
        case 7: if (r.chance(0.5)) { op = "clear"; x.clear(r.chance(0.5)); y.clear(); } break;
        case 8: op = "assign"; x = *a[j]; if (i != j) m[i] = m[j]; break;
        case 9: { op = "copy"; S* z = new S(*a[j]); delete a[i]; a[i] = z; if (i != j) m[i] = m[j]; } break;
        case 10: { op = "equal"; bool e = m[i] == m[j]; if ((*a[i] == *a[j]) != e || (*a[i] != *a[j]) == e) fails("equality", i); } break;
        case 11: if (!y.empty()) { op = "write"; int v = std::next(y.begin(), r.below(unsigned(y.size())))->first; x[El(v)] = El(w); y[v] = w; } break;
        }
        c.count("map-ops"); long e = 0; for (int q = 0; q < K; q++) { check(q, op); e += 2 * long(m[q].size()); } lifeCheck(c, "map", e);
    }
    for (auto* x : a) delete x;
}
static void pairs(Ctx& c) {
    Rng& r = c.rng; for (int k = 0; k < 50; k++) { int v[4]; for (int& x : v) x = r.range(0, 3); rp::Pair<int, El> p(v[0], El(v[1])), q(v[2], El(v[3])); bool e = v[0] == v[2] && v[1] == v[3]; c.eval();
        if ((p == q) != e || (p != q) == e) c.fail("pair:equality", "pair (%d,%d) == (%d,%d)", v[0], v[1], v[2], v[3]);
        rp::Pair<int, int> a(v[0], v[1]), b(v[2], v[3]); if (e && std::hash<rp::Pair<int, int>>()(a) != std::hash<rp::Pair<int, int>>()(b)) c.fail("pair:hash", "equal pairs hash differently"); rp::Pair<int, El> t(p); t = q; if (t != q || p.first != v[0]) c.fail("pair:copy", "pair copy"); }
    lifeCheck(c, "pair", 0);
}

int main(int argc, char** argv) {
    return runMain(argc, argv, [](Ctx& c) {
        ChkAlloc al; gLive = 0; gBadLife = 0;
        const char* w = "";
        switch (c.caseIndex % 7) {
        case 0: w = "array"; arrays<El>(c, al, true); break;
        case 1: w = "int-array"; arrays<int>(c, al, false); break;
        case 2: w = "deque"; deques(c, al); break;
        case 3: w = "stack/list"; stacks(c, al); break;
        case 4: w = "set"; sets(c, al); break;
        case 5: w = "map"; maps(c, al); break;
        case 6: w = "pair/set"; pairs(c); sets(c, al); break;
        }
        lifeCheck(c, w, 0);
        c.eval(); if (!al.live.empty()) c.fail(std::string(w) + ":memory-kept", "%s: %zu blocks never released", w, al.live.size());
        if (al.bad) c.fail(std::string(w) + ":bad-release", "%s: %ld releases of unknown blocks or with the wrong size", w, al.bad);
        for (auto& b : al.live) free(b.first);
        c.sample("case %ld: %s, %ld allocations", c.caseIndex, w, al.n);
    });
}
