// Independent geometry oracle (double precision, shares no code with the engine).
#pragma once
#include <cmath>
#include <vector>
#include <string>
#include <algorithm>
#include <limits>

namespace og {

struct V { double x = 0, y = 0, z = 0; V() {} V(double a, double b, double c) : x(a), y(b), z(c) {}
    double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
    double& operator[](int i) { return i == 0 ? x : i == 1 ? y : z; } };
inline V operator+(V a, V b) { return V(a.x + b.x, a.y + b.y, a.z + b.z); }
inline V operator-(V a, V b) { return V(a.x - b.x, a.y - b.y, a.z - b.z); }
inline V operator-(V a) { return V(-a.x, -a.y, -a.z); }
inline V operator*(V a, double s) { return V(a.x * s, a.y * s, a.z * s); }
inline V operator*(double s, V a) { return a * s; }
inline V operator/(V a, double s) { return V(a.x / s, a.y / s, a.z / s); }
inline V& operator+=(V& a, V b) { a = a + b; return a; }
inline V& operator-=(V& a, V b) { a = a - b; return a; }
inline double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(V a, V b) { return V(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
inline double len2(V a) { return dot(a, a); }
inline double len(V a) { return std::sqrt(len2(a)); }
inline V unit(V a) { double l = len(a); return l > 0 ? a / l : V(1, 0, 0); }
inline V had(V a, V b) { return V(a.x * b.x, a.y * b.y, a.z * b.z); }
inline double maxabs(V a) { return std::max(std::fabs(a.x), std::max(std::fabs(a.y), std::fabs(a.z))); }
inline bool finite(V a) { return std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(a.z); }
inline V vmin(V a, V b) { return V(std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)); }
inline V vmax(V a, V b) { return V(std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z)); }

struct M { V r0, r1, r2; M() : r0(1, 0, 0), r1(0, 1, 0), r2(0, 0, 1) {} M(V a, V b, V c) : r0(a), r1(b), r2(c) {}
    V operator*(V v) const { return V(dot(r0, v), dot(r1, v), dot(r2, v)); }
    V row(int i) const { return i == 0 ? r0 : i == 1 ? r1 : r2; }
    V col(int i) const { return V(r0[i], r1[i], r2[i]); }
    M t() const { return M(col(0), col(1), col(2)); }
    M operator*(const M& b) const { M o; V c0 = b.col(0), c1 = b.col(1), c2 = b.col(2);
        o.r0 = V(dot(r0, c0), dot(r0, c1), dot(r0, c2)); o.r1 = V(dot(r1, c0), dot(r1, c1), dot(r1, c2)); o.r2 = V(dot(r2, c0), dot(r2, c1), dot(r2, c2)); return o; }
    M operator+(const M& b) const { return M(r0 + b.r0, r1 + b.r1, r2 + b.r2); }
    M operator-(const M& b) const { return M(r0 - b.r0, r1 - b.r1, r2 - b.r2); }
    M operator*(double s) const { return M(r0 * s, r1 * s, r2 * s); }
    double det() const { return dot(r0, cross(r1, r2)); }
    M inv() const { double d = det(); M m(cross(r1, r2) / d, cross(r2, r0) / d, cross(r0, r1) / d); return m.t(); }
};
inline M diag(V d) { return M(V(d.x, 0, 0), V(0, d.y, 0), V(0, 0, d.z)); }

struct Q { double x = 0, y = 0, z = 0, w = 1; Q() {} Q(double a, double b, double c, double d) : x(a), y(b), z(c), w(d) {}
    V v() const { return V(x, y, z); } };
inline Q operator*(Q a, Q b) { V v = a.w * b.v() + b.w * a.v() + cross(a.v(), b.v()); return Q(v.x, v.y, v.z, a.w * b.w - dot(a.v(), b.v())); }
inline Q conj(Q a) { return Q(-a.x, -a.y, -a.z, a.w); }
inline double qlen(Q a) { return std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w); }
inline Q qunit(Q a) { double l = qlen(a); return Q(a.x / l, a.y / l, a.z / l, a.w / l); }
inline M mat(Q q) {
    double x = q.x, y = q.y, z = q.z, w = q.w;
    return M(V(1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)),
             V(2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)),
             V(2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)));
}
inline V rot(Q q, V v) { return mat(q) * v; }
inline Q axisAngle(V axis, double a) { V u = unit(axis) * std::sin(a / 2); return Q(u.x, u.y, u.z, std::cos(a / 2)); }
// angle (0..pi) between two orientations
inline double qangle(Q a, Q b) { Q d = qunit(a) * conj(qunit(b)); double s = len(d.v()); return 2 * std::atan2(s, std::fabs(d.w)); }

struct Pose { V p; M R; Pose() {} Pose(V a, M b) : p(a), R(b) {} Pose(V a, Q q) : p(a), R(mat(qunit(q))) {}
    V operator*(V v) const { return p + R * v; }
    V inv(V v) const { return R.t() * (v - p); }
    Pose operator*(const Pose& o) const { return Pose(p + R * o.p, R * o.R); } };

struct Plane { V n; double d; };   // dot(n,x) <= d inside

enum class Kind { Sphere, Capsule, Box, Hull, Tri, Mesh };
inline const char* kname(Kind k) { static const char* n[] = {"sphere", "capsule", "box", "hull", "triangle", "mesh"}; return n[int(k)]; }

// Convex: hull(core points) + ball(radius). Mesh: union of triangles.
struct Shape {
    Kind kind = Kind::Sphere;
    double r = 0;
    std::vector<V> pts;                 // core points (local)
    std::vector<Plane> faces;           // Box / Hull
    std::vector<V> edgeDirs;            // candidate edge directions
    std::vector<std::vector<V>> tris;   // Mesh
    V ext;                              // Box half extents
    double halfH = 0;                   // Capsule
    std::string desc;
    bool convex() const { return kind != Kind::Mesh; }
};

inline Shape sphere(double r) { Shape s; s.kind = Kind::Sphere; s.r = r; s.pts = {V()}; s.desc = "sphere r=" + std::to_string(r); return s; }
inline Shape capsule(double r, double h) { Shape s; s.kind = Kind::Capsule; s.r = r; s.halfH = h / 2; s.pts = {V(0, -h / 2, 0), V(0, h / 2, 0)}; s.edgeDirs = {V(0, 1, 0)};
    s.desc = "capsule r=" + std::to_string(r) + " h=" + std::to_string(h); return s; }
inline Shape box(V e) { Shape s; s.kind = Kind::Box; s.ext = e; for (int i = 0; i < 8; i++) s.pts.push_back(V(i & 1 ? e.x : -e.x, i & 2 ? e.y : -e.y, i & 4 ? e.z : -e.z));
    for (int a = 0; a < 3; a++) { V n; n[a] = 1; s.faces.push_back({n, e[a]}); s.faces.push_back({-n, e[a]}); s.edgeDirs.push_back(n); }
    s.desc = "box " + std::to_string(e.x) + "," + std::to_string(e.y) + "," + std::to_string(e.z); return s; }

inline std::vector<Plane> hullFaces(const std::vector<V>& p) {
    std::vector<Plane> out; size_t n = p.size();
    double sc = 0; for (V a : p) for (V b : p) sc = std::max(sc, len(a - b));
    for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) for (size_t k = j + 1; k < n; k++) {
        V c = cross(p[j] - p[i], p[k] - p[i]); if (len(c) < 1e-9 * sc * sc) continue;
        V u = unit(c); double d = dot(u, p[i]); bool pos = false, neg = false;
        for (V q : p) { double e = dot(u, q) - d; if (e > 1e-7 * sc) pos = true; if (e < -1e-7 * sc) neg = true; }
        if (pos && neg) continue;
        if (pos) { u = -u; d = -d; }
        bool dup = false; for (auto& f : out) if (dot(f.n, u) > 1 - 1e-9 && std::fabs(f.d - d) < 1e-6 * sc) { dup = true; break; }
        if (!dup) out.push_back({u, d});
    }
    return out;
}
inline Shape hull(const std::vector<V>& pts) { Shape s; s.kind = Kind::Hull; s.pts = pts; s.faces = hullFaces(pts);
    for (size_t i = 0; i < pts.size(); i++) for (size_t j = i + 1; j < pts.size(); j++) s.edgeDirs.push_back(unit(pts[j] - pts[i]));
    s.desc = "hull n=" + std::to_string(pts.size()); return s; }
inline Shape tri(V a, V b, V c) { Shape s; s.kind = Kind::Tri; s.pts = {a, b, c}; V n = unit(cross(b - a, c - a));
    s.faces = {{n, dot(n, a)}, {-n, -dot(n, a)}}; s.edgeDirs = {unit(b - a), unit(c - b), unit(a - c)}; s.desc = "triangle"; return s; }

// Certified distance interval between conv(P) and the origin by Wolfe's min-norm-point algorithm.
struct Dist { double lo, hi; V x; };
// closest point to the origin of the simplex pts[0..n), brute force over all faces; keeps the supporting subset
inline V closestSimplex(std::vector<V>& S) {
    int n = int(S.size()); double best = 1e300; V bx; int bm = 0;
    for (int m = 1; m < (1 << n); m++) {
        int id[4], k = 0; for (int i = 0; i < n; i++) if (m >> i & 1) id[k++] = i;
        double w[4]; 
        if (k == 1) w[0] = 1;
        else {
            int q = k - 1; double A[3][4]; V d[3]; double dl[3]; bool ok = true;
            for (int r = 0; r < q; r++) { d[r] = S[id[r + 1]] - S[id[0]]; dl[r] = len(d[r]); if (dl[r] == 0) ok = false; else d[r] = d[r] / dl[r]; }
            if (!ok) continue;
            for (int r = 0; r < q; r++) { for (int c = 0; c < q; c++) A[r][c] = dot(d[r], d[c]); A[r][q] = -dot(d[r], S[id[0]]); }
            for (int c = 0; c < q && ok; c++) { int pv = c; for (int r = c + 1; r < q; r++) if (std::fabs(A[r][c]) > std::fabs(A[pv][c])) pv = r;
                if (std::fabs(A[pv][c]) < 1e-13) { ok = false; break; }
                if (pv != c) for (int z = 0; z <= q; z++) std::swap(A[pv][z], A[c][z]);
                for (int r = 0; r < q; r++) if (r != c) { double f = A[r][c] / A[c][c]; for (int z = c; z <= q; z++) A[r][z] -= f * A[c][z]; } }
            if (!ok) continue;
            double s = 0; for (int r = 0; r < q; r++) { w[r + 1] = A[r][q] / A[r][r] / dl[r]; s += w[r + 1]; } w[0] = 1 - s;
        }
        bool neg = false; for (int r = 0; r < k; r++) if (w[r] < 0) neg = true;
        if (neg) continue;
        V x; for (int r = 0; r < k; r++) x += w[r] * S[id[r]];
        double l = len2(x); if (l < best) { best = l; bx = x; bm = m; }
    }
    std::vector<V> T; for (int i = 0; i < n; i++) if (bm >> i & 1) T.push_back(S[i]);
    S = T; return bx;
}
inline Dist minNorm(const std::vector<V>& P) {
    double sc = 0; int best = 0;
    for (size_t i = 0; i < P.size(); i++) { sc = std::max(sc, len(P[i])); if (len2(P[i]) < len2(P[best])) best = int(i); }
    std::vector<V> S = {P[best]}; V x = P[best]; double lo = 0;
    for (int it = 0; it < 300; it++) {
        double lx = len(x); if (lx <= 1e-14 * sc) return {0, lx, x};
        int j = 0; double m = dot(x, P[0]); for (size_t i = 1; i < P.size(); i++) { double d = dot(x, P[i]); if (d < m) { m = d; j = int(i); } }
        lo = std::max(lo, m / lx);
        if (lx - lo <= 1e-11 * sc) break;
        if (S.size() == 4) { return {0, lx <= 1e-10 * sc ? lx : 0, x}; }   // origin inside the simplex
        S.push_back(P[j]); V nx = closestSimplex(S);
        if (S.size() == 4) return {0, 0, V()};
        if (len2(nx) >= len2(x)) break;
        x = nx;
    }
    return {std::max(lo, 0.0), len(x), x};
}

inline std::vector<V> world(const Shape& s, const Pose& T) { std::vector<V> o; for (V p : s.pts) o.push_back(T * p); return o; }
inline double supp(const std::vector<V>& p, V n) { double m = -1e300; for (V q : p) m = std::max(m, dot(q, n)); return m; }

// Signed gap between two convex shapes: [lo,hi] interval, positive = separated, negative = penetration depth.
struct Gap { double lo, hi; V dir; };   // dir: from A to B
inline Gap gap(const Shape& A, const Pose& TA, const Shape& B, const Pose& TB) {
    std::vector<V> a = world(A, TA), b = world(B, TB), m; m.reserve(a.size() * b.size());
    for (V p : b) for (V q : a) m.push_back(p - q);
    double sc = 0; for (V p : m) sc = std::max(sc, len(p));
    Dist d = minNorm(m); double R = A.r + B.r;
    if (d.lo > 1e-9 * sc) return {d.lo - R, d.hi - R, unit(d.x)};
    if (d.hi > 1e-8 * sc) return {-1e9, 1e9, unit(d.x)};    // undecided: callers skip
    // origin inside (or on) the core difference: exact penetration over candidate normals
    double best = 1e300; V bn(0, 1, 0);
    auto tryN = [&](V n) { double l = len(n); if (l < 1e-9) return; n = n / l;
        for (int sgn = 0; sgn < 2; sgn++) { V u = sgn ? -n : n; double dep = supp(a, u) - (-supp(b, -u)); // max a.u - min b.u
            if (dep < best) { best = dep; bn = u; } } };
    for (auto& f : A.faces) tryN(TA.R * f.n);
    for (auto& f : B.faces) tryN(TB.R * f.n);
    std::vector<V> ea, eb; for (V e : A.edgeDirs) ea.push_back(TA.R * e); for (V e : B.edgeDirs) eb.push_back(TB.R * e);
    for (V e : ea) for (V f : eb) tryN(cross(e, f));
    if (best > 1e299 || (A.pts.size() == 1 && B.pts.size() == 1)) { // coincident spheres and the like
        if (d.hi > 0) return {d.lo - R, d.hi - R, unit(d.x)};
        return {-R, -R, V(0, 1, 0)};
    }
    if (ea.empty() != eb.empty() || A.pts.size() <= 2 || B.pts.size() <= 2) {
        // segment/point cores: also perpendicular directions, where the core depth is 0
        if (A.faces.empty() && B.faces.empty()) best = std::min(best, 0.0 + d.hi);
    }
    if (best < 0) best = 0;
    return {-best - R, -best - R, bn};
}

inline bool insideConvex(const Shape& s, V p, double& signedDist) { // exact signed distance bound: negative inside
    switch (s.kind) {
    case Kind::Sphere: signedDist = len(p) - s.r; break;
    case Kind::Capsule: { double y = std::max(-s.halfH, std::min(s.halfH, p.y)); signedDist = len(p - V(0, y, 0)) - s.r; break; }
    default: { double m = -1e300; for (auto& f : s.faces) m = std::max(m, dot(f.n, p) - f.d); signedDist = m; }
    }
    return signedDist <= 0;
}

// Ray/segment a + t*(b-a), t in [0,tmax]. Returns smallest t at which the (solid) convex shape is entered from outside.
// status: 0 no hit, 1 hit; margin: how far the decision is from flipping (distance units)
struct Hit { bool hit = false; double t = 0; V n; double margin = 0; bool startInside = false; };
inline Hit rayPlanes(const std::vector<Plane>& F, V a, V d, double tmax) {
    Hit h; double t0 = -1e300, t1 = 1e300; V n; double L = len(d); h.margin = 1e300; bool miss = false;
    double startSd = -1e300;
    for (auto& f : F) { double num = f.d - dot(f.n, a), den = dot(f.n, d); startSd = std::max(startSd, -num);
        if (std::fabs(den) < 1e-14 * L) { if (num < 0) { miss = true; } continue; }
        double t = num / den;
        if (den < 0) { if (t > t0) { t0 = t; n = f.n; } } else t1 = std::min(t1, t); }
    h.startInside = startSd < 0;
    h.margin = std::min(std::fabs(t1 - t0) * L, std::fabs(startSd));
    h.margin = std::min(h.margin, std::min(std::fabs(t0), std::fabs(t0 - tmax)) * L);
    if (miss) { h.hit = false; return h; }
    h.hit = t0 < t1 && t0 >= 0 && t0 <= tmax; h.t = t0; h.n = n; return h;
}
inline Hit raySphere(V c, double r, V a, V d, double tmax) {
    Hit h; V m = a - c; double A = len2(d), B = dot(m, d), C = len2(m) - r * r; h.startInside = C < 0; double L = std::sqrt(A);
    double disc = B * B - A * C; V close = m - d * (B / A); double off = len(close) - r; h.margin = std::min(std::fabs(off), std::fabs(len(m) - r));
    if (disc < 0) return h;
    double t = (-B - std::sqrt(disc)) / A; h.t = t; h.hit = t >= 0 && t <= tmax; h.n = unit(m + d * t);
    h.margin = std::min(h.margin, std::min(std::fabs(t), std::fabs(t - tmax)) * L); return h;
}
// distance between segment [p,q] and ray line piece, by dense refinement (used only for margins)
inline double segPoint(V a, V b, V p) { V d = b - a; double l = len2(d); double t = l > 0 ? std::max(0.0, std::min(1.0, dot(p - a, d) / l)) : 0; return len(p - (a + d * t)); }
inline Hit rayCapsule(double r, double hh, V a, V d, double tmax) {
    // union of infinite-cylinder slab and two spheres: first entry from outside
    Hit best; double sd = segPoint(V(0, -hh, 0), V(0, hh, 0), a) - r; best.startInside = sd < 0; double L = len(d);
    auto f = [&](double t) { return segPoint(V(0, -hh, 0), V(0, hh, 0), a + d * t) - r; };
    // distance to a convex set along a line is convex in t: ternary search for the minimum over all reals in a bracket
    double lo = -10 * (hh + r + len(a)) / L, hi = 10 * (hh + r + len(a)) / L;
    for (int i = 0; i < 300; i++) { double m1 = lo + (hi - lo) / 3, m2 = hi - (hi - lo) / 3; if (f(m1) < f(m2)) hi = m2; else lo = m1; }
    double tm = (lo + hi) / 2, fm = f(tm); best.margin = std::min(std::fabs(fm), std::fabs(sd));
    if (fm >= 0) return best;
    double l = -10 * (hh + r + len(a)) / L, h2 = tm; // f(l)>0, f(tm)<0
    for (int i = 0; i < 200; i++) { double m = (l + h2) / 2; if (f(m) > 0) l = m; else h2 = m; }
    best.t = (l + h2) / 2; best.hit = best.t >= 0 && best.t <= tmax && sd > 0; V p = a + d * best.t; V q(0, std::max(-hh, std::min(hh, p.y)), 0); best.n = unit(p - q);
    best.margin = std::min(best.margin, std::min(std::fabs(best.t), std::fabs(best.t - tmax)) * L);
    return best;
}
inline Hit rayTri(V A, V B, V C, V a, V d, double tmax, int side /*0 both 1 front 2 back*/) {
    Hit h; V N = cross(B - A, C - A); double area = len(N); V n = unit(N); double den = dot(n, d), L = len(d);
    if (std::fabs(den) < 1e-12 * L || area == 0) { h.margin = 0; return h; }
    double t = dot(n, A - a) / den; V p = a + d * t; h.t = t; h.n = n;
    double m = 1e300; V P[3] = {A, B, C}; for (int i = 0; i < 3; i++) { V e = unit(P[(i + 1) % 3] - P[i]); m = std::min(m, dot(cross(n, e), p - P[i])); }
    double sin_ = std::fabs(den) / L; h.margin = std::min(std::fabs(m) * sin_, std::min(std::fabs(t), std::fabs(t - tmax)) * L);
    bool ok = m >= 0 && t >= 0 && t <= tmax; if (side == 1 && den > 0) ok = false; if (side == 2 && den < 0) ok = false;
    h.hit = ok; return h;
}
// distance of a point to a triangle (closest point over face, edges and corners)
inline double pointTri(V p, V a, V b, V c) {
    double m = std::min(segPoint(a, b, p), std::min(segPoint(b, c, p), segPoint(c, a, p))); V n = cross(b - a, c - a); double l = len(n); if (l == 0) return m; n = n / l;
    if (dot(cross(n, b - a), p - a) >= 0 && dot(cross(n, c - b), p - b) >= 0 && dot(cross(n, a - c), p - c) >= 0) m = std::min(m, std::fabs(dot(n, p - a)));
    return m;
}
inline Hit rayConvex(const Shape& s, V a, V d, double tmax) {
    switch (s.kind) {
    case Kind::Sphere: return raySphere(V(), s.r, a, d, tmax);
    case Kind::Capsule: return rayCapsule(s.r, s.halfH, a, d, tmax);
    default: return rayPlanes(s.faces, a, d, tmax);
    }
}
} // namespace og
