// C25: mathematical identities, judged against an independent double-precision implementation.
#include "rp.h"
#include <reactphysics3d/mathematics/Matrix2x2.h>
#include <reactphysics3d/mathematics/Vector2.h>
#include <reactphysics3d/mathematics/mathematics_functions.h>
using namespace vh;
typedef rp::Vector3 RV; typedef rp::Quaternion RQ; typedef rp::Matrix3x3 RM; typedef rp::Transform RT;
static Ctx* C;
static double gErr = 0;
static void near(const char* k, double got, double want, double scale, double mult = 40) {
    C->eval(); double tol = mult * EPSD * std::max(scale, 1e-30); double e = std::fabs(got - want); C->maxi(std::string("err/eps ") + k, e / (EPSD * std::max(scale, 1e-30)));
    if (!(e <= tol)) C->fail(k, "%s: got %.10g, expected %.10g (difference %.3g, tolerance %.3g)", k, got, want, e, tol);
}
static void nearV(const char* k, const RV& got, V want, double scale, double mult = 40) {
    C->eval(); V g = ov(got); double tol = mult * EPSD * std::max(scale, 1e-30); double e = og::len(g - want); C->maxi(std::string("err/eps ") + k, e / (EPSD * std::max(scale, 1e-30)));
    if (!(e <= tol)) C->fail(k, "%s: got %s, expected %s (difference %.3g, tolerance %.3g)", k, vs(g).c_str(), vs(want).c_str(), e, tol);
}
static void nearM(const char* k, const RM& got, const M& want, double scale, double mult = 40) { for (int i = 0; i < 3; i++) nearV(k, got[i], want.row(i), scale, mult); }
static void yes(const char* k, bool b, const char* what = "") { C->eval(); if (!b) C->fail(k, "%s %s", k, what); }
static V rv3(Rng& r) { double s = r.logUniform(0.01, 100); V v = rndBox(r, s); if (r.chance(0.15)) v[int(r.below(3))] = 0; if (r.chance(0.05)) v = V(s, s, s); return rdv(v); }
static M rmat(Rng& r) { double s = r.logUniform(0.1, 10); M m(rndBox(r, s), rndBox(r, s), rndBox(r, s)); return M(rdv(m.r0), rdv(m.r1), rdv(m.r2)); }
static RM rm(const M& m) { return RM(decimal(m.r0.x), decimal(m.r0.y), decimal(m.r0.z), decimal(m.r1.x), decimal(m.r1.y), decimal(m.r1.z), decimal(m.r2.x), decimal(m.r2.y), decimal(m.r2.z)); }
static double ml(const M& m) { return og::len(m.r0) + og::len(m.r1) + og::len(m.r2); }

static void vectors(Rng& r) {
    V a = rv3(r), b = rv3(r); RV A = rv(a), B = rv(b); double la = og::len(a), lb = og::len(b), s = rd(r.uniform(-5, 5));
    near("vec:length", A.length(), la, la); near("vec:lengthSquare", A.lengthSquare(), la * la, la * la); near("vec:dot", A.dot(B), og::dot(a, b), la * lb);
    nearV("vec:cross", A.cross(B), og::cross(a, b), la * lb); nearV("vec:add", A + B, a + b, la + lb); nearV("vec:sub", A - B, a - b, la + lb); nearV("vec:neg", -A, -a, la);
    nearV("vec:scale", A * decimal(s), a * s, la * std::fabs(s) + 1e-9); nearV("vec:scale", decimal(s) * A, a * s, la * std::fabs(s) + 1e-9); nearV("vec:had", A * B, og::had(a, b), la * lb);
    if (std::fabs(s) > 0.01) { nearV("vec:div", A / decimal(s), a / s, la / std::fabs(s)); RV t = A; t /= decimal(s); nearV("vec:div=", t, a / s, la / std::fabs(s)); }
    if (std::fabs(b.x) > 1e-5 && std::fabs(b.y) > 1e-5 && std::fabs(b.z) > 1e-5) { V q(a.x / b.x, a.y / b.y, a.z / b.z); nearV("vec:divv", A / B, q, og::len(q)); }
    { RV t = A; t += B; nearV("vec:+=", t, a + b, la + lb); t = A; t -= B; nearV("vec:-=", t, a - b, la + lb); t = A; t *= decimal(s); nearV("vec:*=", t, a * s, la * std::fabs(s) + 1e-9); }
    if (la > 1e-3) { nearV("vec:unit", A.getUnit(), a / la, 1); RV t = A; t.normalize(); nearV("vec:normalize", t, a / la, 1); V o = ov(A.getOneUnitOrthogonalVector()); near("vec:orth-length", og::len(o), 1, 1); near("vec:orth-dot", og::dot(o, a), 0, la); yes("vec:isUnit", A.getUnit().isFinite()); }
    nearV("vec:abs", A.getAbsoluteVector(), V(std::fabs(a.x), std::fabs(a.y), std::fabs(a.z)), la, 0.1); nearV("vec:min", RV::min(A, B), og::vmin(a, b), la, 0.1); nearV("vec:max", RV::max(A, B), og::vmax(a, b), la, 0.1);
    yes("vec:minAxis", a[A.getMinAxis()] == std::min(a.x, std::min(a.y, a.z))); yes("vec:maxAxis", a[A.getMaxAxis()] == std::max(a.x, std::max(a.y, a.z)));
    near("vec:minValue", A.getMinValue(), std::min(a.x, std::min(a.y, a.z)), la, 0.1); near("vec:maxValue", A.getMaxValue(), std::max(a.x, std::max(a.y, a.z)), la, 0.1);
    yes("vec:equal", (A == B) == (a.x == b.x && a.y == b.y && a.z == b.z) && (A != B) == !(A == B) && A == RV(A)); bool lt = a.x != b.x ? a.x < b.x : a.y != b.y ? a.y < b.y : a.z < b.z; yes("vec:less", (A < B) == lt && !(A < A));
    yes("vec:index", A[0] == A.x && A[1] == A.y && A[2] == A.z); yes("vec:finite", A.isFinite() && !RV(decimal(INFINITY), 0, 0).isFinite() && !RV(0, decimal(NAN), 0).isFinite() && !RV(0, 0, decimal(-INFINITY)).isFinite());
    nearV("clamp:length", rp::clamp(A, decimal(std::fabs(s) + 0.01)), la > rd(std::fabs(s) + 0.01) ? a * (rd(std::fabs(s) + 0.01) / la) : a, la);
    rp::Vector2 P(A.x, A.y), Q(B.x, B.y); near("vec2:length", P.length(), std::hypot(a.x, a.y), la); near("vec2:dot", P.dot(Q), a.x * b.x + a.y * b.y, la * lb); near("vec2:add", (P + Q).x + 2 * (P + Q).y, a.x + b.x + 2 * (a.y + b.y), 3 * (la + lb)); near("vec2:sub", (P - Q).x + 2 * (P - Q).y, a.x - b.x + 2 * (a.y - b.y), 3 * (la + lb));
    if (P.length() > 1e-3) { rp::Vector2 u = P.getUnit(); near("vec2:unit", u.x * u.x + u.y * u.y, 1, 1); near("vec2:unit-dir", u.x * a.y - u.y * a.x, 0, la); rp::Vector2 o = P.getOneUnitOrthogonalVector(); near("vec2:orth", o.x * a.x + o.y * a.y, 0, la); near("vec2:orth-len", o.x * o.x + o.y * o.y, 1, 1); }
    C->seen(hashBytes(&a, sizeof a)); }

static void matrices(Rng& r) {
    M a = rmat(r), b = rmat(r); RM A = rm(a), B = rm(b); double la = ml(a), lb = ml(b); V v = rv3(r); double s = rd(r.uniform(-5, 5)); double lv = og::len(v);
    nearM("mat:mul", A * B, a * b, la * lb); nearV("mat:vec", A * rv(v), a * v, la * lv + 1e-20); nearM("mat:add", A + B, a + b, la + lb); nearM("mat:sub", A - B, a - b, la + lb); nearM("mat:neg", -A, a * -1, la); nearM("mat:scale", A * decimal(s), a * s, la * std::fabs(s) + 1e-9); nearM("mat:scale", decimal(s) * A, a * s, la * std::fabs(s) + 1e-9);
    { RM t = A; t += B; nearM("mat:+=", t, a + b, la + lb); t = A; t -= B; nearM("mat:-=", t, a - b, la + lb); t = A; t *= decimal(s); nearM("mat:*=", t, a * s, la * std::fabs(s) + 1e-9); }
    nearM("mat:transpose", A.getTranspose(), a.t(), la, 0.1); near("mat:det", A.getDeterminant(), a.det(), la * la * la, 10); near("mat:trace", A.getTrace(), a.r0.x + a.r1.y + a.r2.z, la);
    for (int i = 0; i < 3; i++) { nearV("mat:row", A.getRow(i), a.row(i), la, 0.1); nearV("mat:col", A.getColumn(i), a.col(i), la, 0.1); }
    double cond = la * la * la / std::max(1e-300, std::fabs(a.det())); if (cond < 1000) { nearM("mat:inverse", A.getInverse(), a.inv(), ml(a.inv()), 40 * cond); nearM("mat:inverse-det", A.getInverse(A.getDeterminant()), a.inv(), ml(a.inv()), 40 * cond); }
    M ab = a; for (int i = 0; i < 3; i++) { V& q = i == 0 ? ab.r0 : i == 1 ? ab.r1 : ab.r2; q = V(std::fabs(q.x), std::fabs(q.y), std::fabs(q.z)); } nearM("mat:abs", A.getAbsoluteMatrix(), ab, la, 0.1);
    nearV("mat:skew", RM::computeSkewSymmetricMatrixForCrossProduct(rv(v)) * rv(rv3(C->rng)).getUnit(), V(), 1e30, 1e30); { V w = rv3(r); nearV("mat:skew", RM::computeSkewSymmetricMatrixForCrossProduct(rv(v)) * rv(w), og::cross(v, w), lv * og::len(w) + 1e-20); }
    nearM("mat:identity", RM::identity(), M(), 1, 0.1); RM id = A; id.setToIdentity(); nearM("mat:setIdentity", id, M(), 1, 0.1); nearM("mat:zero", RM::zero(), M(V(), V(), V()), 1, 0.1); yes("mat:equal", A == RM(A) && !(A != RM(A)) && !(A == A + RM::identity()));
    rp::Matrix2x2 P(decimal(a.r0.x), decimal(a.r0.y), decimal(a.r1.x), decimal(a.r1.y)), Q(decimal(b.r0.x), decimal(b.r0.y), decimal(b.r1.x), decimal(b.r1.y)); double det = a.r0.x * a.r1.y - a.r0.y * a.r1.x;
    near("mat2:det", P.getDeterminant(), det, la * la); near("mat2:trace", P.getTrace(), a.r0.x + a.r1.y, la); rp::Matrix2x2 pq = P * Q; near("mat2:mul", pq[0][1], a.r0.x * b.r0.y + a.r0.y * b.r1.y, la * lb); near("mat2:mul", pq[1][0], a.r1.x * b.r0.x + a.r1.y * b.r1.x, la * lb); near("mat2:mul", pq[0][0], a.r0.x * b.r0.x + a.r0.y * b.r1.x, la * lb); near("mat2:mul", pq[1][1], a.r1.x * b.r0.y + a.r1.y * b.r1.y, la * lb);
    rp::Matrix2x2 pt = P.getTranspose(); yes("mat2:transpose", pt[0][1] == P[1][0] && pt[1][0] == P[0][1] && pt[0][0] == P[0][0] && pt[1][1] == P[1][1]); rp::Vector2 w = P * rp::Vector2(decimal(v.x), decimal(v.y)); near("mat2:vec", w.x, a.r0.x * v.x + a.r0.y * v.y, la * lv + 1e-20); near("mat2:vec", w.y, a.r1.x * v.x + a.r1.y * v.y, la * lv + 1e-20);
    double c2 = la * la / std::max(1e-300, std::fabs(det)); if (c2 < 1000) { rp::Matrix2x2 i = P.getInverse(); double sc = la / std::fabs(det); near("mat2:inv", i[0][0], a.r1.y / det, sc, 20 * c2); near("mat2:inv", i[0][1], -a.r0.y / det, sc, 20 * c2); near("mat2:inv", i[1][0], -a.r1.x / det, sc, 20 * c2); near("mat2:inv", i[1][1], a.r0.x / det, sc, 20 * c2); }
    rp::Matrix2x2 sum = P + Q, dif = P - Q; near("mat2:add", sum[1][0] + 2 * sum[0][1], a.r1.x + b.r1.x + 2 * (a.r0.y + b.r0.y), 3 * (la + lb)); near("mat2:sub", dif[1][0] + 2 * dif[0][1], a.r1.x - b.r1.x + 2 * (a.r0.y - b.r0.y), 3 * (la + lb));
    C->seen(hashBytes(&a, sizeof a)); }

static double qd(RQ a, Q b) { b = og::qunit(b); double p = std::fabs(a.x - b.x) + std::fabs(a.y - b.y) + std::fabs(a.z - b.z) + std::fabs(a.w - b.w), n = std::fabs(a.x + b.x) + std::fabs(a.y + b.y) + std::fabs(a.z + b.z) + std::fabs(a.w + b.w); return std::min(p, n); }
static Q rquat(Rng& r) { Q q = rndOrient(r); if (r.chance(0.3)) { V ax; ax[int(r.below(3))] = 1; if (r.chance(0.5)) ax = rndUnit(r); q = og::axisAngle(ax, r.chance(0.5) ? M_PI - r.logUniform(1e-6, 0.5) : r.uniform(-M_PI, M_PI)); } if (r.chance(0.5)) q = Q(-q.x, -q.y, -q.z, -q.w); q = og::qunit(q); return og::qunit(Q(rd(q.x), rd(q.y), rd(q.z), rd(q.w))); }
static void quats(Rng& r) {
    Q a = rquat(r), b = rquat(r); RQ A = rq(a), B = rq(b); V v = rv3(r); double lv = og::len(v);
    near("quat:length", A.length(), 1, 1); near("quat:dot", A.dot(B), a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w, 1); near("quat:mul", qd(A * B, a * b), 0, 1); nearV("quat:rotate", A * rv(v), og::rot(a, v), lv + 1e-20); nearM("quat:matrix", A.getMatrix(), og::mat(a), 1);
    near("quat:length-preserved", (A * rv(v)).length(), lv, lv + 1e-20); near("quat:inverse", qd(A.getInverse(), og::conj(a)), 0, 1); near("quat:conjugate", qd(A.getConjugate(), og::conj(a)), 0, 1); { RQ t = A; t.inverse(); near("quat:inverse()", qd(t, og::conj(a)), 0, 1); RQ k = A * A.getInverse(); near("quat:inverse-mul", qd(k, Q()), 0, 1); }
    near("quat:from-matrix", qd(RQ(A.getMatrix()), a), 0, 1, 200); near("quat:from-matrix2", qd(RQ(rm(og::mat(a))), a), 0, 1, 200);
    { double s = r.logUniform(0.1, 10); RQ k(decimal(a.x * s), decimal(a.y * s), decimal(a.z * s), decimal(a.w * s)); near("quat:unit", qd(k.getUnit(), a), 0, 1); RQ n = k; n.normalize(); near("quat:normalize", qd(n, a), 0, 1); nearM("quat:matrix-nonunit", k.getMatrix(), og::mat(a), 1); near("quat:lengthSquare", k.lengthSquare(), s * s, s * s); }
    { double ex = rd(r.uniform(-3.1, 3.1)), ey = rd(r.uniform(-3.1, 3.1)), ez = rd(r.uniform(-3.1, 3.1)); Q e = og::axisAngle(V(0, 0, 1), ez) * og::axisAngle(V(0, 1, 0), ey) * og::axisAngle(V(1, 0, 0), ex); near("quat:euler", qd(RQ::fromEulerAngles(decimal(ex), decimal(ey), decimal(ez)), e), 0, 1); near("quat:eulerv", qd(RQ::fromEulerAngles(RV(decimal(ex), decimal(ey), decimal(ez))), e), 0, 1); }
    { double ang = r.uniform(0.3, 5.9); V ax = rndUnit(r); Q e = og::axisAngle(ax, ang); decimal g; RV gx; rq(e).getRotationAngleAxis(g, gx); near("quat:angle", g, ang, 1, 100); nearV("quat:axis", gx, ax, 1, 100); }
    { decimal t = decimal(r.unit()); if (r.chance(0.1)) t = 0; if (r.chance(0.1)) t = 1; Q d = a * og::conj(b); (void)d; double full = og::qangle(a, b); if (full < 3.0) { RQ k = RQ::slerp(A, B, t); double m = full < 0.02 ? 4000 : 300; near("quat:slerp-angle-a", og::qangle(oq(k), a), full * double(t), 1, DBL ? 1e9 : m); near("quat:slerp-angle-b", og::qangle(oq(k), b), full * (1 - double(t)), 1, DBL ? 1e9 : m); near("quat:slerp-length", k.length(), 1, 1, DBL ? 1e11 : 400); if (t == 0) near("quat:slerp-0", qd(k, a), 0, 1); if (t == 1) near("quat:slerp-1", qd(k, b), 0, 1); } }
    yes("quat:valid", A.isFinite() && A.isValid() && A.isUnit() && !RQ(2, 0, 0, 0).isUnit() && !RQ(decimal(NAN), 0, 0, 1).isFinite()); yes("quat:equal", A == RQ(A) && RQ::identity() == RQ(0, 0, 0, 1));
    // transforms
    V p = rv3(r), q = rv3(r); RT T(rv(p), A), U(rv(q), B); double sc = og::len(p) + og::len(q) + lv; V tw = og::rot(a, v) + p; nearV("tr:point", T * rv(v), tw, sc); nearV("tr:compose", (T * U) * rv(v), og::rot(a, og::rot(b, v) + q) + p, sc); nearV("tr:inverse", T.getInverse() * rv(v), og::rot(og::conj(a), v - p), sc); nearV("tr:inverse-roundtrip", T.getInverse() * (T * rv(v)), v, sc, 80); near("tr:compose-q", qd((T * U).getOrientation(), a * b), 0, 1);
    { decimal m[16]; T.getOpenGLMatrix(m); M mm = og::mat(a); for (int cc = 0; cc < 3; cc++) for (int rr = 0; rr < 3; rr++) near("tr:opengl-rot", m[cc * 4 + rr], mm.row(rr)[cc], 1); for (int k = 0; k < 3; k++) near("tr:opengl-pos", m[12 + k], p[k], og::len(p), 0.1); yes("tr:opengl-last", m[3] == 0 && m[7] == 0 && m[11] == 0 && m[15] == 1); RT W; W.setFromOpenGL(m); nearV("tr:from-opengl", W * rv(v), tw, sc, 300); }
    { RT W(rv(p), rm(og::mat(a))); nearV("tr:from-matrix", W * rv(v), tw, sc, 300); double full = og::qangle(a, b); decimal t = decimal(r.unit()); if (full < 3.0) { RT I = RT::interpolateTransforms(T, U, t); nearV("tr:interp-pos", I.getPosition(), p * (1 - double(t)) + q * double(t), sc); near("tr:interp-rot", og::qangle(oq(I.getOrientation()), a), full * double(t), 1, DBL ? 1e9 : 4000); } }
    yes("tr:equal", T == RT(T) && !(T != RT(T)) && T.isValid()); RT idt; idt.setToIdentity(); nearV("tr:identity", idt * rv(v), v, lv, 2); nearV("tr:identity2", RT::identity() * rv(v), v, lv, 2);
    C->seen(hashBytes(&a, sizeof a)); }

static void helpers(Rng& r) {
    double S = r.logUniform(0.5, 20); auto P = [&]() { return rdv(rndBox(r, S)); }; V a = P(), b = P(), c = P(), d = P(), p = P();
    // closest points
    { V ab = b - a; double t = std::min(1.0, std::max(0.0, og::dot(p - a, ab) / std::max(1e-300, og::len2(ab)))); if (og::len(ab) > 0.01 * S) nearV("closest:segment", rp::computeClosestPointOnSegment(rv(a), rv(b), rv(p)), a + ab * t, S, 4000); nearV("closest:degenerate", rp::computeClosestPointOnSegment(rv(a), rv(a), rv(p)), a, S, 1); }
    { int k = r.below(8); V e = a, f = b, g = c, h = d; if (k == 0) h = g + (f - e); if (k == 1) { g = e + (f - e) * 2; h = e + (f - e) * 3; } if (k == 2) f = e; if (k == 3) h = g; if (k == 4) { f = e; h = g; } e = rdv(e); f = rdv(f); g = rdv(g); h = rdv(h);
        double par = og::len(og::cross(og::unit(f - e), og::unit(h - g))); bool deg = k >= 2 && k <= 4;
        RV x, y; rp::computeClosestPointBetweenTwoSegments(rv(e), rv(f), rv(g), rv(h), x, y); V X = ov(x), Y = ov(y); double best = 1e300; // oracle: brute force over end points and interior
        auto seg = [&](V p0, V q0, V q1) { V w = q1 - q0; double t = og::len2(w) > 0 ? std::min(1.0, std::max(0.0, og::dot(p0 - q0, w) / og::len2(w))) : 0; return og::len(p0 - (q0 + w * t)); };
        best = std::min(std::min(seg(e, g, h), seg(f, g, h)), std::min(seg(g, e, f), seg(h, e, f))); V u = f - e, w = h - g, r0 = e - g; double A = og::dot(u, u), B = og::dot(u, w), D = og::dot(w, w), den = A * D - B * B; if (den > 1e-12 * A * D) { double s = (B * og::dot(w, r0) - D * og::dot(u, r0)) / den, t = (A * og::dot(w, r0) - B * og::dot(u, r0)) / den; if (s >= 0 && s <= 1 && t >= 0 && t <= 1) best = std::min(best, og::len((e + u * s) - (g + w * t))); }
        C->count(deg ? "segments-degenerate" : par < 0.05 ? "segments-parallel" : "segments-generic");
        if (k == 0 || deg || par > 0.05) { near("closest:segments-distance", og::len(X - Y), best, S, 400); near("closest:on-seg1", seg(X, e, f), 0, S, 40); near("closest:on-seg2", seg(Y, g, h), 0, S, 40); } }
    { V n = og::cross(b - a, c - a); if (og::len(n) > 0.2 * S * S) { double u0 = r.uniform(-1, 2), v0 = r.uniform(-1, 2), w0 = 1 - u0 - v0; V q = rdv(a * u0 + b * v0 + c * w0); decimal u, v, w; rp::computeBarycentricCoordinatesInTriangle(rv(a), rv(b), rv(c), rv(q), u, v, w); near("bary:sum", double(u) + v + w, 1, 4, 400); near("bary:u", u, u0, 4, 4000); near("bary:v", v, v0, 4, 4000); near("bary:w", w, w0, 4, 4000); } }
    { V n = rndUnit(r); RV N = rv(n); V nn = ov(N); nearV("plane:project", rp::projectPointOntoPlane(rv(p), N, rv(a)), p - nn * og::dot(nn, p - a), S); near("plane:distance", rp::computePointToPlaneDistance(rv(p), N, rv(a)), og::dot(nn, p - a), S); double pd = og::dot(nn, c), nd = og::dot(nn, b - a); decimal t = rp::computePlaneSegmentIntersection(rv(a), rv(b), decimal(pd), N); if (std::fabs(nd) > 0.05 * S) near("plane:segment", t, (pd - og::dot(nn, a)) / nd, std::fabs((pd - og::dot(nn, a)) / nd) + S / std::fabs(nd), 200); else if (std::fabs(nd) < 1e-5) yes("plane:parallel", t == -1);
        if (og::len(b - a) > 0.05 * S) near("line:distance", rp::computePointToLineDistance(rv(a), rv(b), rv(p)), og::len(og::cross(p - a, b - a)) / og::len(b - a), S, 4000); }
    { V u = rdv(rndUnit(r)), w = rdv(og::rot(og::axisAngle(rndUnit(r), r.uniform(0, 3.14)), u)); double cr = og::len2(og::cross(u, w)), dt = std::fabs(og::dot(u, w)); if (cr < 0.5e-5 || cr > 2e-5) yes("parallel", rp::areParallelVectors(rv(u), rv(w)) == (cr < 1e-5)); if (dt < 0.0008 || dt > 0.0012) yes("orthogonal", rp::areOrthogonalVectors(rv(u), rv(w)) == (dt < 1e-3)); }
    { double x = rd(r.uniform(-5, 5)), lo = rd(r.uniform(-5, 0)), hi = rd(r.uniform(0, 5)); near("clamp", rp::clamp(decimal(x), decimal(lo), decimal(hi)), std::min(hi, std::max(lo, x)), 1, 0.1); near("min3", rp::min3(decimal(x), decimal(lo), decimal(hi)), std::min(x, lo), 1, 0.1); near("max3", rp::max3(decimal(lo), decimal(x), decimal(hi)), std::max(x, hi), 1, 0.1); yes("sameSign", rp::sameSign(decimal(x), decimal(hi)) == (x >= 0 || hi == 0)); int i = r.range(-20, 20); yes("clampi", rp::clamp(i, -5, 7) == std::min(7, std::max(-5, i)) && rp::clamp(i, 3, 3) == 3); }
    { uint64_t n = r.chance(0.3) ? r.below(70) + 1 : r.next() >> (1 + r.below(60)); if (n == 0) n = 1; uint64_t q = rp::nextPowerOfTwo64Bits(n), e = 1; while (e < n) e <<= 1; yes("pow2:next", q == e); yes("pow2:is", rp::isPowerOfTwo(n) == (e == n) && !rp::isPowerOfTwo(0)); uint32_t x = r.below(70000), y = r.below(x + 1); uint32_t x2 = r.below(70000), y2 = r.below(x2 + 1); yes("pairNumbers", (rp::pairNumbers(x, y) == rp::pairNumbers(x2, y2)) == (x == x2 && y == y2)); }
    { double x = rd(r.uniform(-5, 5)); yes("approxEqual", rp::approxEqual(decimal(x), decimal(x)) && !rp::approxEqual(decimal(x), decimal(x + 0.1), decimal(0.05)) && rp::approxEqual(decimal(x), decimal(x + 0.01), decimal(0.05)) && RV::approxEqual(RV(1, 2, 3), RV(1, 2, decimal(3.01)), decimal(0.05)) && !RV::approxEqual(RV(1, 2, 3), RV(1, decimal(2.1), 3), decimal(0.05))); }
    // clipping a convex polygon by a plane: against Sutherland-Hodgman in double precision
    { int n = r.range(3, 8); Q q = rndQ(r); std::vector<V> poly; double ph = r.uniform(0, 6); for (int i = 0; i < n; i++) { double an = ph + 2 * M_PI * (i + r.uniform(-.3, .3)) / n; poly.push_back(rdv(p + og::rot(q, V(S * std::cos(an), S * std::sin(an), 0)))); }
        RV N = rv(rndUnit(r)); V nn = ov(N); V pp = rdv(p + rndBox(r, S * 0.9)); bool ok = true; for (int i = 0; i < n; i++) { V e = poly[(i + 1) % n] - poly[i]; double d0 = og::dot(nn, poly[i] - pp), d1 = og::dot(nn, poly[(i + 1) % n] - pp); if (std::fabs(og::dot(nn, e)) < 0.05 * S && d0 * d1 < 0) ok = false; if (std::fabs(d0) < 1e-3 * S) ok = false; }
        if (ok) { rp::Array<RV> in(baseAlloc()), out(baseAlloc()); for (V x : poly) in.add(rv(x)); rp::clipPolygonWithPlane(in, rv(pp), N, out);
            std::vector<V> exp; for (int i = 0; i < n; i++) { V s0 = poly[(i + n - 1) % n], e0 = poly[i]; double ds = og::dot(nn, s0 - pp), de = og::dot(nn, e0 - pp); if (de >= 0) { if (ds < 0) exp.push_back(s0 + (e0 - s0) * (ds / (ds - de))); exp.push_back(e0); } else if (ds >= 0) exp.push_back(s0 + (e0 - s0) * (ds / (ds - de))); }
            C->count(exp.empty() ? "clip-empty" : int(exp.size()) == n && exp[0].x == poly[0].x ? "clip-whole" : "clip-cut"); yes("clip:count", out.size() == exp.size(), "wrong number of vertices"); if (out.size() == exp.size()) for (size_t i = 0; i < exp.size(); i++) nearV("clip:vertex", out[i], exp[i], S + og::len(p), 4000); } }
    { rp::Array<RV> pts(baseAlloc()), nor(baseAlloc()); int k = r.range(1, 5); V c0 = (a + b) * 0.5; std::vector<V> P0, N0; for (int i = 0; i < k; i++) { P0.push_back(rdv(c0 + rndBox(r, S))); N0.push_back(rdv(rndUnit(r))); pts.add(rv(P0[i])); nor.add(rv(N0[i])); }
        double t0 = 0, t1 = 1; bool ok = og::len(b - a) > 0.1 * S; for (int i = 0; i < k; i++) { double da = og::dot(N0[i], a - P0[i]), db = og::dot(N0[i], b - P0[i]); if (std::fabs(db - da) < 0.05 * S) ok = false; double t = da / (da - db); if (db > da) t0 = std::max(t0, t); else t1 = std::min(t1, t); if (std::fabs(da) < 1e-3 * S || std::fabs(db) < 1e-3 * S) ok = false; }
        if (ok && std::fabs(t1 - t0) > 0.02) { rp::Array<RV> o = rp::clipSegmentWithPlanes(rv(a), rv(b), pts, nor, baseAlloc()); C->count(t1 > t0 ? "segclip-kept" : "segclip-empty"); if (t1 > t0) { yes("segclip:count", o.size() == 2); if (o.size() == 2) { nearV("segclip:first", o[0], a + (b - a) * t0, S, 8000); nearV("segclip:second", o[1], a + (b - a) * t1, S, 8000); } } else yes("segclip:empty", o.size() == 0); } }
    C->seen(hashBytes(&a, sizeof a)); }

static void boxes(Rng& r) {
    auto g = [&]() { return r.chance(0.3) ? double(r.range(-3, 3)) : rd(r.uniform(-4, 4)); }; auto bx = [&](V& lo, V& hi) { V a(g(), g(), g()), b(g(), g(), g()); lo = og::vmin(a, b); hi = og::vmax(a, b); };
    V l1, h1, l2, h2; bx(l1, h1); bx(l2, h2); rp::AABB A(rv(l1), rv(h1)), B(rv(l2), rv(h2)); V p(g(), g(), g());
    bool ov_ = true, con = true, inp = true, inp0 = true; for (int i = 0; i < 3; i++) { if (h1[i] < l2[i] || h2[i] < l1[i]) ov_ = false; if (l2[i] < l1[i] || h2[i] > h1[i]) con = false; if (p[i] < l1[i] - 1e-4 || p[i] > h1[i] + 1e-4) inp = false; if (p[i] < l1[i] || p[i] > h1[i]) inp0 = false; }
    yes("aabb:overlap", A.testCollision(B) == ov_ && B.testCollision(A) == ov_); yes("aabb:contains-box", A.contains(B) == con); if (inp == inp0) yes("aabb:contains-point", A.contains(rv(p)) == inp);
    yes("aabb:contains-eps", A.contains(rv(h1 + V(0.5, 0, 0)), decimal(0.6)) && !A.contains(rv(h1 + V(0.5, 0, 0)), decimal(0.4)) && !A.contains(rv(l1 - V(0, 0, 0.5)), decimal(0.4)));
    rp::AABB m; m.mergeTwoAABBs(A, B); nearV("aabb:merge2", m.getMin(), og::vmin(l1, l2), 1, 0.01); nearV("aabb:merge2", m.getMax(), og::vmax(h1, h2), 1, 0.01); m = A; m.mergeWithAABB(B); nearV("aabb:merge", m.getMin(), og::vmin(l1, l2), 1, 0.01); nearV("aabb:merge", m.getMax(), og::vmax(h1, h2), 1, 0.01);
    V e = h1 - l1; nearV("aabb:center", A.getCenter(), (l1 + h1) * 0.5, 8); nearV("aabb:extent", A.getExtent(), e, 8); near("aabb:volume", A.getVolume(), e.x * e.y * e.z, 500);
    m = A; V f(r.unit(), r.unit(), r.unit()); m.inflate(decimal(f.x), decimal(f.y), decimal(f.z)); nearV("aabb:inflate", m.getMin(), l1 - f, 8); nearV("aabb:inflate", m.getMax(), h1 + f, 8); m = A; m.inflateWithPoint(rv(p)); nearV("aabb:inflatePoint", m.getMin(), og::vmin(l1, p), 1, 0.01); nearV("aabb:inflatePoint", m.getMax(), og::vmax(h1, p), 1, 0.01);
    V sc(r.uniform(0.2, 3), r.uniform(0.2, 3), r.uniform(0.2, 3)); m = A; m.applyScale(rv(sc)); nearV("aabb:scale", m.getMin(), og::had(l1, sc), 20); nearV("aabb:scale", m.getMax(), og::had(h1, sc), 20);
    V t[3]; RV T[3]; V lo(1e9, 1e9, 1e9), hi(-1e9, -1e9, -1e9); for (int i = 0; i < 3; i++) { t[i] = V(g(), g(), g()); T[i] = rv(t[i]); lo = og::vmin(lo, t[i]); hi = og::vmax(hi, t[i]); } rp::AABB tb = rp::AABB::createAABBForTriangle(T); nearV("aabb:triangle", tb.getMin(), lo, 1, 0.01); nearV("aabb:triangle", tb.getMax(), hi, 1, 0.01); bool to = true; for (int i = 0; i < 3; i++) if (lo[i] > h1[i] || hi[i] < l1[i]) to = false; yes("aabb:triangle-box", A.testCollisionTriangleAABB(T) == to);
    // rays
    for (int k = 0; k < 4; k++) { V o(g(), g(), g()), d(g(), g(), g()); V q = d; for (int i = 0; i < 3; i++) if (r.chance(0.25)) q[i] = o[i]; V dir = rdv(q - o); if (og::len(dir) < 0.1) continue; double mf = r.chance(0.5) ? 1 : rd(r.uniform(0.1, 2)); double t0 = 0, t1 = mf, marg = 1e300, t0f = 0, t1f = 1e30; bool in = true; for (int i = 0; i < 3; i++) if (dir[i] == 0) { if (o[i] < l1[i] || o[i] > h1[i]) in = false; } else { double a = (l1[i] - o[i]) / dir[i], b = (h1[i] - o[i]) / dir[i]; if (a > b) std::swap(a, b); t0 = std::max(t0, a); t1 = std::min(t1, b); t0f = std::max(t0f, a); t1f = std::min(t1f, b); if (std::fabs(dir[i]) < 1e-4) marg = 0; } marg = std::min(marg, std::fabs(t1 - t0)); bool hit = in && t1 >= t0; bool flat = l1.x == h1.x || l1.y == h1.y || l1.z == h1.z;
        rp::Vector3 inv(decimal(1.0) / decimal(dir.x), decimal(1.0) / decimal(dir.y), decimal(1.0) / decimal(dir.z)); bool nz = dir.x && dir.y && dir.z; C->count(nz ? "ray-generic" : "ray-parallel");
        if ((marg > 1e-3 || !in) && !(flat && hit)) yes("aabb:ray", A.testRayIntersect(rv(o), inv, decimal(mf)) == hit, ("box " + vs(l1) + vs(h1) + " ray " + vs(o) + vs(dir) + " max " + std::to_string(mf)).c_str());
        double mg = std::min(std::fabs(t1f - t0f), marg); if ((mg > 1e-3 || !in) && !flat) { rp::Ray ray(rv(o), rv(o) + rv(dir)); RV hp; bool h2 = in && t1f >= t0f; yes("aabb:raycast", A.raycast(ray, hp) == h2); if (h2 && A.raycast(ray, hp)) nearV("aabb:raycast-point", hp, o + dir * t0f, (og::len(o) + og::len(dir) * (1 + t0f)), 400); } }
    C->seen(hashBytes(&l1, sizeof l1)); }

int main(int argc, char** argv) {
    return runMain(argc, argv, [](Ctx& c) { C = &c; for (int k = 0; k < 200; k++) { vectors(c.rng); matrices(c.rng); quats(c.rng); helpers(c.rng); boxes(c.rng); } c.sample("200 random operand sets for vectors, matrices, quaternions, transforms, helpers and boxes"); });
}
