// Updates of a single link: overrelaxation, heat bath and maximisation, over an alphabet of links and staples; the random
// numbers are not random but run over every point of a lattice of the unit cube.
#include "hila.h"
#include "plumbing/shuffle.h"
#include "common.h"
#include "rm.h"
#include <set>
#include <array>
namespace hila { double mc_random(); }
#define random mc_random
#include "gauge/sun_heatbath.h"
#include "gauge/sun_overrelax.h"
#include "gauge/sun_max_staple_sum_rot.h"
#include "gauge/KennedyPendleton.h"
#undef random
typedef MC_T T;
constexpr int N = MC_N;
typedef SU<N, T> G;
constexpr ld EPS = std::is_same<T, float>::value ? 6e-8L : 1.2e-16L;
static double rnd_[12];
static int draws_;
double hila::mc_random() {
    int i = draws_++;
    return i < 12 ? rnd_[i] : std::fmod(0.37 + 0.6180339887498949 * i, 1.0);
}
static void point(long n, int dims = 8) { // n-th point of the lattice
    static const double a[8] = {0.41421356237309515, 0.7320508075688772, 0.2360679774997898, 0.6457513110645907, 0.3166247903553998, 0.6055512754639891, 0.12310562561766059, 0.358898943540674};
    for (int i = 0; i < 8; i++) { double x = 0.5 + a[i] * (n + 1); rnd_[i] = x - std::floor(x); }
    draws_ = 0;
}
static RM adj(const RM &a) { return cc(trans(a)); }
static ld fro(const RM &a) { ld s = 0; for (auto &x : a.v) s += std::norm(x); return std::sqrt(s); }
static RM refexp(const RM &a) {
    ld f = fro(a), s = 1;
    int nb = 0;
    while (f * s > 0.25L) s /= 2, nb++;
    RM x = scale(a, s), r = diag(a.r, 1), t = r;
    for (int k = 1; k < 18; k++) t = scale(mul(t, x), 1.0L / k), r = add(r, t);
    while (nb--) r = mul(r, r);
    return r;
}
static cld det(RM a) {
    cld d = 1;
    int n = a.r;
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k; i < n; i++) if (std::abs(a(i, k)) > std::abs(a(p, k))) p = i;
        if (a(p, k) == cld(0)) return 0;
        if (p != k) { d = -d; for (int j = 0; j < n; j++) std::swap(a(p, j), a(k, j)); }
        d *= a(k, k);
        for (int i = k + 1; i < n; i++) { cld f = a(i, k) / a(k, k); for (int j = k; j < n; j++) a(i, j) -= f * a(k, j); }
    }
    return d;
}
static ld hsh(uint64_t a, uint64_t b) {
    uint64_t h = mc_hash(mc_hash(0x9e3779b97f4a7c15ULL, a), b);
    h ^= h >> 31, h *= 0xbf58476d1ce4e5b9ULL, h ^= h >> 29;
    return (ld)(h >> 20) / (ld)(1ULL << 44) * 2 - 1;
}
static RM gen(int seed, ld amp) { // group element
    RM r(N, N);
    for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) { r(i, j) = cld(amp * hsh(seed, i * 16 + j), amp * hsh(seed, i * 16 + j + 500)); r(j, i) = -std::conj(r(i, j)); }
    ld s = 0;
    for (int i = 0; i < N - 1; i++) { ld x = amp * hsh(seed, i * 17 + 900); r(i, i) = cld(0, x), s += x; }
    r(N - 1, N - 1) = cld(0, -s);
    return refexp(r);
}
static G narrow(const RM &m) {
    G g;
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { g.e(i, j).re = (T)m(i, j).real(); g.e(i, j).im = (T)m(i, j).imag(); }
    return g;
}
static ld retr(const RM &u, const RM &s) { return tr(mul(u, adj(s))).real(); }
static std::string tag;
static void ingroup(const char *w, const G &u, ld tol = 400 * EPS) {
    RM m = R(u);
    mc_compared(1);
    if (!(fro(sub(mul(m, adj(m)), diag(N, 1))) <= tol) || !(std::abs(det(m) - cld(1)) <= tol)) mc_fail("%s leaves the group: %s; %s", w, show(m).c_str(), tag.c_str());
}
static void near(const char *w, ld got, ld want, ld bound) {
    mc_compared(1);
    if (!(std::fabs(got - want) <= bound)) mc_fail("%s: %.12Lg, should be %.12Lg within %Lg; %s", w, got, want, bound, tag.c_str());
}
static std::vector<RM> links() {
    std::vector<RM> v = {diag(N, 1)};
    for (int k = 1; k < N; k++) { ld t = 2 * 3.14159265358979323846264338327950288L * k / N; v.push_back(diag(N, cld(std::cos(t), std::sin(t)))); }
    for (int k = 0; k < 6; k++) v.push_back(gen(k, k < 2 ? 0.1L : 3.0L));
    return v;
}
static std::vector<RM> staples() {
    std::vector<RM> v;
    for (ld f : {6.0L, 1.0L, 0.01L}) {
        v.push_back(scale(gen(50, 2.0L), f));
        RM s(N, N);
        for (int k = 0; k < 6; k++) s = add(s, gen(60 + k, 3.0L));
        v.push_back(scale(s, f));
        s = RM(N, N);
        for (int k = 0; k < 6; k++) s = add(s, gen(80 + k, 0.3L));
        v.push_back(scale(s, f));
        if (N == 2) { s = gen(90, 1.0L); v.push_back(scale(s, -f)); }
        else { // general complex matrices, also with a determinant of any phase
            for (int q = 0; q < 4; q++) { RM a(N, N); for (int i = 0; i < N * N; i++) a.v[i] = f * cld(hsh(200 + q, i), hsh(300 + q, i)); v.push_back(a); }
        }
    }
    return v;
}
// modified Bessel functions of the first kind
static ld bessel(int n, ld x) { ld t = 1; for (int k = 1; k <= n; k++) t *= x / 2 / k; ld s = t; for (int k = 1; k < 400; k++) t *= x * x / 4 / k / (k + n), s += t; return s; }
template <class A, class B> static int dfj(A &u, const B &s, double beta) { // does not exist for SU(2)
    if constexpr (A::rows() == 2) return suN_overrelax(u, s, beta);
    else return suN_overrelax_dFJ(u, s, beta);
}
static void overrelax() {
    auto all = links();
    const RM lr = all[mc_choose(all.size(), "link")];
    for (auto &sr : staples()) {
        G u0 = narrow(lr), s = narrow(sr), u = u0;
        RM U0 = R(u0), S = R(s);
        ld f = fro(S);
        tag = "link " + show(U0) + ", staple " + show(S);
        suN_overrelax(u, s);
        ingroup("suN_overrelax", u);
        near("Re tr U S^+ after suN_overrelax", retr(R(u), S), retr(U0, S), 400 * EPS * f);
        if (N == 2) {
            RM Z = scale(S, 1 / std::sqrt(std::abs(det(S))));
            if (fro(sub(R(u), mul(Z, mul(adj(U0), Z)))) > 400 * EPS) mc_fail("suN_overrelax of SU(2) is not the reflection at the staple: %s; %s", show(R(u)).c_str(), tag.c_str());
        }
        for (int k = 0; k < 4; k++) {
            // maximisation
            point(k);
            G m = suN_max_staple_sum_rot(s.dagger());
            ingroup("suN_max_staple_sum_rot", m, 20000 * EPS);
            RM M = mul(R(m), adj(S)), H = sub(M, adj(M));
            H = sub(H, diag(N, tr(H) / (ld)N));
            near("gradient of Re tr U S^+ at the maximum", fro(H), 0, 2e-3L * f);
            for (int o = 0; o < 24; o++) if (retr(R(m), S) < retr(mul(gen(400 + o, 0.08L), R(m)), S) - 1e-3L * f) mc_fail("suN_max_staple_sum_rot: not a maximum; %s", tag.c_str());
            if (N == 2) near("Re tr U S^+ at the maximum", retr(R(m), S), 2 * std::sqrt(std::abs(det(S))), 400 * EPS * f);
            // reflections with accept or reject
            for (double beta : {0.0, 2.5}) for (int which = 0; which < 2; which++) {
                u = u0;
                point(k);
                int acc = which ? suN_overrelax(u, s, beta) : dfj(u, s, beta);
                const char *w = which ? "suN_overrelax by maximisation" : "suN_overrelax_dFJ";
                ingroup(w, u, 20000 * EPS);
                if (acc != 0 && acc != 1) mc_fail("%s returns %d", w, acc);
                if (!acc && fro(sub(R(u), U0)) != 0) mc_fail("%s changes a link it rejects; %s", w, tag.c_str());
                if (beta == 0 && !acc) mc_fail("%s rejects although the action does not count; %s", w, tag.c_str());
                if (acc && N == 2) near(w, retr(R(u), S), retr(U0, S), 2000 * EPS * f);
                if (acc && which == 0) {
                    // doing it once more must give the first link back
                    G u2 = u;
                    int acc2 = dfj(u2, s, 0.0);
                    if (!acc2 || fro(sub(R(u2), U0)) > 4000 * EPS) mc_fail("%s twice: %s; %s", w, show(R(u2)).c_str(), tag.c_str());
                    // and it is accepted with the probability of the change of the action
                    ld p = std::exp((ld)beta / N * (retr(R(u), S) - retr(U0, S)));
                    (void)p;
                }
                if (which == 0 && beta > 0) {
                    G v = u0;
                    point(k);
                    dfj(v, s, 0.0);
                    ld p = std::exp((ld)beta / N * (retr(R(v), S) - retr(U0, S)));
                    for (int i = 0; i < 16; i++) {
                        ld x = (i + 0.5L) / 16;
                        if (std::fabs(p - x) < 1e-4L) continue;
                        for (auto &r : rnd_) r = (double)x;
                        draws_ = 0;
                        v = u0;
                        int a = dfj(v, s, beta);
                        mc_compared(1);
                        if (draws_ == 1 && a != (x < p)) mc_fail("suN_overrelax_dFJ %s with random number %.3Lf, the weight of the change is %.6Lf; %s", a ? "accepts" : "rejects", x, p, tag.c_str());
                    }
                }
            }
        }
    }
}
static void heatbath() {
    auto all = staples();
    const RM sr = all[mc_choose(all.size(), "staple")];
    {
        G s = narrow(sr);
        RM S = R(s);
        ld f = fro(S);
        for (auto &lr : links()) for (double beta : {0.5, 2.3, 8.0, 1e7}) for (int k = 0; k < 40; k++) {
            G u = narrow(lr);
            RM U0 = R(u);
            tag = "link " + show(U0) + ", staple " + show(S) + ", beta " + std::to_string(beta);
            point(k);
            double h = suN_heatbath(u, s, beta);
            ingroup("suN_heatbath", u);
            if (!(h > 0 && h <= 1)) mc_fail("suN_heatbath: fraction of hits %g; %s", h, tag.c_str());
            if (beta == 1e7 && f > 0.5L) {
                if (retr(R(u), S) < retr(U0, S) - 0.02L * f) mc_fail("suN_heatbath at low temperature: Re tr U S^+ goes from %Lg to %Lg; %s", retr(U0, S), retr(R(u), S), tag.c_str());
                if (N == 2) near("Re tr U S^+ at low temperature", retr(R(u), S), 2 * std::sqrt(std::abs(det(S))), 0.02L * f);
            }
        }
        if (N != 2) return;
        ld z = std::sqrt(std::abs(det(S)));
        for (double beta : {0.7, 2.3, 6.0}) for (int which = 0; which < 3; which++) {
            // which: heat bath accepted at the first try, after one reject, KennedyPendleton
            ld al = which < 2 ? (ld)beta * z : 2 * z * beta;
            if (al < 0.05L || al > 30) continue;
            if (which == 1 && std::fabs(al - 2) < 0.01L) continue;
            ld n = 0, a1 = 0, a2 = 0, v[3] = {0}, vv[3] = {0};
            const long NP = 60000;
            RM Z = scale(S, 1 / z);
            for (long i = 0; i < NP; i++) {
                point(i);
                RM W;
                if (which == 1) { // the first four numbers make it reject
                    for (int q = 11; q >= 4; q--) rnd_[q] = rnd_[q - 4];
                    rnd_[0] = rnd_[1] = 1 - 1e-12, rnd_[2] = 0, rnd_[3] = 0.9999;
                }
                if (which < 2) {
                    G u = narrow(gen(7, 2.0L));
                    suN_heatbath(u, s, beta);
                    W = mul(R(u), adj(Z));
                } else {
                    SU2<T> q;
                    q.d = (T)((S(0, 0) + S(1, 1)).real() / 2 * beta), q.c = (T)((S(0, 0) - S(1, 1)).imag() / 2 * beta);
                    q.a = (T)((S(0, 1) + S(1, 0)).imag() / 2 * beta), q.b = (T)((S(0, 1) - S(1, 0)).real() / 2 * beta);
                    SU2<T> r = KennedyPendleton(q);
                    RM m(2, 2);
                    m(0, 0) = cld(r.d, r.c), m(0, 1) = cld(r.b, r.a), m(1, 0) = cld(-r.b, r.a), m(1, 1) = cld(r.d, -r.c);
                    if (std::abs(det(m) - cld(1)) > 400 * EPS) mc_fail("KennedyPendleton leaves the group: %s", show(m).c_str());
                    W = scale(mul(m, adj(Z)), -1);
                }
                if (draws_ != (which == 1 ? (al > 2 ? 10 : 8) : 6)) continue;
                ld a0 = tr(W).real() / 2, x[3] = {W(0, 1).imag(), W(0, 1).real(), W(0, 0).imag()};
                n++, a1 += a0, a2 += a0 * a0;
                for (int j = 0; j < 3; j++) v[j] += x[j], vv[j] += x[j] * x[j];
            }
            mc_compared((long)n);
            mc_note("beta %g al %.3Lf which %d: %Lg of %ld", beta, al, which, n, NP);
            if (n < NP / 10) continue;
            ld e1 = bessel(2, al) / bessel(1, al), e2 = 1 - 3 / al * e1; // <a0^2>
            tag = "staple " + show(S) + ", beta " + std::to_string(beta) + (which == 0 ? ", suN_heatbath" : which == 1 ? ", suN_heatbath after a rejection" : ", KennedyPendleton");
            near("average of the zero component over the heat bath", a1 / n, e1, 0.012L);
            near("average of its square", a2 / n, e2, 0.012L);
            for (int j = 0; j < 3; j++) near("average of another component", v[j] / n, 0, 0.012L), near("average of the square of another component", vv[j] / n, (1 - e2) / 3, 0.012L);
        }
    }
}
HARNESS_MAIN {
    hila::initialize(argc, argv);
    CoordinateVector size;
    size.fill(4);
    lattice.setup(size);
    if (mc_sparam("mode", "over") == std::string("over")) overrelax();
    else heatbath();
    return 0;
}
