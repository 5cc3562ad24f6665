// Gauge observables, staples, forces, smearing and flow against direct sums over the links in long double.
#include "hila.h"
#include "gauge/staples.h"
#include "gauge/polyakov.h"
#include "gauge/wilson_plaquette_action.h"
#include "gauge/wilson_line_and_force.h"
#if defined(MC_BASIC)
#elif !defined(MC_TOPO)
#define MC_FULL
#include "gauge/gradient_flow.h"
#include "gauge/stout_smear.h"
#include "gauge/stout_smear_nch.h"
#include "gauge/stout_smear_nchm.h"
#include "gauge/degauss.h"
#ifdef CSFLOWACTION
#include "gauge/cs_flow.h"
#endif
#else
#include "gauge/log_topo_supp_action.h"
#endif
#include "common.h"
#include <set>
#include <array>
#include "rm.h"
typedef MC_T T;
typedef SU<MC_N, T> G;
constexpr int N = MC_N;
constexpr ld EPS = std::is_same<T, float>::value ? 6e-8L : 1.2e-16L;
#ifdef MC_FULL
GradientFlowAction g_GF_action = GradientFlowAction::Wilson;
#endif
static const int shapes[][4] = {{4, 4, 2, 2}, {2, 4, 4, 2}, {6, 2, 2, 2}, {3, 2, 4, 3}, {8, 8, 2, 2}, {4, 4, 4, 2}, {2, 2, 2, 2}, {2, 2, 2, 4}};
static long VOL;
static int S_[NDIM];
static std::vector<RM> L[NDIM];
static char what_[200];
static RM adj(const RM &a) { return cc(trans(a)); }
static ld fro(const RM &a) { ld s = 0; for (auto &x : a.v) s += std::norm(x); return std::sqrt(s); }
static RM refexp(const RM &a) {
    ld f = fro(a), s = 1;
    int nb = 0;
    while (f * s > 0.25L) s /= 2, nb++;
    RM x = scale(a, s), r = diag(a.r, 1), t = r;
    for (int k = 1; k < 18; k++) t = scale(mul(t, x), 1.0L / k), r = add(r, t);
    while (nb--) r = mul(r, r);
    return r;
}
static RM inv(RM a) {
    int n = a.r;
    RM b = diag(n, 1);
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k; i < n; i++) if (std::abs(a(i, k)) > std::abs(a(p, k))) p = i;
        for (int j = 0; j < n; j++) std::swap(a(p, j), a(k, j)), std::swap(b(p, j), b(k, j));
        cld f = 1.0L / a(k, k);
        for (int j = 0; j < n; j++) a(k, j) *= f, b(k, j) *= f;
        for (int i = 0; i < n; i++) if (i != k) { f = a(i, k); for (int j = 0; j < n; j++) a(i, j) -= f * a(k, j), b(i, j) -= f * b(k, j); }
    }
    return b;
}
static RM reflog(const RM &u) {
    RM one = diag(u.r, 1), z = mul(sub(u, one), inv(add(u, one))), z2 = mul(z, z), t = z, s = z;
    for (int k = 1; k < 25; k++) t = mul(t, z2), s = add(s, scale(t, 1.0L / (2 * k + 1)));
    return scale(s, 2);
}
static RM proj(const RM &a) { // antihermitean traceless part
    RM r = scale(sub(a, adj(a)), 0.5L);
    return sub(r, diag(a.r, tr(r) / (ld)a.r));
}
static std::vector<RM> gens() {
    std::vector<RM> g;
    for (int k = 1; k < N; k++) {
        RM m(N, N);
        ld f = 1 / std::sqrt(2.0L * k * (k + 1));
        for (int j = 0; j < k; j++) m(j, j) = cld(0, f);
        m(k, k) = cld(0, -k * f);
        g.push_back(m);
    }
    for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) {
        RM a(N, N), s(N, N);
        a(i, j) = 0.5L, a(j, i) = -0.5L;
        s(i, j) = s(j, i) = cld(0, 0.5L);
        g.push_back(a), g.push_back(s);
    }
    return g;
}
static std::vector<RM> gen_;
static RM ofalg(const Algebra<G> &a) {
    RM r(N, N);
    for (int k = 0; k < N * N - 1; k++) r = add(r, scale(gen_[k], (ld)a.e(k)));
    return r;
}
// ---- sites
static long ix(const CoordinateVector &c) { long i = 0; for (int d = NDIM - 1; d >= 0; d--) i = i * S_[d] + c[d]; return i; }
static long ix(const int *c) { long i = 0; for (int d = NDIM - 1; d >= 0; d--) i = i * S_[d] + ((c[d] % S_[d]) + S_[d]) % S_[d]; return i; }
static void co(long i, int *c) { for (int d = 0; d < NDIM; d++) c[d] = i % S_[d], i /= S_[d]; }
static long mv(long i, int dir) {
    int c[NDIM];
    co(i, c);
    if (dir < NDIM) c[dir]++;
    else c[NDIRS - 1 - dir]--;
    return ix(c);
}
static int opp(int dir) { return NDIRS - 1 - dir; }
static RM along(const std::vector<RM> *U, long &x, int dir) {
    if (dir < NDIM) { RM r = U[dir][x]; x = mv(x, dir); return r; }
    x = mv(x, dir);
    return adj(U[opp(dir)][x]);
}
static RM line(const std::vector<RM> *U, long x, const std::vector<int> &p) {
    RM r = diag(N, 1);
    for (int d : p) r = mul(r, along(U, x, d));
    return r;
}
static ld hsh(uint64_t a, uint64_t b) {
    uint64_t h = mc_hash(mc_hash(0x9e3779b97f4a7c15ULL, a), b);
    h ^= h >> 31;
    h *= 0xbf58476d1ce4e5b9ULL;
    h ^= h >> 29;
    return (ld)(h >> 20) / (ld)(1ULL << 44) * 2 - 1;
}
static RM algebra_of(int seed, long x, int d, ld amp) {
    RM r(N, N);
    for (int k = 0; k < N * N - 1; k++) r = add(r, scale(gen_[k], amp * hsh(seed * 1000 + d, x * 64 + k)));
    return r;
}
static G narrow(const RM &m) {
    G g;
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { g.e(i, j).re = (T)m(i, j).real(); g.e(i, j).im = (T)m(i, j).imag(); }
    return g;
}
enum { ONE, STRONG, STRONG2, WEAK, CENTRE, PURE, NKIND };
static const char *kindname[] = {"identity", "strong", "strong 2", "weak", "centre", "pure gauge"};
static RM element(int kind, long x, int d) {
    switch (kind) {
    case STRONG: case STRONG2: return refexp(algebra_of(kind, x, d, 4.0L));
    case WEAK: return refexp(algebra_of(kind, x, d, 0.25L));
    case CENTRE: { int k = (int)((hsh(77, x * 8 + d) + 1) * 100); ld t = 2 * 3.14159265358979323846264338327950288L * (k % N) / N; return diag(N, cld(std::cos(t), std::sin(t))); }
    case PURE: return mul(refexp(algebra_of(kind, x, 9, 3.0L)), adj(refexp(algebra_of(kind, mv(x, d), 9, 3.0L))));
    }
    return diag(N, 1);
}
static void make(int kind, GaugeField<G> &U) {
    U = 1;
    for (int d = 0; d < NDIM; d++) {
        L[d].clear();
        std::vector<G> g;
        for (long x = 0; x < VOL; x++) { g.push_back(narrow(element(kind, x, d))); L[d].push_back(R(g.back())); }
        for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) U[Direction(d)].set_value_at(g[ix(lattice->coordinates(i))], i);
    }
}
static bool even_lattice() { for (int d = 0; d < NDIM; d++) if (S_[d] % 2) return false; return true; }
template <class A> static RM up_(const A &a) {
    if constexpr (std::is_same<A, Algebra<G>>::value) return ofalg(a);
    else return R(a);
}
template <class A, class F> static void same(const char *w, const Field<A> &f, Parity par, ld bound, F want) {
    for (unsigned i = lattice->loop_begin(par); i < lattice->loop_end(par); i++) {
        long x = ix(lattice->coordinates(i));
        RM g = up_(f.get_value_at(i)), r = want(x);
        for (size_t k = 0; k < r.v.size(); k++)
            if (!(std::abs(g.v[k] - r.v[k]) <= bound)) {
                std::stringstream s;
                s << lattice->coordinates(i);
                mc_fail("%s: %s at (%s): %s, should be %s", what_, w, s.str().c_str(), show(g).c_str(), show(r).c_str());
            }
        mc_compared(1);
    }
}
static void num(const char *w, ld got, ld want, ld bound) {
    mc_compared(1);
    if (!(std::fabs(got - want) <= bound)) mc_fail("%s: %s is %.15Lg, should be %.15Lg", what_, w, got, want);
}
// ---- actions: what the plane p=(a,b) contributes at site y
typedef ld (*Dens)(const std::vector<RM> *U, long y, int a, int b);
static ld retr(const RM &m) { return tr(m).real() / N; }
static RM plq(const std::vector<RM> *U, long y, int a, int b) { return line(U, y, {a, b, opp(a), opp(b)}); }
static ld s_plaq(const std::vector<RM> *U, long y, int a, int b) { return 1 - retr(plq(U, y, a, b)); }
static ld c12_;
static ld s_impr(const std::vector<RM> *U, long y, int a, int b) {
    return (1 - 8 * c12_) * s_plaq(U, y, a, b) + c12_ * (2 - retr(line(U, y, {a, a, b, opp(a), opp(a), opp(b)})) - retr(line(U, y, {a, b, b, opp(a), opp(b), opp(b)})));
}
static ld s_bp(const std::vector<RM> *U, long y, int a, int b) {
    RM w = scale(add(plq(U, y, a, b), diag(N, 1)), 0.5L), v = inv(mul(w, adj(w)));
    return retr(mul(v, v)) - 1;
}
static ld sq(const RM &a) { ld f = fro(a); return f * f; }
static RM leaves(const std::vector<RM> *U, long y, int a, int b, bool log) {
    int A = opp(a), B = opp(b);
    std::vector<int> p[4] = {{a, b, A, B}, {b, A, B, a}, {A, B, a, b}, {B, a, b, A}};
    RM s(N, N);
    for (auto &q : p) s = add(s, log ? reflog(line(U, y, q)) : proj(line(U, y, q)));
    return scale(s, 0.25L);
}
static ld s_clover(const std::vector<RM> *U, long y, int a, int b) { return 0.5L * sq(leaves(U, y, a, b, false)) / N; }
static ld s_log(const std::vector<RM> *U, long y, int a, int b) { return 0.5L * sq(leaves(U, y, a, b, true)) / N; }
static ld s_logp(const std::vector<RM> *U, long y, int a, int b) { return 0.5L * sq(reflog(plq(U, y, a, b))) / N; }
static ld total(Dens f, const std::vector<RM> *U) {
    ld s = 0;
    for (long y = 0; y < VOL; y++) for (int a = 0; a < NDIM; a++) for (int b = a + 1; b < NDIM; b++) s += f(U, y, a, b);
    return s;
}
static std::vector<long> around(long x, int r) {
    std::set<long> s;
    int c[NDIM], k[NDIM];
    co(x, c);
    long n = 1;
    for (int d = 0; d < NDIM; d++) n *= 2 * r + 1;
    for (long i = 0; i < n; i++) {
        long t = i;
        for (int d = 0; d < NDIM; d++) k[d] = c[d] + t % (2 * r + 1) - r, t /= 2 * r + 1;
        s.insert(ix(k));
    }
    return std::vector<long>(s.begin(), s.end());
}
// derivative of F(U) when the link (x,d) is multiplied from the left by exp(w * generator), fourth order differences
template <class F> static ld deriv(long x, int d, int k, F f) {
    const ld h = 2e-3L, c[4] = {1 / 12.0L, -8 / 12.0L, 8 / 12.0L, -1 / 12.0L}, o[4] = {-2, -1, 1, 2};
    RM keep = L[d][x];
    ld s = 0;
    for (int i = 0; i < 4; i++) {
        L[d][x] = mul(refexp(scale(gen_[k], o[i] * h)), keep);
        s += c[i] * f();
    }
    L[d][x] = keep;
    return s / h;
}
// r: how far from the site its terms can reach in the plane; negative: take every term of the action
static RM dS(Dens f, long x, int d, int r) {
    RM m(N, N);
    std::vector<std::array<long, 3>> terms;
    if (r < 0) { for (long y = 0; y < VOL; y++) terms.push_back({y, 0, 1}); }
    else for (int a = 0; a < NDIM; a++) for (int b = a + 1; b < NDIM; b++) if (a == d || b == d) {
        std::set<long> ys;
        int c[NDIM];
        for (int i = -r; i <= r; i++) for (int j = -r; j <= r; j++) { co(x, c); c[a] += i, c[b] += j; ys.insert(ix(c)); }
        for (long y : ys) terms.push_back({y, a, b});
    }
    for (int k = 0; k < N * N - 1; k++)
        m = add(m, scale(gen_[k], deriv(x, d, k, [&]() { ld s = 0; for (auto &t : terms) s += f(L, t[0], t[1], t[2]); return s; })));
    return m;
}
constexpr ld TOL = 4000 * EPS;
static void observables(GaugeField<G> &U, int kind) {
    bool r0 = mc_rank() == 0, smooth = kind != STRONG && kind != STRONG2 && kind != CENTRE;
    num("measure_plaq", r0 ? U.measure_plaq() : U.measure_plaq() * 0, r0 ? total(s_plaq, L) : 0, TOL * VOL * 10);
    double p = measure_s_wplaq(U);
    if (r0) num("measure_s_wplaq", p, total(s_plaq, L), TOL * VOL * 10);
#ifndef MC_BASIC
    T mx;
    p = measure_s_wplaq(U, mx);
    ld m = -1;
    for (long y = 0; y < VOL; y++) for (int a = 0; a < NDIM; a++) for (int b = a + 1; b < NDIM; b++) m = std::max(m, s_plaq(L, y, a, b));
    num("largest plaquette of measure_s_wplaq", mx, m, TOL);
    if (r0) num("measure_s_wplaq with maximum", p, total(s_plaq, L), TOL * VOL * 10);
#endif
    for (int d = 0; d < NDIM; d++) {
        Complex<double> pl = measure_polyakov(U, Direction(d));
        cld w = 0;
        for (long y = 0; y < VOL; y++) {
            int c[NDIM];
            co(y, c);
            if (c[d] == 0) w += tr(line(L, y, std::vector<int>(S_[d], d)));
        }
        w /= (ld)(VOL / S_[d]);
        num("real part of the Polyakov loop", pl.re, w.real(), TOL * 10);
        num("imaginary part of the Polyakov loop", pl.im, w.imag(), TOL * 10);
    }
    std::vector<Parity> ps = {ALL};
    if (even_lattice()) ps = {ALL, EVEN, ODD};
    plaqw_t<T> w;
    std::vector<ld> wr[NDIM][NDIM];
    for (int a = 0; a < NDIM; a++) for (int b = 0; b < NDIM; b++) {
        w[a][b] = 0;
        for (long y = 0; y < VOL; y++) wr[a][b].push_back((T)(1 + 0.5L * hsh(500 + std::min(a, b) * 8 + std::max(a, b), y)));
        for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) w[a][b].set_value_at((T)wr[a][b][ix(lattice->coordinates(i))], i);
    }
    GaugeField<G> all, all2, all3;
#ifdef MC_FULL
    staplesums(U, all);
    nch_staplesums(U, all2);
    nchm_staplesums(U, all3);
    VectorField<G> st[2 * (NDIM - 1)], ssum;
    get_stout_staples(U, st, ssum);
#endif
    for (int d = 0; d < NDIM; d++) {
        for (Parity par : ps) {
            Field<G> s, t;
            staplesum(U, s, Direction(d), par);
            staplesum(U, t, Direction(d), w, par);
            same("staplesum", s, par, TOL, [&](long x) { RM r(N, N); for (int e = 0; e < NDIM; e++) if (e != d) r = add(r, add(line(L, x, {e, d, opp(e)}), line(L, x, {opp(e), d, e}))); return r; });
            same("staplesum with weights", t, par, TOL, [&](long x) { RM r(N, N); for (int e = 0; e < NDIM; e++) if (e != d) r = add(r, add(scale(line(L, x, {e, d, opp(e)}), wr[d][e][x]), scale(line(L, x, {opp(e), d, e}), wr[d][e][mv(x, opp(e))]))); return r; });
        }
        Field<G> s;
        rstaplesum(U, s, Direction(d));
        auto rs = [&](long x) { RM r(N, N); for (int e = 0; e < NDIM; e++) if (e != d) r = add(r, add(line(L, mv(x, d), {e, opp(d), opp(e)}), line(L, mv(x, d), {opp(e), opp(d), e}))); return r; };
        same("rstaplesum", s, ALL, TOL, rs);
#ifdef MC_FULL
        same("staplesums", all[Direction(d)], ALL, TOL, rs);
        same("nch_staplesums", all2[Direction(d)], ALL, TOL, rs);
        same("nchm_staplesums", all3[Direction(d)], ALL, TOL, rs);
        same("sum of get_stout_staples", ssum[Direction(d)], ALL, TOL, rs);
        int k = 0;
        for (int e = 0; e < NDIM; e++) if (e != d) {
            same("upper staple of get_stout_staples", st[k][Direction(d)], ALL, TOL, [&](long x) { return line(L, mv(x, d), {e, opp(d), opp(e)}); });
            same("lower staple of get_stout_staples", st[2 * (NDIM - 1) - 1 - k][Direction(d)], ALL, TOL, [&](long x) { return line(L, mv(x, d), {opp(e), opp(d), e}); });
            k++;
        }
#endif
    }
#ifdef MC_FULL
    for (ld c : {0.0L, -1 / 12.0L, 0.3L}) {
        c12_ = (T)c;
        p = measure_s_impr(U, (T)(1 - 8 * c12_), (T)c12_);
        if (r0) num("measure_s_impr", p, total(s_impr, L), TOL * VOL * 30);
    }
    p = measure_s_clover(U);
    if (r0) num("measure_s_clover", p, total(s_clover, L), TOL * VOL * 10);
    T q = 0, e = 0;
    auto fmn = [&](long x, int a, int b, bool lg) { return leaves(L, x, a, b, lg); };
    auto topo = [&](const char *w1, const char *w2, bool lg) {
        if (NDIM == 4) {
            ld qq = 0, ee = 0;
            for (long x = 0; x < VOL; x++) {
                RM F[4][4];
                for (int a = 0; a < NDIM; a++) for (int b = a + 1; b < NDIM; b++) F[a][b] = fmn(x, a, b, lg), ee += sq(F[a][b]);
                if (NDIM == 4) qq += tr(mul(F[0][1], F[2][3])).real() - tr(mul(F[0][2], F[1][3])).real() + tr(mul(F[0][3], F[1][2])).real();
            }
            num(w1, q, qq / (4 * 3.14159265358979323846L * 3.14159265358979323846L), TOL * VOL * 10);
            num(w2, e, ee, TOL * VOL * 10);
        }
    };
    measure_topo_charge_and_energy_clover(U, q, e);
    if (r0) topo("topological charge (clover)", "energy (clover)", false);
    if (smooth) {
        p = measure_s_bp(U);
        if (r0) num("measure_s_bp", p, total(s_bp, L), TOL * VOL * 100);
        p = measure_s_log_plaq(U);
        if (r0) num("measure_s_log_plaq", p, total(s_logp, L), TOL * VOL * 100);
        p = measure_s_log(U);
        if (r0) num("measure_s_log", p, total(s_log, L), TOL * VOL * 100);
        measure_topo_charge_and_energy_log(U, q, e);
        if (r0) topo("topological charge (log)", "energy (log)", true);
    }
#endif
    // every path of 1 .. len steps
    int len = mc_param("paths", 3);
    for (int n = 1; n <= len; n++) {
        long np = 1;
        for (int i = 0; i < n; i++) np *= NDIRS;
        for (long t = 0; t < np; t++) {
            std::vector<int> q;
            std::vector<Direction> path;
            long u = t;
            for (int i = 0; i < n; i++) q.push_back(u % NDIRS), path.push_back(Direction((int)(u % NDIRS))), u /= NDIRS;
            Field<G> W;
            get_wilson_line(U, path, W);
            // the line which ends at x
            same("Wilson line", W, ALL, TOL, [&](long x) { long y = x; for (int i = n - 1; i >= 0; i--) y = mv(y, opp(q[i])); return line(L, y, q); });
        }
    }
}
typedef VectorField<Algebra<G>> KF;
// K must be -2 N dS for the action S (which is normalised with 1/N), times the factor
static void force(const char *w, const KF &K, Dens f, ld factor, int r, ld bound, const std::vector<ld> *add0 = nullptr) {
    for (int d = 0; d < NDIM; d++) {
        for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
            long x = ix(lattice->coordinates(i));
            Algebra<G> g = K[Direction(d)].get_value_at(i);
            RM m = scale(dS(f, x, d, r), -2 * N * factor);
            RM got = ofalg(g);
            if (add0) { RM b(N, N); for (int k = 0; k < N * N - 1; k++) b = add(b, scale(gen_[k], (*add0)[(x * NDIM + d) * 15 + k])); m = add(m, b); }
            mc_compared(1);
            if (!(fro(sub(m, got)) <= bound)) mc_fail("%s: %s, direction %d, site %ld: force %s, minus the derivative of the action is %s", what_, w, d, x, show(got).c_str(), show(m).c_str());
        }
    }
}
static std::vector<ld> base_;
static void fill(KF &K) {
    base_.assign(VOL * NDIM * 15, 0);
    for (int d = 0; d < NDIM; d++) {
        K[Direction(d)] = 0;
        for (long x = 0; x < VOL; x++) for (int k = 0; k < N * N - 1; k++) base_[(x * NDIM + d) * 15 + k] = (T)(hsh(900 + d, x * 64 + k));
        for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
            long x = ix(lattice->coordinates(i));
            Algebra<G> a;
            for (int k = 0; k < N * N - 1; k++) a.e(k) = (T)base_[(x * NDIM + d) * 15 + k];
            K[Direction(d)].set_value_at(a, i);
        }
    }
}
static std::vector<int> loop_;
static ld s_loop(const std::vector<RM> *U, long y, int a, int b) {
    if (a != 0 || b != 1) return 0;
    return 1 - retr(line(U, y, loop_));
}
static const ld FT = 1e-9L + 20000 * EPS;
#ifdef MC_FULL
// The force of the log clover action as the comments of log_clover_action.h state it, with d log(C) = (dC) C^+ for
// every leaf; this is the derivative only if the leaf commutes with the sum of the leaves.
static RM doc_dSlog(long x, int d) {
    RM m(N, N);
    for (long y : around(x, 1)) for (int a = 0; a < NDIM; a++) for (int b = a + 1; b < NDIM; b++) {
        if (a != d && b != d) continue;
        int A = opp(a), B = opp(b);
        std::vector<int> p[4] = {{a, b, A, B}, {b, A, B, a}, {A, B, a, b}, {B, a, b, A}};
        RM s = leaves(L, y, a, b, true);
        for (auto &q : p) {
            RM pre = diag(N, 1);
            long z = y;
            for (int dir : q) {
                long z0 = z;
                RM nx = mul(pre, along(L, z, dir));
                bool up = dir == d && z0 == x, dn = dir == opp(d) && z == x;
                const RM &w = up ? pre : nx;
                if (up || dn)
                    for (int k = 0; k < N * N - 1; k++)
                        m = add(m, scale(gen_[k], (up ? -1.0L : 1.0L) * 0.25L / N * tr(mul(mul(mul(w, gen_[k]), adj(w)), s)).real()));
                pre = nx;
            }
        }
    }
    return m;
}
static void force_log(const char *w, const KF &K, ld factor, bool added) {
    ld worst = 0;
    for (int d = 0; d < NDIM; d++) for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        long x = ix(lattice->coordinates(i));
        RM got = ofalg(K[Direction(d)].get_value_at(i));
        if (added) for (int k = 0; k < N * N - 1; k++) got = sub(got, scale(gen_[k], base_[(x * NDIM + d) * 15 + k]));
        RM doc = scale(doc_dSlog(x, d), -2 * N * factor);
        mc_compared(1);
        if (fro(sub(doc, got)) <= FT) {
            if (worst <= FT) worst = std::max(worst, fro(sub(scale(dS(s_log, x, d, 1), -2 * N * factor), got)));
            continue;
        }
        RM m = scale(dS(s_log, x, d, 1), -2 * N * factor);
        if (!(fro(sub(m, got)) <= FT)) mc_fail("%s: %s, direction %d, site %ld: force %s, minus the derivative of the action is %s", what_, w, d, x, show(got).c_str(), show(m).c_str());
    }
    if (worst > FT) mc_known("log-clover-force");
}
static void force_basic(GaugeField<G> &U) {
    KF K;
    T eps = (T)0.7;
    get_force_wplaq(U, K, eps);
    force("get_force_wplaq", K, s_plaq, eps, 1, FT);
    fill(K);
    get_force_wplaq_add(U, K, eps);
    force("get_force_wplaq_add", K, s_plaq, eps, 1, FT, &base_);
}
static void forces(GaugeField<G> &U, int kind) {
    bool smooth = kind != STRONG && kind != STRONG2 && kind != CENTRE;
    KF K;
    T eps = (T)0.7;
    force_basic(U);
    for (ld c : {0.0L, -1 / 12.0L}) {
        c12_ = (T)c;
        KF K2;
        get_force_impr(U, K2, (T)(1 - 8 * c12_), (T)c12_);
        force("get_force_impr", K2, s_impr, 1, 2, FT * 3);
    }
    c12_ = (T)-0.2;
    fill(K);
    get_force_impr_add(U, K, (T)(1 - 8 * c12_), (T)c12_);
    force("get_force_impr_add", K, s_impr, 1, 2, FT * 3, &base_);
    get_force_clover(U, K, eps);
    force("get_force_clover", K, s_clover, eps, 1, FT);
    fill(K);
    get_force_clover_add(U, K, eps);
    force("get_force_clover_add", K, s_clover, eps, 1, FT, &base_);
    if (smooth) {
        get_force_bp(U, K, eps);
        force("get_force_bp", K, s_bp, eps, 1, FT * 10);
        get_force_log_plaq(U, K, eps);
        force("get_force_log_plaq", K, s_logp, eps, 1, FT);
        get_force_log(U, K, eps);
        force_log("get_force_log", K, eps, false);
        fill(K);
        get_force_log_add(U, K, eps);
        force_log("get_force_log_add", K, eps, true);
    }
}
static void loops(GaugeField<G> &U, int n) {
    // every closed path of n steps, one per choice of the first two
    long np = 1;
    int first = mc_global_choose(NDIRS, "first step");
    for (int i = 0; i < n - 1; i++) np *= NDIRS;
    for (long t = 0; t < np; t++) {
        std::vector<Direction> path = {Direction(first)};
        loop_ = {first};
        long u = t;
        int sum[NDIM] = {0};
        for (int i = 0; i < n - 1; i++) loop_.push_back(u % NDIRS), path.push_back(Direction((int)(u % NDIRS))), u /= NDIRS;
        for (int d : loop_) if (d < NDIM) sum[d]++; else sum[opp(d)]--;
        bool closed = true;
        for (int d = 0; d < NDIM; d++) closed = closed && sum[d] % S_[d] == 0 && (sum[d] == 0 || n >= S_[d]);
        if (!closed) continue;
        std::string s = "path";
        for (int d : loop_) s += " " + std::to_string(d);
        KF K;
        fill(K);
        get_wloop_force_add(U, path, (T)0.7, K);
        force(s.c_str(), K, s_loop, (T)0.7, -1, FT, &base_);
        get_wloop_force(U, path, (T)0.7, K);
        force((s + ", get_wloop_force").c_str(), K, s_loop, (T)0.7, -1, FT);
        Field<G> W;
        get_wilson_line(U, path, W);
        get_wloop_force_from_wl(U, path, W, (T)0.7, K);
        force((s + ", get_wloop_force_from_wl").c_str(), K, s_loop, (T)0.7, -1, FT);
    }
}
// ---- stout smearing
static RM expo(const std::vector<RM> *U, long x, int d, ld c) {
    RM s(N, N);
    for (int e = 0; e < NDIM; e++) if (e != d) s = add(s, add(line(U, x, {d, e, opp(d), opp(e)}), line(U, x, {d, opp(e), opp(d), e})));
    return scale(proj(s), -c);
}
static void smear(const std::vector<RM> *U, std::vector<RM> *V, ld c) {
    for (int d = 0; d < NDIM; d++) {
        V[d].clear();
        for (long x = 0; x < VOL; x++) V[d].push_back(mul(refexp(expo(U, x, d, c)), U[d][x]));
    }
}
static void smearn(int n, ld c, std::vector<RM> *V) {
    std::vector<RM> t[NDIM];
    for (int d = 0; d < NDIM; d++) V[d] = L[d];
    while (n--) {
        smear(V, t, c);
        for (int d = 0; d < NDIM; d++) V[d] = t[d];
    }
}
static void cmpg(const char *w, const GaugeField<G> &A, const std::vector<RM> *V, ld bound) {
    for (int d = 0; d < NDIM; d++) same(w, A[Direction(d)], ALL, bound, [&](long x) { return V[d][x]; });
}
static void smearing(GaugeField<G> &U) {
    T c = (T)0.12;
    std::vector<RM> V[NDIM];
    for (int n = 0; n <= 3; n++) {
        smearn(n, c, V);
        GaugeField<G> S;
        stout_smear(U, S, c, n);
        cmpg("stout_smear", S, V, TOL * 10);
        nch_stout_smear(U, S, c, n);
        cmpg("nch_stout_smear", S, V, TOL * 10);
        nchm_stout_smear(U, S, c, n);
        cmpg("nchm_stout_smear", S, V, TOL * 10);
        using ITS = std::vector<std::array<Field<int>, NDIM>>;
        using NRM = std::vector<std::array<Field<T>, NDIM>>;
        ITS it(n), it2(n);
        NRM nr(n);
        nchm_stout_smear(U, S, it, c);
        cmpg("nchm_stout_smear with numbers of terms", S, V, TOL * 10);
        nchm_stout_smear(U, S, it2, nr, c);
        cmpg("nchm_stout_smear with numbers of terms and norms", S, V, TOL * 10);
        std::vector<RM> A[NDIM];
        for (int k = 0; k < n; k++) {
            smearn(k, c, A);
            for (int d = 0; d < NDIM; d++) for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
                long x = ix(lattice->coordinates(i));
                ld want = fro(expo(A, x, d, c)), got = nr[k][d].get_value_at(i);
                mc_compared(2);
                if (!(fabsl(want - got) <= TOL * 10)) mc_fail("%s: step %d of nchm_stout_smear, direction %d, site %ld: the norm of the exponent is given as %Lg, it is %Lg", what_, k, d, x, got, want);
                if (it[k][d].get_value_at(i) != it2[k][d].get_value_at(i)) mc_fail("%s: step %d of nchm_stout_smear: number of terms %d or %d", what_, k, it[k][d].get_value_at(i), it2[k][d].get_value_at(i));
            }
        }
    }
    std::vector<GaugeField<G>> l(3), l2(3), l3(3), l4(3), l5(3);
    std::vector<std::array<Field<int>, NDIM>> it(2), it2(2);
    std::vector<std::array<Field<T>, NDIM>> nr(2);
    std::vector<GaugeField<G>> s4(2), s5(2);
    nchm_stout_smear(U, l4, s4, it, c);
    nchm_stout_smear(U, l5, s5, it2, nr, c);
    std::vector<VectorField<G>> s(2), s2(2), s3(2), k(2);
    stout_smear(U, l, s, c);
    stout_smeark(U, l2, s2, k, c);
    nch_stout_smear(U, l3, s3, c);
    for (int n = 0; n <= 2; n++) {
        smearn(n, c, V);
        cmpg("list of stout_smear", l[n], V, TOL * 10);
        cmpg("list of stout_smeark", l2[n], V, TOL * 10);
        cmpg("list of nch_stout_smear", l3[n], V, TOL * 10);
        cmpg("list of nchm_stout_smear", l4[n], V, TOL * 10);
        cmpg("list of nchm_stout_smear with norms", l5[n], V, TOL * 10);
    }
    cmpg("the original field", U, L, 0);
}
static void pullback(GaugeField<G> &U) {
    T c = (T)0.12;
    int steps = 1 + mc_global_choose(2, "steps");
    std::vector<GaugeField<G>> l(steps + 1), l2(steps + 1), l3(steps + 1), l4(steps + 1);
    std::vector<VectorField<G>> s(steps), s2(steps), s3(steps), k(steps), s4(steps);
    std::vector<std::array<Field<int>, NDIM>> it(steps);
    stout_smear(U, l, s, c);
    stout_smeark(U, l2, s2, k, c);
    nch_stout_smear(U, l3, s3, c);
    nchm_stout_smear(U, l4, s4, it, c);
    KF K, A, B, C, D, E;
    get_force_wplaq(l[steps], K, (T)1);
    nchm_stout_smear_force(l4, s4, K, E, it, c);
    stout_smear_force(l, s, K, A, c);
    stout_smeark_force(l2, s2, k, K, B, c);
    stout_smeark_force_b(l2, k, K, C, c);
    nch_stout_smear_force(l3, s3, K, D, c);
    int d = mc_global_choose(NDIM, "direction");
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        long x = ix(lattice->coordinates(i));
        RM m(N, N);
        for (int g = 0; g < N * N - 1; g++)
            m = add(m, scale(gen_[g], -2 * N * deriv(x, d, g, [&]() { std::vector<RM> V[NDIM]; smearn(steps, c, V); return total(s_plaq, V); })));
        const KF *f[5] = {&A, &B, &C, &D, &E};
        const char *nm[5] = {"stout_smear_force", "stout_smeark_force", "stout_smeark_force_b", "nch_stout_smear_force", "nchm_stout_smear_force"};
        for (int j = 0; j < 5; j++) {
            RM got = ofalg((*f[j])[Direction(d)].get_value_at(i));
            mc_compared(1);
            if (!(fro(sub(m, got)) <= FT * 10)) mc_fail("%s: %s after %d steps, direction %d, site %ld: force %s, minus the derivative of the action of the smeared field is %s", what_, nm[j], steps, d, x, show(got).c_str(), show(m).c_str());
        }
    }
}
// ---- Gauss law
typedef std::vector<RM> RMS;
static void fillk(KF &E, RMS *e, int seed, ld amp) {
    for (int d = 0; d < NDIM; d++) {
        e[d].assign(VOL, RM(N, N));
        E[Direction(d)].check_alloc();
        for (long x = 0; x < VOL; x++) for (int k = 0; k < N * N - 1; k++) e[d][x] = add(e[d][x], scale(gen_[k], (ld)(T)(amp * hsh(seed * 100 + d, x * 64 + k))));
        for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
            long x = ix(lattice->coordinates(i));
            Algebra<G> a;
            for (int k = 0; k < N * N - 1; k++) a.e(k) = (T)(amp * hsh(seed * 100 + d, x * 64 + k));
            E[Direction(d)].set_value_at(a, i);
        }
        E[Direction(d)].mark_changed(ALL);
    }
}
static RM turn(const RM &u, const RM &a) { return mul(mul(u, a), adj(u)); }
static ld gaussref(const RMS *E, RMS &g) {
    ld s = 0;
    g.assign(VOL, RM(N, N));
    for (long x = 0; x < VOL; x++) {
        for (int d = 0; d < NDIM; d++) {
            long y = mv(x, opp(d));
            g[x] = add(g[x], sub(E[d][x], turn(adj(L[d][y]), E[d][y])));
        }
        s += 2 * fro(g[x]) * fro(g[x]);
    }
    return s / VOL; // the sum of the squares of the coefficients is twice the square of the matrix
}
static void stepref(RMS *E, const RMS &g, ld m) {
    for (int d = 0; d < NDIM; d++) for (long x = 0; x < VOL; x++) E[d][x] = sub(E[d][x], scale(sub(g[x], turn(L[d][x], g[mv(x, d)])), m));
}
static void cmpk(const char *w, const Field<Algebra<G>> &A, const RMS &v, ld bound, int d) {
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        long x = ix(lattice->coordinates(i));
        RM a = ofalg(A.get_value_at(i));
        mc_compared(1);
        if (!(fro(sub(a, v[x])) <= bound)) mc_fail("%s: %s, direction %d, site %ld: %s instead of %s", what_, w, d, x, show(a).c_str(), show(v[x]).c_str());
    }
}
static void gauss(GaugeField<G> &U) {
    int ek = mc_global_choose(3, "field");
    KF E, F;
    RMS e[NDIM], f[NDIM], g;
    fillk(E, e, 17 + ek, ek == 0 ? 1.0L : ek == 1 ? 0.01L : 0);
    F = E;
    for (int d = 0; d < NDIM; d++) f[d] = e[d];
    Field<Algebra<G>> viol;
    gaussref(e, g);
    get_gauss_violation(U, E, viol);
    cmpk("get_gauss_violation", viol, g, TOL * 10, -1);
    for (int d = 0; d < NDIM; d++) cmpk("E after get_gauss_violation", E[Direction(d)], e[d], 0 + TOL / 100, d);
    gauss_fix_step(U, E, viol, (T)0.1);
    stepref(e, g, 0.1L);
    for (int d = 0; d < NDIM; d++) cmpk("gauss_fix_step", E[Direction(d)], e[d], TOL * 10, d);
    // the steps of degauss
    E = F;
    for (int d = 0; d < NDIM; d++) e[d] = f[d];
    ld v0 = gaussref(e, g), quality = std::is_same<T, float>::value ? 1e-8L : 1e-16L;
    int q = mc_global_choose(3, "quality");
    if (q == 1) quality = 1e-2L * v0 + 1e-10L;
    if (q == 2) quality = 10;
    int want = 0;
    ld v;
    bool near = false;
    do {
        gaussref(e, g);
        stepref(e, g, 1.25L / 12);
        v = gaussref(e, g);
        stepref(e, g, 1.25L / 6);
        near = near || fabsl(v / quality - 1) < 1e-3L;
        want++;
    } while (v > quality && want < 3000);
    int got = degauss(U, E, (double)quality);
    mc_compared(1);
    bool exact = !near && (v0 == 0 || q != 0 || !std::is_same<T, float>::value);
    if (exact && got != want) mc_fail("%s: degauss makes %d steps for quality %Lg, not %d", what_, got, quality, want);
    if (exact) for (int d = 0; d < NDIM; d++) cmpk("degauss", E[Direction(d)], e[d], TOL * 1000, d);
    RMS z[NDIM];
    cmpg("the links after degauss", U, L, 0);
    double vv;
    get_gauss_violation(U, E, viol);
    vv = viol.squarenorm() / VOL;
    mc_compared(1);
    if (mc_rank() == 0 && !(vv <= quality * 1.001L)) mc_fail("%s: Gauss violation is %g after degauss to quality %Lg", what_, vv, quality);
}
// ---- gradient flow
static void refforce(const std::vector<RM> *U, std::vector<RM> *K) {
    for (int d = 0; d < NDIM; d++) {
        K[d].clear();
        for (long x = 0; x < VOL; x++) {
            RM s(N, N);
            for (int e = 0; e < NDIM; e++) if (e != d) s = add(s, add(line(U, x, {d, e, opp(d), opp(e)}), line(U, x, {d, opp(e), opp(d), e})));
            K[d].push_back(scale(proj(s), -1));
        }
    }
}
static void refflow(std::vector<RM> *U, ld t, int n) { // the three stage third order scheme, small steps
    ld h = t / n;
    std::vector<RM> a[NDIM], b[NDIM], c[NDIM];
    for (int i = 0; i < n; i++) {
        refforce(U, a);
        for (int d = 0; d < NDIM; d++) for (long x = 0; x < VOL; x++) U[d][x] = mul(refexp(scale(a[d][x], h / 4)), U[d][x]);
        refforce(U, b);
        for (int d = 0; d < NDIM; d++) for (long x = 0; x < VOL; x++) { b[d][x] = sub(scale(b[d][x], h * 8 / 9), scale(a[d][x], h * 17 / 36)); U[d][x] = mul(refexp(b[d][x]), U[d][x]); }
        refforce(U, c);
        for (int d = 0; d < NDIM; d++) for (long x = 0; x < VOL; x++) U[d][x] = mul(refexp(sub(scale(c[d][x], h * 3 / 4), b[d][x])), U[d][x]);
    }
}
static void flow(GaugeField<G> &U, int kind) {
    int act = mc_global_choose(N_GradientFlowAction, "action");
    g_GF_action = GradientFlowAction(act);
    bool smooth = kind == WEAK || kind == PURE || kind == ONE;
    if (!smooth && (act == Bulk_Prevention || act == Log_Plaq || act == DBW2)) return;
    GaugeField<G> V, W;
    V = U;
    W = U;
    double s0 = measure_gf_s(U);
    T at = std::is_same<T, float>::value ? (T)1e-4 : (T)1e-7, rt = std::is_same<T, float>::value ? (T)1e-3 : (T)1e-6;
    const T l1 = (T)0.8, l2 = (T)1.5;
    do_gradient_flow_adapt(V, (T)0, l2, at, rt);
    T st = do_gradient_flow_adapt(W, (T)0, l1, at, rt);
    double s1 = measure_gf_s(W);
    do_gradient_flow_adapt(W, l1, l2, at, rt, st);
    double s2 = measure_gf_s(W);
    if (mc_rank() == 0 && kind != ONE && kind != PURE && kind != CENTRE && !(s1 < s0 && s2 < s1)) mc_fail("%s: the action is %g at the beginning of the flow of type %d, then %g and %g", what_, s0, act, s1, s2);
    if (mc_rank() == 0 && (kind == ONE || kind == PURE)) num("action of a flowed trivial field", s2, 0, TOL * VOL * 100);
    for (int d = 0; d < NDIM; d++) for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        RM a = R(V[Direction(d)].get_value_at(i)), b = R(W[Direction(d)].get_value_at(i));
        mc_compared(1);
        if (!(fro(sub(a, b)) <= (std::is_same<T, float>::value ? 1e-2L : 2e-5L))) mc_fail("%s: flow of type %d in one and in two parts differ by %Lg", what_, act, fro(sub(a, b)));
        if (!(fro(sub(mul(a, adj(a)), diag(N, 1))) <= TOL)) mc_fail("%s: flow of type %d leaves the group", what_, act);
    }
    if (act == Wilson) {
        std::vector<RM> X[NDIM];
        for (int d = 0; d < NDIM; d++) X[d] = L[d];
        refflow(X, l2 * l2 / 8, 40);
        cmpg("gradient flow", V, X, std::is_same<T, float>::value ? 1e-2L : 2e-5L);
    }
}
// ---- constant action flow
#ifdef CSFLOWACTION
static void get_force_of_action(const GaugeField<G> &U, KF &F) {
#if CSFLOWACTION == 1
    get_force_bp(U, F, (T)1);
#elif CSFLOWACTION >= 2 && CSFLOWACTION <= 4
    T c = CSFLOWACTION == 2 ? (T)(-1.0 / 12.0) : CSFLOWACTION == 3 ? (T)-0.331 : (T)-1.4088;
    get_force_impr(U, F, (T)(1 - 8 * c), c);
#elif CSFLOWACTION == 5
    get_force_log_plaq(U, F, (T)1);
#endif
}
static void csflow(GaugeField<G> &U, int kind) {
    if (kind == ONE || kind == PURE || kind == CENTRE) return; // no force there
    KF K, F;
    RMS k[NDIM], f[NDIM];
    fillk(K, k, 31, 1);
    if (CSFLOWACTION == 0) refforce(L, f);
    else {
        // for the other actions the force is that of U03, as given
        get_force_of_action(U, F);
    }
    get_cs_force(U, K);
    double s0 = measure_cs_s(U);
    for (int d = 0; d < NDIM; d++) for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        long x = ix(lattice->coordinates(i));
        RM a = CSFLOWACTION == 0 ? f[d][x] : ofalg(F[Direction(d)].get_value_at(i));
        a = scale(a, 1 / fro(a));
        RM b = k[d][x];
        b = sub(b, scale(a, tr(mul(adj(a), b))));
        b = scale(b, 1 / fro(b)), k[d][x] = b;
        RM got = ofalg(K[Direction(d)].get_value_at(i));
        mc_compared(1);
        if (!(fro(sub(b, got)) <= TOL * 1000)) mc_fail("%s: get_cs_force of type %d, direction %d, site %ld: %s, should be %s", what_, CSFLOWACTION, d, x, show(got).c_str(), show(b).c_str());
    }
    int len = mc_global_choose(3, "length");
    T t = (T)(len == 0 ? 0.002 : len == 1 ? 0.05 : 0.4);
    GaugeField<G> V;
    V = U;
    do_cs_flow_adapt(V, K, t, (T)1e-7, (T)1e-6);
    double s1 = measure_cs_s(V);
    mc_compared(1);
    if (mc_rank() == 0 && !(fabs(s1 - s0) <= 2e-4 * fabs(s0) + 1e-12)) mc_fail("%s: flow of type %d for time %g changes the action from %.12g to %.12g", what_, CSFLOWACTION, (double)t, s0, s1);
    for (int d = 0; d < NDIM; d++) for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        long x = ix(lattice->coordinates(i));
        RM v = R(V[Direction(d)].get_value_at(i));
        mc_compared(1);
        if (!(fro(sub(mul(v, adj(v)), diag(N, 1))) <= TOL)) mc_fail("%s: the flow leaves the group", what_);
        RM q = mul(v, adj(L[d][x]));
        if (len == 0 && !(fro(sub(scale(sub(q, adj(q)), 0.5L / t), k[d][x])) <= 0.1L)) mc_fail("%s: flow of type %d for time %g, direction %d, site %ld: moves with %s, should be %s", what_, CSFLOWACTION, (double)t, d, x, show(scale(sub(q, adj(q)), 0.5L / t)).c_str(), show(k[d][x]).c_str());
    }
    cmpg("the original field", U, L, 0);
}
#endif
#endif
#ifdef MC_TOPO
// sum over the sites and the three pairs of orthogonal planes of tr(F F')^2 / N
static ld topo_total(const std::vector<long> &ys) {
    ld s = 0;
    for (long y : ys) {
        const int pl[3][4] = {{0, 1, 2, 3}, {0, 2, 1, 3}, {0, 3, 1, 2}};
        for (auto &p : pl) { ld q = tr(mul(reflog(plq(L, y, p[0], p[1])), reflog(plq(L, y, p[2], p[3])))).real(); s += q * q / N; }
    }
    return s;
}
static void topo(GaugeField<G> &U) {
    std::vector<long> every;
    for (long y = 0; y < VOL; y++) every.push_back(y);
    double p = measure_s_topo_supp(U);
    if (mc_rank() == 0) num("measure_s_topo_supp", p, topo_total(every), TOL * VOL * 100);
}
#endif
HARNESS_MAIN {
    hila::initialize(argc, argv);
    gen_ = gens();
    int sh = mc_param("shape", -1), k = sh >= 0 ? sh : mc_global_choose(mc_param("shapes", 4), "lattice");
    CoordinateVector size;
    VOL = 1;
    for (int d = 0; d < NDIM; d++) size[Direction(d)] = S_[d] = shapes[k][d], VOL *= S_[d];
    mc_expect_exit(1);
    lattice.setup(size);
    mc_expect_exit(0);
    int kind = mc_global_choose(NKIND, "configuration");
    std::string shs;
    for (int d = 0; d < NDIM; d++) shs += (d ? "x" : "") + std::to_string(S_[d]);
    snprintf(what_, sizeof what_, "SU(%d) %s, lattice %s, %d ranks, links %s", N, std::is_same<T, float>::value ? "float" : "double", shs.c_str(), mc_nranks(), kindname[kind]);
    GaugeField<G> U;
    make(kind, U);
    std::string mode = mc_sparam("mode", "obs");
    if (mode == "obs") observables(U, kind);
#ifdef MC_TOPO
    if (mode == "topo" && (kind == WEAK || kind == PURE || kind == ONE)) topo(U);
#endif
#ifdef MC_FULL
    if (mode == "force") forces(U, kind);
    if (mode == "loops") loops(U, mc_param("len", 4));
    if (mode == "smear") smearing(U);
    if (mode == "pullback") pullback(U);
    if (mode == "flow") flow(U, kind);
#if NDIM < 4
    if (mode == "gauss") gauss(U);
#endif
#ifdef CSFLOWACTION
    if (mode == "csflow") csflow(U, kind);
#endif
#endif
    return 0;
}
