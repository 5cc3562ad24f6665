// U07: the conjugate gradient solver against direct elimination
#include "hila.h"
#include <sys/time.h>
#include "common.h"
#include <array>
#include "rm.h"
typedef MC_V V;                       // the vector type
constexpr int NC = sizeof(V) / sizeof(Complex<double>);
static CoordinateVector S;
static long VOL;
static char what[200];
static long ix(const CoordinateVector &c) { long i = 0; for (int d = NDIM - 1; d >= 0; d--) i = i * S[d] + c[d]; return i; }
static CoordinateVector co(long i) { CoordinateVector c; foralldir(d) { c[d] = i % S[d]; i /= S[d]; } return c; }
static ld hsh(uint64_t a, uint64_t b) {
    uint64_t h = mc_hash(mc_hash(0x9e3779b97f4a7c15ULL, a), b);
    h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 29;
    return (ld)(h >> 20) / (ld)(1ULL << 44) * 2 - 1;
}
// M f(x) = (m + i s(x)) f(x) + sum_d w_d f(x+d), the hopping term twice on one parity
class Op {
  public:
    using vector_type = V;
    Parity par;
    double m;
    std::array<double, NDIM> w;
    Field<double> s;
    int n = 0;
    void hop(Field<V> &in, Field<V> &out, bool dag) {
        in.mark_changed(ALL);
        if (par == ALL) {
            if (!dag) out[ALL] = Complex<double>(m, s[X]) * in[X];
            else out[ALL] = Complex<double>(m, -s[X]) * in[X];
            foralldir(d) {
                double a = w[(int)d];
                if (!dag) out[ALL] += a * in[X + d];
                else out[ALL] += a * in[X - d];
            }
            return;
        }
        Field<V> t;
        t.copy_boundary_condition(in);
        t[ALL] = 0;
        foralldir(d) {
            double a = w[(int)d];
            if (!dag) t[opp_parity(par)] += a * in[X + d];
            else t[opp_parity(par)] += a * in[X - d];
        }
        if (!dag) out[par] = Complex<double>(m, s[X]) * in[X];
        else out[par] = Complex<double>(m, -s[X]) * in[X];
        foralldir(d) {
            double a = w[(int)d];
            if (!dag) out[par] += a * t[X + d];
            else out[par] += a * t[X - d];
        }
    }
    void apply(Field<V> &in, Field<V> &out) { n++; hop(in, out, false); }
    void dagger(Field<V> &in, Field<V> &out) { hop(in, out, true); }
};
#include "dirac/conjugate_gradient.h"
static void set(Field<V> &f, const RM *v) {
    f.check_alloc();
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        long x = ix(lattice->coordinates(i));
        V e;
        Complex<double> *p = (Complex<double> *)&e;
        for (int c = 0; c < NC; c++) p[c] = Complex<double>((double)v[c](x, 0).real(), (double)v[c](x, 0).imag());
        f.set_value_at(e, i);
    }
    f.mark_changed(ALL);
}
static void solve(RM a, RM &b) {
    int n = a.r;
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k; i < n; i++) if (std::abs(a(i, k)) > std::abs(a(p, k))) p = i;
        for (int j = 0; j < n; j++) std::swap(a(p, j), a(k, j));
        std::swap(b(p, 0), b(k, 0));
        cld f = 1.0L / a(k, k);
        for (int j = 0; j < n; j++) a(k, j) *= f;
        b(k, 0) *= f;
        for (int i = 0; i < n; i++) if (i != k && a(i, k) != cld(0)) { f = a(i, k); for (int j = k; j < n; j++) a(i, j) -= f * a(k, j); b(i, 0) -= f * b(k, 0); }
    }
}
HARNESS_MAIN {
    hila::initialize(argc, argv);
    static const int shapes[][4] = {{4, 4, 2, 2}, {2, 6, 4, 2}, {6, 4, 2, 4}, {4, 2, 2, 2}, {8, 8, 2, 2}};
    int k = mc_param("shape", -1);
    if (k < 0) k = mc_global_choose(mc_param("shapes", 3), "lattice");
    VOL = 1;
    foralldir(d) { S[d] = shapes[k][(int)d]; VOL *= S[d]; }
    mc_expect_exit(1);
    lattice.setup(S);
    mc_expect_exit(0);
    static const Parity pars[3] = {ALL, EVEN, ODD};
    static const char *gn[] = {"zero", "random", "exact"}, *sn[] = {"random", "point", "constant", "zero"};
    int ip = mc_global_choose(3, "parity"), bc = mc_param("bc", 1) ? mc_global_choose(1 << NDIM, "boundary") : 0, guess = mc_global_choose(3, "guess"), src = mc_global_choose(4, "source"), im = mc_global_choose(2, "mass"), acc = mc_global_choose(2, "accuracy");
    snprintf(what, sizeof what, "lattice %d, %d ranks, parity %d, antiperiodic in %d, guess %s, source %s, mass %d, accuracy %d", k, mc_nranks(), ip, bc, gn[guess], sn[src], im, acc);
    mc_state(mc_hash(mc_hash(k * 3 + ip, bc * 3 + guess), src * 4 + im * 2 + acc));
    Op M;
    M.par = pars[ip];
    M.m = im ? 2.5 : 1.1;
    std::array<double, NDIM> w;
    foralldir(d) w[(int)d] = (im ? 0.25 : 0.5) * (1 + 0.3 * (int)d);
    M.w = w;
    M.s.check_alloc();
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) M.s.set_value_at((double)hsh(5, ix(lattice->coordinates(i))), i);
    // reference operator
    RM H(VOL, VOL), m(VOL, VOL), one(VOL, VOL);
    auto in_par = [&](long x) { return ip == 0 || co(x).parity() == pars[ip]; };
    for (long x = 0; x < VOL; x++) foralldir(d) {
        CoordinateVector c = co(x) + d;
        ld sg = 1;
        if (c[d] == S[d]) { c[d] = 0; if (bc >> (int)d & 1) sg = -1; }
        H(x, ix(c)) += sg * (ld)w[(int)d];
    }
    if (ip) H = mul(H, H);
    for (long x = 0; x < VOL; x++) H(x, x) += cld(M.m, (double)hsh(5, x));
    for (long x = 0; x < VOL; x++) for (long y = 0; y < VOL; y++) m(x, y) = in_par(x) && in_par(y) ? H(x, y) : cld(x == y ? 1 : 0);
    RM A = mul(cc(trans(m)), m);
    RM in[NC], out[NC], sol[NC];
    long point = VOL / 2 + 1;
    while (!in_par(point)) point--;
    ld norm = 0;
    for (int c = 0; c < NC; c++) {
        in[c] = out[c] = RM(VOL, 1);
        for (long x = 0; x < VOL; x++) {
            in[c](x, 0) = src == 0 ? cld((double)hsh(11 + c, x), (double)hsh(21 + c, x)) : src == 1 ? cld(x == point && c == NC - 1 ? 1 : 0) : src == 2 ? cld(1, c) : cld(0);
            if (in_par(x)) norm += std::norm(in[c](x, 0));
            else in[c](x, 0) = cld((double)(1e5L * hsh(51 + c, x)), 3e5); // of no concern
        }
        sol[c] = in[c];
        solve(A, sol[c]);
        for (long x = 0; x < VOL; x++) out[c](x, 0) = !in_par(x) ? cld((double)hsh(61, x), 7) : guess == 0 || src == 3 ? cld(0) : guess == 1 ? cld((double)hsh(31 + c, x), (double)hsh(41 + c, x)) : sol[c](x, 0);
    }
    Field<V> fi, fo;
    foralldir(d) if (bc >> (int)d & 1) fi.set_boundary_condition(d, hila::bc::ANTIPERIODIC);
    set(fi, in);
    set(fo, out);
    double ac = acc ? 1e-10 : 1e-4;
    if (acc) { CG<Op> cg(M, ac); cg.apply(fi, fo); }
    else { CG<Op> cg(M, ac, 5000); cg.apply(fi, fo); }
    ld err = 0, mx = 0;
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        long x = ix(lattice->coordinates(i));
        V e = fo.get_value_at(i), s = fi.get_value_at(i);
        const Complex<double> *p = (const Complex<double> *)&e, *q = (const Complex<double> *)&s;
        for (int c = 0; c < NC; c++) {
            cld z((ld)p[c].re, (ld)p[c].im), o((ld)q[c].re, (ld)q[c].im);
            mc_compared(1);
            if (o != in[c](x, 0)) mc_fail("%s: the source changes at site %ld", what, x);
            if (!in_par(x)) { if (z != out[c](x, 0)) mc_fail("%s: the solution changes outside the parity of the operator, at site %ld", what, x); continue; }
            ld e2 = std::abs(z - sol[c](x, 0));
            if (!(e2 <= 1e300L)) mc_fail("%s: the solution is %Lg at site %ld", what, z.real(), x);
            err += e2 * e2;
            mx = std::max(mx, std::abs(sol[c](x, 0)));
        }
    }
    // |x - x*| <= |A^-1| |r|, and the smallest eigenvalue of A is at least (m - hopping)^2, or as estimated below
    static ld bound = 0;
    {   // power iteration of the inverse
        RM v(VOL, 1);
        for (long x = 0; x < VOL; x++) v(x, 0) = cld(hsh(71, x), hsh(72, x));
        ld l = 0;
        for (int n = 0; n < 12; n++) { solve(A, v); l = 0; for (auto &y : v.v) l += std::norm(y); l = std::sqrt(l); for (auto &y : v.v) y /= l; }
        bound = l;
    }
    mc_compared(2);
    if (M.n > 2 * VOL + 10) mc_fail("%s: %d iterations for %ld unknowns", what, M.n, VOL);
    if (!(std::sqrt(err) <= bound * ac * std::sqrt(norm) * 1.5L + 1e-13L * mx * bound * VOL)) mc_fail("%s: the solution is off by %Lg, |source| %Lg, norm of the inverse %Lg", what, std::sqrt(err), std::sqrt(norm), bound);
    return 0;
}
