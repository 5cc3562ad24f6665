// Binning of k-space fields: every sequence of parameter changes and measurements, against direct sums.  Which site went
// to which bin is decoded from sums of distinct powers of two, so that sites exactly at a bin edge may go either way.
#include <complex>
#include "hila.h"
#include "common.h"

#ifndef MC_ELEM
#define MC_ELEM Complex<double>
#endif
using T = MC_ELEM;
using A = hila::arithmetic_type<T>;
constexpr int NR = sizeof(T) / sizeof(A);
using cd = std::complex<double>;

static CoordinateVector S;
static long V;
static long idx(const CoordinateVector &c) {
    long i = 0;
    for (int d = NDIM - 1; d >= 0; d--) i = i * S[d] + c[d];
    return i;
}
static CoordinateVector crd(long i) {
    CoordinateVector c;
    foralldir(d) { c[d] = i % S[d]; i /= S[d]; }
    return c;
}
static double knorm(long i) {
    CoordinateVector c = crd(i);
    double s = 0;
    foralldir(d) { double k = 2 * M_PI * (2 * c[d] > S[d] ? c[d] - S[d] : c[d]) / S[d]; s += k * k; }
    return sqrt(s);
}
struct Model { double max, width, power; int bins; bool set; };
static bool close(double a, double b) { return fabs(a - b) <= 1e-9 * (1 + fabs(b)); }

static void getters(hila::k_binning &kb, const Model &m) {
    if (kb.bins() != m.bins) mc_fail("bins() is %d, should be %d", kb.bins(), m.bins);
    if (!close(kb.k_max(), m.max)) mc_fail("k_max() is %g, should be %g", kb.k_max(), m.max);
    if (!close(kb.binwidth(), m.width)) mc_fail("binwidth() is %g, should be %g", kb.binwidth(), m.width);
    if (!close(kb.power(), m.power)) mc_fail("power()");
    for (int b = 0; b < m.bins; b++) {
        double lo = pow((double)b / m.bins, 1 / m.power) * m.max, hi = pow((b + 1.0) / m.bins, 1 / m.power) * m.max;
        if (!close(kb.bin_min(b), lo) || !close(kb.bin_max(b), hi)) mc_fail("limits of bin %d", b);
    }
}

// bin of each site, -1 if in none; decoded from the binned field
static std::vector<int> membership(hila::k_binning &kb, const Model &m) {
    std::vector<int> bin(V, -1);
    for (long from = 0; from < V; from += 40) {
        Field<double> f;
        onsites(ALL) f[X] = 0;
        for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
            long x = idx(lattice->coordinates(i));
            if (x >= from && x < from + 40) f.set_value_at((double)(1l << (x - from)), i);
        }
        f.mark_changed(ALL);
        std::vector<double> r = kb.bin_k_field(f);
        if (hila::myrank() != 0) continue;
        if ((int)r.size() != m.bins) mc_fail("%d bins returned", (int)r.size());
        for (int b = 0; b < m.bins; b++) {
            long v = (long)r[b];
            if (v != r[b] || v < 0 || v >= 1l << 40) mc_fail("bin %d is %g", b, r[b]);
            for (int j = 0; j < 40; j++) if (v >> j & 1) {
                long x = from + j;
                if (x >= V || bin[x] != -1) mc_fail("site counted twice");
                bin[x] = b;
            }
        }
    }
    if (hila::myrank() != 0) return bin;
    for (long x = 0; x < V; x++) {
        double y = pow(knorm(x) / m.max, m.power) * m.bins, eps = 1e-9 * (1 + y);
        int lo = (int)floor(y - eps), hi = (int)floor(y + eps);
        if (y < eps) lo = 0;
        auto fold = [&](int b) { return b >= m.bins ? -1 : b; };
        if (bin[x] != fold(lo) && bin[x] != fold(hi)) mc_fail("site with k %g is in bin %d of %d, k_max %g, should be %d", knorm(x), bin[x], m.bins, m.max, fold(lo));
    }
    mc_compared(V);
    return bin;
}
static void info(hila::k_binning &kb, const Model &m, const std::vector<int> &bin) {
    for (int b = -1; b <= m.bins + 1; b++) {
        long n = kb.count(b);
        double k = kb.k(b), s = 0;
        long c = 0;
        if (hila::myrank() != 0) continue;
        for (long x = 0; x < V; x++) if (b >= 0 && bin[x] == b) { c++; s += knorm(x); }
        if (n != c) mc_fail("count(%d) is %ld, should be %ld", b, n, c);
        if (c && !close(k, s / c)) mc_fail("k(%d) is %g, should be %g", b, k, s / c);
        if ((b < 0 || b >= m.bins) && k != 0) mc_fail("k() outside the bins");
    }
}
union TU { T v; A a[NR]; TU() {} };
static void density(hila::k_binning &kb, const Model &m, const std::vector<int> &bin) {
    std::vector<double> val(V * NR);
    for (long i = 0; i < V * NR; i++) val[i] = (i * 37 % 101) / 10.0 - 5;
    Field<T> f;
    onsites(ALL) f[X] = 0;
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        TU u;
        for (int r = 0; r < NR; r++) u.a[r] = val[idx(lattice->coordinates(i)) * NR + r];
        f.set_value_at(u.v, i);
    }
    f.mark_changed(ALL);
    std::vector<double> q = kb.bin_k_field_squarenorm(f), sd = kb.spectraldensity(f);
    if (hila::myrank() != 0) return;
    std::vector<double> rq(m.bins), rs(m.bins);
    double tot = 1;
    for (long x = 0; x < V; x++) {
        double s = 0;
        for (int r = 0; r < NR; r++) s += val[x * NR + r] * val[x * NR + r];
        if (bin[x] >= 0) rq[bin[x]] += s;
        tot += s * V;
    }
    constexpr bool cplx = hila::contains_complex<T>::value;
    for (long k = 0; k < V; k++) {
        CoordinateVector ck = crd(k);
        cd s[NR];
        for (long x = 0; x < V; x++) {
            CoordinateVector cx = crd(x);
            double ph = 0;
            foralldir(d) ph += (double)((long)ck[d] * cx[d] % S[d]) / S[d];
            cd w = std::polar(1.0, -2 * M_PI * ph);
            if (cplx) for (int r = 0; r < NR; r += 2) s[r] += w * cd(val[x * NR + r], val[x * NR + r + 1]);
            else for (int r = 0; r < NR; r++) s[r] += w * val[x * NR + r];
        }
        if (bin[k] >= 0) for (int r = 0; r < NR; r++) rs[bin[k]] += std::norm(s[r]);
    }
    double tol = sizeof(A) == 8 ? 1e-11 : 1e-5;
    for (int b = 0; b < m.bins; b++) {
        if (!(fabs(q[b] - rq[b]) <= tol * tot)) mc_fail("square norm in bin %d is %g, should be %g", b, q[b], rq[b]);
        if (!(fabs(sd[b] - rs[b]) <= tol * tot)) mc_fail("spectral density in bin %d is %g, should be %g", b, sd[b], rs[b]);
    }
    mc_compared(2 * m.bins);
}

// number of bins of width w up to max; where rounding decides, as the code has it
static int nbins(double max, double w, hila::k_binning &kb) {
    double y = max / w;
    int lo = (int)ceil(y - 1e-9), hi = (int)ceil(y + 1e-9);
    return kb.bins() == hi ? hi : lo;
}
static int default_bins() { int b = 1; foralldir(d) if (S[d] > 2 * b) b = S[d] / 2; return b; }

HARNESS_MAIN {
    hila::initialize(argc, argv);
    int lo = mc_param("lo", 4), hi = mc_param("hi", 4), st = mc_param("step", 1);
    V = 1;
    foralldir(d) { S[d] = lo + st * mc_global_choose((hi - lo) / st + 1, "side"); V *= S[d]; }
    mc_expect_exit(1);
    lattice.setup(S);
    mc_expect_exit(0);
    foralldir(d) for (long i = 0; i < V; i++) {
        CoordinateVector c = crd(i);
        double k = 2 * M_PI * (2 * c[d] > S[d] ? c[d] - S[d] : c[d]) / S[d];
        if (!close(c.convert_to_k()[d], k)) mc_fail("convert_to_k");
    }
    Model m{M_PI, 0, 1, default_bins(), false};
    int c = mc_global_choose(2, "constructor");
    if (c) { m.bins = 5; m.set = true; }
    m.width = m.max / m.bins;
    hila::k_binning kb = c ? hila::k_binning(5) : hila::k_binning();
    getters(kb, m);
    int depth = mc_param("depth", 3);
    for (int s = 0; s < depth; s++) {
        switch (mc_global_choose(11, "operation")) {
        case 0: kb.bins(3); m.bins = 3; m.set = true; m.width = m.max / 3; break;
        case 1: kb.bins(7); m.bins = 7; m.set = true; m.width = m.max / 7; break;
        case 2:
        case 3: {
            double v = s % 2 ? 2.03 : 5.9;
            kb.k_max(v);
            m.max = v;
            if (!m.set) { m.bins = nbins(v, m.width, kb); m.max = m.width * m.bins; }
            else m.width = m.max / m.bins;
            break;
        }
        case 4: {
            double w = 0.47;
            kb.binwidth(w);
            m.bins = nbins(m.max, w, kb);
            m.width = w;
            m.max = w * m.bins;
            m.set = false;
            break;
        }
        case 5: kb.power(2); m.power = 2; break;
        case 6: kb.power(1); m.power = 1; break;
        case 7: membership(kb, m); break;
        case 8: kb.k(0); break;
        case 9: kb.count(1); break;
        case 10: kb.exact_bins(2); break;
        }
        getters(kb, m);
    }
    std::vector<int> bin;
    if (mc_global_choose(2, "last measurement")) {
        for (int b = 0; b < m.bins; b++) { kb.k(b); kb.count(b); }
    }
    bin = membership(kb, m);
    info(kb, m, bin);
    density(kb, m, bin);
    return 0;
}
