// Field::sum, product, min and max: every field over a small alphabet on tiny lattices, against loops over the whole lattice.
#include <limits>
#include "hila.h"
#include "common.h"
#include "elem.h"

static long par_of(long i) { long s = 0; CoordinateVector c = crd(i); foralldir(d) s += c[d]; return s & 1; }
static bool in(long i, Parity p) { return p == ALL || (p == EVEN) == (par_of(i) == 0); }
static const Parity PAR[3] = {ALL, EVEN, ODD};

static void check(const Field<T> &f, const std::vector<T> &r, bool ends) {
    bool root = hila::myrank() == 0;
    for (int k = 0; k < 3; k++) {
        Parity p = PAR[k];
        T mn = std::numeric_limits<T>::max(), mx = std::numeric_limits<T>::lowest(), sum = 0, prod = 1;
        long n = 0;
        for (long i = 0; i < V; i++) if (in(i, p)) {
            if (!n || r[i] < mn) mn = r[i];
            if (!n || r[i] > mx) mx = r[i];
            if (!ends) { sum += r[i]; prod *= r[i]; }
            n++;
        }
        if (n == 0) continue;
        if (f.min(p) != mn) mc_fail("min(parity %d) is %.20Lg, should be %.20Lg", k, (long double)f.min(p), (long double)mn);
        if (f.max(p) != mx) mc_fail("max(parity %d) is %.20Lg, should be %.20Lg", k, (long double)f.max(p), (long double)mx);
        for (int m = 0; m < 2; m++) {
            CoordinateVector l;
            l.fill(-77 - hila::myrank());
            T v = m ? f.max(p, l) : f.min(p, l);
            if (v != (m ? mx : mn)) mc_fail("%s with location, parity %d", m ? "max" : "min", k);
            bool ok = true;
            foralldir(d) if (l[d] < 0 || l[d] >= S[d]) ok = false;
            if (!ok || !in(idx(l), p) || r[idx(l)] != v) {
                std::stringstream ss;
                ss << l;
                mc_fail("%s(parity %d) is not at the returned location %s", m ? "max" : "min", k, ss.str().c_str());
            }
            // the same location everywhere
            CoordinateVector l0 = l;
            hila::broadcast(l0);
            if (l0 != l) mc_fail("ranks got different locations");
        }
        if (!ends) {
            T s = f.sum(p), s2 = f.sum(p, false), q = f.product(p), q2 = f.product(p, false);
            if (s != sum) mc_fail("sum(parity %d)", k);
            if (q != prod) mc_fail("product(parity %d)", k);
            if (root && s2 != sum) mc_fail("sum(parity %d, false)", k);
            if (root && q2 != prod) mc_fail("product(parity %d, false)", k);
        }
        mc_compared(10);
    }
    if (!ends) {
        CoordinateVector l;
        if (f.sum() != f.sum(ALL) || f.product() != f.product(ALL)) mc_fail("sum() or product()");
        if (f.min() != f.min(ALL) || f.max() != f.max(ALL) || f.min(l) != f.min(ALL) || f.max(l) != f.max(ALL)) mc_fail("default parity");
    }
}

HARNESS_MAIN {
    mc_thread_orders(0);
    hila::initialize(argc, argv);
    choose_lattice();
    mc_thread_orders(1);
    using lim = std::numeric_limits<T>;
    int set = mc_param("alphabet", 0), na;
    T a[8];
    if (set == 0) { na = 3; a[0] = -3; a[1] = -1; a[2] = 2; }
    else if (set == 1) { na = 2; a[0] = lim::max(); a[1] = lim::lowest(); }
    else { na = 2; a[0] = lim::min() > 0 ? lim::min() : 1; a[1] = 0; }
    if (mc_param("sparse", 0)) {   // one or two special sites on a larger lattice
        long i = mc_global_choose(V, "site"), j = mc_global_choose(V, "site 2");
        Field<T> f;
        std::vector<T> r(V);
        for (long k = 0; k < V; k++) r[k] = a[1];
        r[i] = a[0];
        r[j] = a[2];
        f[ALL] = 0;
        for (unsigned k = lattice->loop_begin(ALL); k < lattice->loop_end(ALL); k++) f.set_value_at(r[idx(lattice->coordinates(k))], k);
        check(f, r, false);
        return 0;
    }
    long n = 1;
    for (long i = 0; i < V; i++) n *= na;
    // the first sites are choices of the explorer, the others are run through here
    int first = 0;
    long outer = 1;
    while (outer < 64 && outer * na < n) outer *= na;
    long base = mc_global_choose(outer, "first sites") + first;
    Field<T> f;
    f[ALL] = 0;
    std::vector<T> r(V);
    for (long c = 0; c < n / outer; c++) {
        long k = c * outer + base;
        for (long i = 0; i < V; i++) { r[i] = a[k % na]; k /= na; }
        for (unsigned q = lattice->loop_begin(ALL); q < lattice->loop_end(ALL); q++) f.set_value_at(r[idx(lattice->coordinates(q))], q);
        f.mark_changed(ALL);
        check(f, r, set != 0);
    }
    return 0;
}
