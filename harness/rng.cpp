// Random numbers: reproducible after seeding whatever came before, different on every rank and site, in range;
// unseeded use refused; shuffles are permutations common to all ranks.
#include <set>
#include <map>
#include <cstring>
#include "hila.h"
#include "common.h"
#include "elem.h"
#include "plumbing/shuffle.h"

struct Pool { double v[64][4096]; long n[64]; };
static Pool *pool;
static std::vector<double> obs;

static void unit(double x, const char *what) {
    if (!(x >= 0 && x < 1)) mc_fail("%s: %.17g is not in [0,1)", what, x);
}
static Field<double> fd, ft;
static Field<T> fe;

// all sites of all ranks
static void distinct(Field<double> &f, const char *what) {
    long n = 0;
    int r = mc_rank();
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) pool->v[r][n++] = f.get_value_at(i);
    pool->n[r] = n;
    mc_barrier();
    std::set<double> all;
    long tot = 0;
    for (int q = 0; q < mc_nranks(); q++) for (long k = 0; k < pool->n[q]; k++) {
        tot++;
        if (!all.insert(pool->v[q][k]).second) mc_fail("%s: the same random number %.17g at two sites", what, pool->v[q][k]);
    }
    if (tot != V) mc_fail("%s: %ld sites", what, tot);
    mc_barrier();
    mc_compared(tot);
}
static void same(const void *p, size_t bytes, const char *what) {
    int r = mc_rank();
    memcpy(pool->v[r], p, bytes);
    mc_barrier();
    if (memcmp(pool->v[r], pool->v[0], bytes)) mc_fail("%s differs between ranks", what);
    mc_barrier();
}

enum { RND, GAUSS, GAUSS2, FIELD, FGAUSS, EVENS, SHUF, SHUFV, RANK0, CPLX, MAT, NSEQ };
static double helper(double a) { return a * hila::random(); }
static void op(int o) {
    if (o == RND) {
        double x = hila::random(), y;
        unit(x, "random()");
        hila::random(y);
        unit(y, "random(variable)");
        obs.push_back(x);
        obs.push_back(y);
        obs.push_back(hila::random<double>());
    } else if (o == GAUSS) {
        obs.push_back(hila::gaussrand());
    } else if (o == GAUSS2) {
        double b;
        obs.push_back(hila::gaussrand2(b));
        obs.push_back(b);
    } else if (o == FIELD) {
        fd.random();
        for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) { obs.push_back(fd.get_value_at(i)); unit(obs.back(), "Field::random()"); }
        distinct(fd, "Field::random()");
        fe.random();
        for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) { T t = fe.get_value_at(i); obs.push_back(squarenorm(t)); }
        onsites(ALL) ft[X] = helper(0.5);
        distinct(ft, "random() in a function");
        for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) { obs.push_back(ft.get_value_at(i)); unit(2 * obs.back(), "random() in a function"); }
    } else if (o == FGAUSS) {
        fe.gaussian_random(2.0);
        for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) { T t = fe.get_value_at(i); obs.push_back(squarenorm(t)); }
        fd.gaussian_random();
        for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) obs.push_back(fd.get_value_at(i));
        distinct(fd, "Field::gaussian_random()");
    } else if (o == EVENS) {
        fd[ALL] = -1;
        fd[EVEN] = hila::random();
        for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
            double x = fd.get_value_at(i);
            if (lattice->coordinates(i).parity() == EVEN) { unit(x, "random() in a loop"); obs.push_back(x); }
            else if (x != -1) mc_fail("loop over even sites changed an odd one");
            else fd.set_value_at(-1.0 - idx(lattice->coordinates(i)), i);
        }
        distinct(fd, "random() in a loop");
    } else if (o == SHUF) {
        auto a = hila::shuffle_directions_and_parities();
        same(&a, sizeof a, "shuffle_directions_and_parities()");
        std::set<std::pair<int, int>> s;
        for (auto &q : a) {
            if ((int)q.direction < 0 || (int)q.direction >= NDIM || (q.parity != EVEN && q.parity != ODD)) mc_fail("shuffle_directions_and_parities() returned something else");
            s.insert({(int)q.direction, (int)q.parity});
            obs.push_back(10 * (int)q.direction + (int)q.parity);
        }
        if (s.size() != 2 * NDIM) mc_fail("shuffle_directions_and_parities() is not a permutation");
        auto b = hila::shuffle_directions();
        same(&b, sizeof b, "shuffle_directions()");
        std::set<int> t;
        for (auto d : b) { if ((int)d < 0 || (int)d >= NDIM) mc_fail("shuffle_directions() returned something else"); t.insert((int)d); obs.push_back((int)d); }
        if (t.size() != NDIM) mc_fail("shuffle_directions() is not a permutation");
        auto c = hila::shuffle_parities();
        same(&c, sizeof c, "shuffle_parities()");
        if (!((c[0] == EVEN && c[1] == ODD) || (c[0] == ODD && c[1] == EVEN))) mc_fail("shuffle_parities() is not a permutation");
        obs.push_back(c[0] == EVEN);
    } else if (o == SHUFV) {
        for (int n = 0; n < 6; n++) {
            std::vector<int> v(n);
            for (int i = 0; i < n; i++) v[i] = 3 * i;
            hila::shuffle(v);
            std::set<int> s(v.begin(), v.end());
            if ((int)v.size() != n || (int)s.size() != n) mc_fail("shuffle() lost elements");
            for (int x : v) { if (x % 3 || x < 0 || x >= 3 * n) mc_fail("shuffle() changed elements"); obs.push_back(x); }
        }
    } else if (o == RANK0) {
        if (mc_rank() == 0) obs.push_back(hila::random());
    } else if (o == CPLX) {
        Complex<double> z;
        z.random();
        unit(z.re, "Complex::random()");
        unit(z.im, "Complex::random()");
        obs.push_back(z.re);
        obs.push_back(z.im);
        z.gaussian_random();
        obs.push_back(z.re);
        obs.push_back(z.im);
        obs.push_back(hila::gaussian_random<double>());
    } else if (o == MAT) {
        Matrix<3, 3, Complex<double>> m;
        m.random();
        for (int i = 0; i < 9; i++) { unit(m.c[i].re, "Matrix::random()"); unit(m.c[i].im, "Matrix::random()"); obs.push_back(m.c[i].re); obs.push_back(m.c[i].im); }
        Matrix<3, 3, double> g;                  // an odd number of elements
        g.gaussian_random();
        for (int i = 0; i < 9; i++) obs.push_back(g.c[i]);
        Array<2, 1, double> a;
        a.random();
        for (int i = 0; i < 2; i++) { unit(a.e(i), "Array::random()"); obs.push_back(a.e(i)); }
        a.gaussian_random();
        for (int i = 0; i < 2; i++) obs.push_back(a.e(i));
    }
}
static std::vector<double> record(const std::vector<int> &q) {
    obs.clear();
    for (int o : q) op(o);
    // how the generator goes on is observed, too
    for (int i = 0; i < 2; i++) { obs.push_back(hila::gaussrand()); obs.push_back(hila::random()); }
    return obs;
}
static const uint64_t SEEDS[5] = {1, 2, 4711, 1ull << 31, ~0ull};

int unseeded(int k) {
    Field<double> f = 0;
    Field<Vector<3, double>> v;
    double s = 0;
    if (k == 0) f[ALL] = hila::random();
    else if (k == 1) onsites(EVEN) f[X] = helper(1);
    else if (k == 2) f.random();
    else if (k == 3) v.gaussian_random();
    else if (k == 4) onsites(ALL) { if (hila::random() < 0.5) f[X] = 1; }
    else if (k == 5) onsites(ALL) s += hila::gaussrand();
    else if (k == 6) onsites(ALL) { Complex<double> z; z.gaussian_random(); f[X] = z.re; }
    else if (k == 7) onsites(ALL) { SU<2, double> u; u.random(); f[X] = u.e(0, 0).re; }
    else if (k == 8) hila::check_that_rng_is_initialized();
    return 0;
}

struct Moments {
    double n = 0, s[5] = {0, 0, 0, 0, 0};
    void add(double x) { n++; double p = 1; for (int k = 1; k < 5; k++) s[k] += (p *= x); }
    double m(int k) { return s[k] / n; }
};
static void near(double x, double want, double sigma, const char *what) {
    mc_compared(1);
    if (!(fabs(x - want) < 6 * sigma)) mc_fail("%s is %.6g, should be %.6g (+- %.2g)", what, x, want, sigma);
}
static void gauss(Moments &q, double w, const char *what) {
    double n = sqrt(q.n);
    near(q.m(1) / w, 0, 1 / n, what);
    near(q.m(2) / w / w, 1, sqrt(2.) / n, what);
    near(q.m(3) / w / w / w, 0, sqrt(15.) / n, what);
    near(q.m(4) / w / w / w / w, 3, sqrt(96.) / n, what);
}

static void flat(const std::vector<Moments> &q, const std::vector<Moments> &p, double w, const char *what) {
    char b[200];
    for (size_t i = 0; i < q.size(); i++) { snprintf(b, sizeof b, "moment of element %d of %s", (int)i, what); gauss(const_cast<Moments &>(q[i]), w, b); near(p[i].s[1] / p[i].n / w / w, 0, 1 / sqrt(p[i].n), b); }
}
template <typename G> static void gaussian(long n, int comps, double w, const char *what, G gen) {
    std::vector<Moments> q(comps), p(comps);
    std::vector<double> v(comps);
    for (long k = 0; k < n; k++) { gen(v.data()); for (int i = 0; i < comps; i++) { q[i].add(v[i]); p[i].add(comps > 1 ? v[i] * v[(i + 1) % comps] : 0); } }
    flat(q, p, w, what);
}
template <typename G> static void uniform(long n, int comps, const char *what, G gen) {
    std::vector<Moments> q(comps), p(comps);
    std::vector<double> v(comps);
    for (long k = 0; k < n; k++) { gen(v.data()); for (int i = 0; i < comps; i++) { unit(v[i] * (1 - 1e-7), what); q[i].add(v[i] - 0.5); p[i].add(comps > 1 ? (v[i] - 0.5) * (v[(i + 1) % comps] - 0.5) : 0); } }
    for (int i = 0; i < comps; i++) {
        near(q[i].m(1), 0, sqrt(1. / 12 / n), what);
        near(q[i].m(2), 1. / 12, sqrt(1. / 180 / n), what);
        near(q[i].m(4), 1. / 80, sqrt((1. / 2304 - 1. / 6400) / n), what);
        near(p[i].m(1), 0, 1. / 12 / sqrt(n), what);
    }
}
// unit vectors of 4 components (SU(2))
template <typename G> static void sphere(long n, const char *what, G gen) {
    Moments q[4], p[4];
    double v[4];
    for (long k = 0; k < n; k++) { gen(v); for (int i = 0; i < 4; i++) { q[i].add(v[i]); p[i].add(v[i] * v[(i + 1) % 4]); } }
    for (int i = 0; i < 4; i++) {
        near(q[i].m(1), 0, sqrt(.25 / n), what);
        near(q[i].m(2), .25, sqrt((1. / 8 - 1. / 16) / n), what);
        near(q[i].m(4), 1. / 8, sqrt(0.06 / n), what);
        near(p[i].m(1), 0, sqrt(1. / 24 / n), what);
    }
}
template <int N> static void haar(long n) {
    Moments e[N * N], t, t2, c;
    for (long k = 0; k < n; k++) {
        SU<N, double> u;
        u.random();
        Complex<double> tr = 0;
        for (int i = 0; i < N * N; i++) { double a = u.c[i].re * u.c[i].re + u.c[i].im * u.c[i].im; e[i].add(a); }
        for (int i = 0; i < N; i++) tr += u.e(i, i);
        t.add(tr.re); t2.add(tr.re * tr.re + tr.im * tr.im); c.add(u.c[1].re);
    }
    for (int i = 0; i < N * N; i++) {
        near(e[i].m(1), 1. / N, sqrt(1. / N / N / n), "|u_ij|^2 of SU<N>::random()");
        near(e[i].m(2), 2. / N / (N + 1), sqrt(1. / n), "|u_ij|^4 of SU<N>::random()");
    }
    near(t.m(1), 0, sqrt(1. / n), "trace of SU<N>::random()");
    near(t2.m(1), 1, sqrt((N == 2 ? 1. : 1.) / n), "|trace|^2 of SU<N>::random()");
    near(c.m(1), 0, sqrt(.5 / N / n), "element of SU<N>::random()");
}
static void more(long n) {
    double D; float F;
    gaussian(n, 1, 1.7, "gaussian_random(double, 1.7)", [&](double *v) { v[0] = hila::gaussian_random(D, 1.7); if (v[0] != D) mc_fail("gaussian_random(double) returns another number"); });
    gaussian(n, 1, 0.3, "gaussian_random(float, 0.3)", [&](double *v) { hila::gaussian_random(F, 0.3); v[0] = F; });
    gaussian(n, 1, 1, "gaussian_random<double>()", [&](double *v) { v[0] = hila::gaussian_random<double>(); });
    gaussian(n, 2, 1, "gaussian_random<Complex<float>>()", [&](double *v) { auto z = hila::gaussian_random<Complex<float>>(); v[0] = z.re; v[1] = z.im; });
    gaussian(n, 2, 0.5, "gaussian_random(Complex, 0.5)", [&](double *v) { Complex<double> z; hila::gaussian_random(z, 0.5); v[0] = z.re; v[1] = z.im; });
    gaussian(n, 6, 2, "Matrix<2,3,double>::gaussian_random(2)", [&](double *v) { Matrix<2, 3, double> m; m.gaussian_random(2); for (int i = 0; i < 6; i++) v[i] = m.c[i]; });
    gaussian(n, 3, 0.7, "Vector<3,float>::gaussian_random(0.7)", [&](double *v) { Vector<3, float> m; m.gaussian_random(0.7f); for (int i = 0; i < 3; i++) v[i] = m.c[i]; });
    gaussian(n, 6, 1.5, "Vector<3,Complex<double>>::gaussian_random(1.5)", [&](double *v) { Vector<3, Complex<double>> m; m.gaussian_random(1.5); for (int i = 0; i < 3; i++) { v[2 * i] = m.c[i].re; v[2 * i + 1] = m.c[i].im; } });
    gaussian(n, 4, 1.5, "Array<2,2,double>::gaussian_random(1.5)", [&](double *v) { Array<2, 2, double> m; m.gaussian_random(1.5); for (int i = 0; i < 4; i++) v[i] = m.c[i]; });
    gaussian(n, 3, 0.4, "DiagonalMatrix<3,double>::gaussian_random(0.4)", [&](double *v) { DiagonalMatrix<3, double> m; m.gaussian_random(0.4); for (int i = 0; i < 3; i++) v[i] = m.c[i]; });
    gaussian(n, 8, 1.2, "Algebra<SU<3>>::gaussian_random(1.2)", [&](double *v) { Algebra<SU<3, double>> m; m.gaussian_random(1.2); for (int i = 0; i < 8; i++) v[i] = m.c[i]; });
    gaussian(n, 3, sqrt(2.0), "Algebra<SU<2>>::gaussian_random()", [&](double *v) { Algebra<SU<2, double>> m; m.gaussian_random(); for (int i = 0; i < 3; i++) v[i] = m.c[i]; });
    gaussian(n, 3, 0.6, "Algebra<SU2>::gaussian_random(0.6)", [&](double *v) { Algebra<SU2<double>> m; m.gaussian_random(0.6); v[0] = m.a; v[1] = m.b; v[2] = m.c; });
    gaussian(n, 4, 0.6, "SU2::gaussian_random(0.6)", [&](double *v) { SU2<double> m; m.gaussian_random(0.6); v[0] = m.a; v[1] = m.b; v[2] = m.c; v[3] = m.d; });
    gaussian(n, 1, 0.6, "U1::gaussian_random(0.6)", [&](double *v) { U1<double> m; m.gaussian_random(0.6); v[0] = m.phase; });
    uniform(n, 1, "random(double)", [&](double *v) { hila::random(D); v[0] = D; });
    uniform(n, 1, "random<float>()", [&](double *v) { v[0] = hila::random<float>(); });
    uniform(n, 2, "Complex::random()", [&](double *v) { Complex<double> z; z.random(); v[0] = z.re; v[1] = z.im; });
    uniform(n, 4, "Matrix<2,2,double>::random()", [&](double *v) { Matrix<2, 2, double> m; m.random(); for (int i = 0; i < 4; i++) v[i] = m.c[i]; });
    uniform(n, 6, "Vector<3,Complex<float>>::random()", [&](double *v) { Vector<3, Complex<float>> m; m.random(); for (int i = 0; i < 3; i++) { v[2 * i] = m.c[i].re; v[2 * i + 1] = m.c[i].im; } });
    uniform(n, 3, "Array<3,1,double>::random()", [&](double *v) { Array<3, 1, double> m; m.random(); for (int i = 0; i < 3; i++) v[i] = m.c[i]; });
    uniform(n, 3, "DiagonalMatrix<3,double>::random()", [&](double *v) { DiagonalMatrix<3, double> m; m.random(); for (int i = 0; i < 3; i++) v[i] = m.c[i]; });
    uniform(n, 1, "U1::random()", [&](double *v) { U1<double> m; m.random(); v[0] = m.phase / (2 * M_PI) + 0.5; });
    sphere(n, "SU2::random()", [&](double *v) { SU2<double> m; m.random(); v[0] = m.a; v[1] = m.b; v[2] = m.c; v[3] = m.d; });
    sphere(n, "SU2::random(3)", [&](double *v) { SU2<double> m; m.random(3); v[0] = m.a; v[1] = m.b; v[2] = m.c; v[3] = m.d; });
    sphere(n, "SU<2>::random()", [&](double *v) { SU<2, double> m; m.random(); v[0] = m.e(0, 0).re; v[1] = m.e(0, 0).im; v[2] = m.e(0, 1).re; v[3] = m.e(0, 1).im; });
    haar<2>(n);
    haar<3>(n / 4);
    haar<4>(n / 10);
}

HARNESS_MAIN {
    int mode = mc_param("mode", 0);
    int early = mode == 1 ? mc_global_choose(2, "early") : 0;
    hila::initialize(argc, argv);
    pool = (Pool *)mc_shared(sizeof(Pool));
    if (early) {
        mc_expect_exit(2);
        hila::seed_random(1);
        mc_expect_exit(0);
        mc_fail("seed_random() before lattice.setup() was accepted");
    }
    choose_lattice();
    if (hila::is_rng_seeded()) mc_fail("is_rng_seeded() before seeding");
    if (mode == 1) {
        int k = mc_global_choose(9, "use");
        int seeded = mc_global_choose(2, "seeded");
        if (seeded) {
            hila::seed_random(5);
            if (!hila::is_rng_seeded()) mc_fail("is_rng_seeded() after seeding");
            unseeded(k);
        } else {
            mc_expect_exit(2);
            unseeded(k);
            mc_fail("use %d of random numbers without a seed was accepted", k);
        }
    } else if (mode == 0) {
        fd = 0;
        ft = 0;
        fe = T(0);
        uint64_t seed = SEEDS[mc_global_choose(mc_param("seeds", 2), "seed")];
        int depth = mc_param("depth", 2), hist = mc_param("hist", 1);
        std::vector<int> q, h;
        for (int i = 0; i < depth; i++) q.push_back(mc_global_choose(NSEQ, "sequence"));
        for (int i = 0; i < hist; i++) h.push_back(mc_global_choose(NSEQ + 2, "history"));
        hila::seed_random(seed);
        auto first = record(q);
        for (int o : h) {
            if (o == NSEQ) hila::seed_random(seed);
            else if (o == NSEQ + 1) hila::seed_random(99);
            else op(o);
        }
        hila::seed_random(seed);
        auto second = record(q);
        if (first.size() != second.size()) mc_fail("different numbers drawn");
        for (size_t i = 0; i < first.size(); i++) if (first[i] != second[i]) mc_fail("random numbers after seed %lu depend on what was done before seeding: number %ld", (unsigned long)seed, (long)i);
        mc_compared(first.size());
        // the numbers of one rank do not depend on how many another has drawn
        bool shuffled = false;
        for (int o : q) if (o == SHUF) shuffled = true;
        if (!shuffled) {
            hila::seed_random(seed);
            if (mc_rank() == 0) hila::random();
            auto third = record(q);
            if (mc_rank() > 0) for (size_t i = 0; i < first.size(); i++) if (first[i] != third[i]) mc_fail("random numbers depend on the numbers another rank has drawn");
        }
    } else if (mode == 2) {
        // streams of all seeds and ranks are different; the seed of the clock is printed and reproduces the run
        int ns = mc_param("seeds", 24);
        std::vector<double> mine;
        for (int s = 1; s <= ns; s++) {
            hila::seed_random(s);
            for (int k = 0; k < 4; k++) mine.push_back(hila::random());
        }
        memcpy(pool->v[mc_rank()], mine.data(), mine.size() * 8);
        mc_barrier();
        std::set<double> all;
        for (int r = 0; r < mc_nranks(); r++) for (size_t i = 0; i < mine.size(); i++) if (!all.insert(pool->v[r][i]).second) mc_fail("same random numbers with two seeds or on two ranks");
        mc_compared(all.size());
        mc_barrier();
        double t0 = 3 + mc_global_choose(3, "clock") * 0.25;
        mc_clock_set(t0);
        mc_barrier();
        mc_clear_output();
        mc_barrier();
        hila::seed_random(0);
        std::vector<double> a, b, c;
        for (int k = 0; k < 8; k++) a.push_back(hila::random());
        mc_barrier();
        const char *p = strstr(mc_output(), "seed from time: ");
        if (!p) mc_fail("seed_random(0) does not tell the seed");
        uint64_t seed = strtoull(p + 16, nullptr, 10);
        if (seed == 0) mc_skip();
        mc_barrier();
        hila::seed_random(seed);
        for (int k = 0; k < 8; k++) b.push_back(hila::random());
        if (a != b) mc_fail("the seed %lu printed by seed_random(0) gives other random numbers", (unsigned long)seed);
        for (int k = 0; k < 8; k++) pool->v[mc_rank()][k] = a[k];
        mc_barrier();
        std::set<double> one;
        for (int r = 0; r < mc_nranks(); r++) for (int k = 0; k < 8; k++) if (!one.insert(pool->v[r][k]).second) mc_fail("seed from the clock: same numbers on two ranks");
        mc_barrier();
        mc_clock_set(t0 + 1e-3);
        hila::seed_random(0);
        for (int k = 0; k < 8; k++) c.push_back(hila::random());
        if (a == c) mc_fail("seed_random(0) gave the same numbers at another time");
    } else {
        // distributions (the generator is deterministic: the same numbers in every run)
        hila::seed_random(1 + mc_global_choose(mc_param("seeds", 4), "seed"));
        long n = mc_param("n", 300000);
        Moments u, g, a, b, ab, z, zz, m, c5[3];
        double last = 0.5, serial = 0;
        long perm[4][4] = {};
        for (long k = 0; k < n; k++) {
            double x = hila::random(), y;
            unit(x, "random()");
            u.add(x - 0.5);
            serial += (x - 0.5) * (last - 0.5);
            last = x;
            g.add(hila::gaussrand());
            x = hila::gaussrand2(y);
            a.add(x);
            b.add(y);
            ab.add(x * y);
            Complex<double> w;
            w.gaussian_random(3.0);
            z.add(w.re);
            z.add(w.im);
            zz.add(w.re * w.im / 9);
            if (k % 4 == 0) {
                Vector<3, double> v;
                v.gaussian_random(0.5);
                for (int i = 0; i < 3; i++) { m.add(v[i]); c5[i].add(v[i] * v[(i + 1) % 3] * 4); }
                std::array<int, 4> p = {0, 1, 2, 3};
                hila::shuffle(p);
                for (int i = 0; i < 4; i++) perm[i][p[i]]++;
            }
        }
        double r = sqrt((double)n);
        near(u.m(1), 0, sqrt(1. / 12) / r, "mean of random()");
        near(u.m(2), 1. / 12, sqrt(1. / 180) / r, "variance of random()");
        near(u.m(4), 1. / 80, sqrt(1. / 2304 - 1. / 6400) / r, "fourth moment of random()");
        near(serial / n, 0, 1. / 12 / r, "correlation of successive random()");
        gauss(g, 1, "moment of gaussrand()");
        gauss(a, 1, "moment of gaussrand2()");
        gauss(b, 1, "moment of second value of gaussrand2()");
        gauss(z, 3, "moment of Complex::gaussian_random(3)");
        gauss(m, 0.5, "moment of Vector::gaussian_random(0.5)");
        near(ab.m(1), 0, 1 / r, "correlation of gaussrand2()");
        near(ab.m(2), 1, sqrt(8.) / r, "correlation of squares of gaussrand2()");
        near(zz.m(1), 0, 1 / r, "correlation of real and imaginary part");
        for (int i = 0; i < 3; i++) near(c5[i].m(1), 0, 1 / sqrt(n / 4.), "correlation of vector elements");
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) near(perm[i][j] / (n / 4.), 0.25, sqrt(0.1875 / (n / 4.)), "place of an element after shuffle()");
        // all types: every component has the stated width and is independent of the next one
        more(n / 8);
        for (long k = 0; k < 4; k++) {
            fd.gaussian_random(2.0);
            Moments f;
            for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) f.add(fd.get_value_at(i));
            near(f.m(2) / 4, 1, sqrt(2. / f.n), "variance of Field::gaussian_random(2)");
        }
    }
    return 0;
}
