// Fourier transforms and reflections: every basis field and a generic field, every set of directions, on every small shape,
// against direct sums over the lattice.
#include <complex>
#include "hila.h"
#include "common.h"

#ifndef MC_ELEM
#define MC_ELEM Complex<double>
#endif
using T = MC_ELEM;
using A = hila::arithmetic_type<T>;
using C = Complex<A>;
constexpr int NC = sizeof(T) / sizeof(C);
using cd = std::complex<double>;
static const double TOL = sizeof(A) == 8 ? 1e-11 : 2e-4;

static CoordinateVector S;
static long V;
static long idx(const CoordinateVector &c) {
    long i = 0;
    for (int d = NDIM - 1; d >= 0; d--) i = i * S[d] + c[d];
    return i;
}
static CoordinateVector crd(long i) {
    CoordinateVector c;
    foralldir(d) { c[d] = i % S[d]; i /= S[d]; }
    return c;
}
static void set_size() { foralldir(d) S[d] = lattice.size(d); V = 1; foralldir(d) V *= S[d]; }

union TU { T v; C c[NC]; TU() {} };
static cd comp(const T &v, int k) { TU u; u.v = v; return cd(u.c[k].re, u.c[k].im); }
static T from(const cd *p) { TU u; for (int k = 0; k < NC; k++) { u.c[k].re = p[k].real(); u.c[k].im = p[k].imag(); } return u.v; }

using Arr = std::vector<cd>;                 // value of component k at site i: [i*NC+k]
static void put(Field<T> &f, const Arr &a) {
    onsites(ALL) f[X] = 0;
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) f.set_value_at(from(&a[idx(lattice->coordinates(i)) * NC]), i);
    f.mark_changed(ALL);
}
static void same(const Field<T> &f, const Arr &a, double scale, const char *what) {
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        long x = idx(lattice->coordinates(i));
        T v = f.get_value_at(i);
        for (int k = 0; k < NC; k++) {
            cd g = comp(v, k);
            if (!(std::abs(g - a[x * NC + k]) <= TOL * scale)) {
                std::stringstream ss;
                ss << lattice->coordinates(i) << " component " << k << ": " << g << " should be " << a[x * NC + k];
                mc_fail("%s at %s", what, ss.str().c_str());
            }
        }
    }
    mc_compared((lattice->loop_end(ALL) - lattice->loop_begin(ALL)) * NC);
}
// direct sum along one direction after the other
static Arr dft(const Arr &a, const CoordinateVector &dirs, int sign) {
    Arr r = a;
    foralldir(d) if (dirs[d]) {
        Arr o(r.size());
        for (long i = 0; i < V; i++) {
            CoordinateVector c = crd(i);
            for (int y = 0; y < S[d]; y++) {
                CoordinateVector e = c;
                e[d] = y;
                cd w = std::polar(1.0, sign * 2 * M_PI * ((long)c[d] * y % S[d]) / S[d]);
                long j = idx(e);
                for (int k = 0; k < NC; k++) o[i * NC + k] += w * r[j * NC + k];
            }
        }
        r = o;
    }
    return r;
}
static Arr refl(const Arr &a, const CoordinateVector &dirs) {
    Arr r(a.size());
    for (long i = 0; i < V; i++) {
        CoordinateVector c = crd(i);
        foralldir(d) if (dirs[d]) c[d] = (S[d] - c[d]) % S[d];
        for (int k = 0; k < NC; k++) r[i * NC + k] = a[idx(c) * NC + k];
    }
    return r;
}
static Arr generic(int s) {
    Arr a(V * NC);
    for (long i = 0; i < V * NC; i++) a[i] = cd(((i + s) * 37 % 101) / 8.0 - 5, ((i + s) * 53 % 89) / 8.0 - 4);
    return a;
}
static double norm1(const Arr &a) { double s = 1; for (auto &x : a) s += std::abs(x); return s; }
static CoordinateVector dirset(int m) { CoordinateVector c; foralldir(d) c[d] = (m >> d) & 1; return c; }
constexpr int DM = 1 << NDIM;

// neighbours of a transformed field are those of the result
static void neighbours(const Field<T> &f, const Arr &a, double scale) {
    Direction d = Direction(NDIM - 1);
    Field<T> g;
    onsites(ALL) g[X] = f[X + d] - f[X - d];
    Arr r(a.size());
    for (long i = 0; i < V; i++) {
        CoordinateVector c = crd(i), p = c, m = c;
        p[d] = (c[d] + 1) % S[d];
        m[d] = (c[d] + S[d] - 1) % S[d];
        for (int k = 0; k < NC; k++) r[i * NC + k] = a[idx(p) * NC + k] - a[idx(m) * NC + k];
    }
    same(g, r, 2 * scale, "neighbours of the result");
}

static void one(const Arr &a, int m, int way, fft_direction fd) {
    CoordinateVector dirs = dirset(m);
    int sign = fd == fft_direction::forward ? -1 : 1;
    Arr ref = dft(a, dirs, sign);
    double sc = norm1(a);
    Field<T> f, r;
    put(f, a);
    switch (way) {
    case 0:
        r = f.FFT(dirs, fd);
        break;
    case 1:
        FFT_field(f, r, dirs, fd);
        break;
    case 2:                       // in place, with a gathered neighbour
        r = f;
        r.gather(e_x);
        FFT_field(r, r, dirs, fd);
        break;
    case 3:                       // result was in use, its communication unfinished
        put(r, a);
        r.start_gather(e_x, ALL);
        FFT_field(f, r, dirs, fd);
        break;
    case 4:                       // all directions
        if (m != DM - 1) return;
        r = f.FFT(fd);
        break;
    case 5:
        if (m != DM - 1) return;
        FFT_field(f, r, fd);
        break;
    case 6:                       // default: forward
        if (m != DM - 1 || sign > 0) return;
        r = f.FFT();
        break;
    }
    same(r, ref, sc, "transform");
    if (way >= 2) neighbours(r, ref, sc);
    same(f, a, 0, "input of the transform");
    if (way == 0) {
        Field<T> b = r.FFT(dirs, fd == fft_direction::forward ? fft_direction::back : fft_direction::forward);
        double v = 1;
        foralldir(d) if (dirs[d]) v *= S[d];
        Arr s = a;
        for (auto &x : s) x *= v;
        same(b, s, sc * v, "back transform");
    }
}

static void mode_fft() {
    int m = mc_global_choose(DM, "directions"), fdi = mc_global_choose(2, "sense");
    fft_direction fd = fdi ? fft_direction::back : fft_direction::forward;
    if (mc_param("single", 0)) {
        one(generic(1), m, 3, fd);
        return;
    }
    for (int way = 0; way < 7; way++) one(generic(way), m, way, fd);
    for (long x = 0; x < V; x++)
        for (int k = 0; k < NC; k++) {
            Arr a(V * NC);
            a[x * NC + k] = k % 2 ? cd(0, 1) : cd(1, 0);
            one(a, m, 0, fd);
        }
}

#ifndef MC_NOREFLECT
// the three forms of reflection
static void reflect_one(const Arr &a, int m, int way) {
    Field<T> f, r;
    put(f, a);
    CoordinateVector dirs = dirset(m);
    if (way == 0) r = f.reflect(dirs);
    else if (way == 1) { if (m != DM - 1) return; r = f.reflect(); }
    else {
        int d = -1;
        for (int i = 0; i < NDIM; i++) if (m == 1 << i) d = i;
        if (d < 0) return;
        r = f.reflect(Direction(d));
    }
    same(r, refl(a, dirs), 0, "reflection");
}

#endif
static int site_class(const CoordinateVector &c) {
    foralldir(d) {
        if (c[d] == 0 || 2 * c[d] == S[d]) continue;
        return 2 * c[d] < S[d] ? 1 : -1;
    }
    return 0;
}

static void real_complex(const std::vector<double> &re, int fdi) {
    fft_direction fd = fdi ? fft_direction::back : fft_direction::forward;
    CoordinateVector all = dirset(DM - 1);
    Field<A> f;
    onsites(ALL) f[X] = 0;
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) f.set_value_at(re[idx(lattice->coordinates(i))], i);
    f.mark_changed(ALL);
    double sc = 1;
    for (double x : re) sc += fabs(x);
    std::vector<cd> ref(V);
    for (long k = 0; k < V; k++) {
        CoordinateVector ck = crd(k);
        for (long x = 0; x < V; x++) {
            CoordinateVector cx = crd(x);
            double ph = 0;
            foralldir(d) ph += (double)((long)ck[d] * cx[d] % S[d]) / S[d];
            ref[k] += re[x] * std::polar(1.0, (fdi ? 2 : -2) * M_PI * ph);
        }
    }
    Field<C> g = f.FFT_real_to_complex(fd);
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        C v = g.get_value_at(i);
        if (!(std::abs(cd(v.re, v.im) - ref[idx(lattice->coordinates(i))]) <= TOL * sc)) mc_fail("real to complex");
    }
    bool even = true;
    foralldir(d) if (S[d] % 2) even = false;
    if (!even) return;
    // and back
    Field<A> b = g.FFT_complex_to_real(fdi ? fft_direction::forward : fft_direction::back);
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        if (!(std::abs((double)b.get_value_at(i) - V * re[idx(lattice->coordinates(i))]) <= TOL * sc * V)) mc_fail("complex to real after real to complex");
    }
    mc_compared(2 * lattice->loop_end(ALL));
}
// arbitrary complex input: only the significant half counts
static void complex_real(const std::vector<cd> &in, int fdi) {
    fft_direction fd = fdi ? fft_direction::back : fft_direction::forward;
    Field<C> f;
    onsites(ALL) f[X] = 0;
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) { cd v = in[idx(lattice->coordinates(i))]; f.set_value_at(C(v.real(), v.imag()), i); }
    f.mark_changed(ALL);
    std::vector<cd> s(V);
    double sc = 1;
    for (long i = 0; i < V; i++) {
        CoordinateVector c = crd(i), r;
        int cl = site_class(c);
        if (hila::FFT_complex_to_real_site(c) != cl) mc_fail("class of a site");
        foralldir(d) r[d] = (S[d] - c[d]) % S[d];
        s[i] = cl == 1 ? in[i] : cl == 0 ? cd(in[i].real(), 0) : std::conj(in[idx(r)]);
        sc += std::abs(in[i]);
    }
    Field<A> b = f.FFT_complex_to_real(fd);
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        CoordinateVector x = lattice->coordinates(i);
        cd sum = 0;
        for (long k = 0; k < V; k++) {
            CoordinateVector ck = crd(k);
            double ph = 0;
            foralldir(d) ph += (double)((long)ck[d] * x[d] % S[d]) / S[d];
            sum += s[k] * std::polar(1.0, (fdi ? 2 : -2) * M_PI * ph);
        }
        if (!(std::abs((double)b.get_value_at(i) - sum) <= TOL * sc)) mc_fail("complex to real: %g should be %g", (double)b.get_value_at(i), sum.real());
    }
    mc_compared(lattice->loop_end(ALL));
}

#ifndef MC_NOREFLECT
static void mode_real() {
    int what = mc_global_choose(3, "operation");
    if (what == 0) {
        int m = mc_global_choose(DM, "directions");
        for (int w = 0; w < 3; w++) reflect_one(generic(w), m, w);
        // twice is the identity
        Arr a = generic(1), r = refl(a, dirset(m));
        Field<T> f, g;
        put(f, a);
        f.gather(e_x);
        g = f.reflect(dirset(m));
        same(g, r, 0, "reflection");
        neighbours(g, r, 0.0);
        g = g.reflect(dirset(m));
        same(g, a, 0, "reflection twice");
        same(f, a, 0, "input of the reflection");
        return;
    }
    int fdi = mc_global_choose(2, "sense");
    if (what == 1) {
        for (long x = 0; x <= V; x++) {
            std::vector<double> re(V);
            if (x < V) re[x] = 1;
            else for (long i = 0; i < V; i++) re[i] = (i * 37 % 101) / 8.0 - 5;
            real_complex(re, fdi);
        }
        return;
    }
    bool odd = false;
    foralldir(d) if (S[d] % 2) odd = true;
    if (odd) {                    // must refuse
        Field<C> f;
        onsites(ALL) f[X] = 1;
        mc_expect_exit(2);
        f.FFT_complex_to_real();
        mc_expect_exit(0);
        mc_fail("complex to real accepted an odd lattice");
        return;
    }
    for (long x = 0; x <= 2 * V; x++) {
        std::vector<cd> in(V);
        if (x < 2 * V) in[x / 2] = x % 2 ? cd(0, 1) : cd(1, 0);
        else for (long i = 0; i < V; i++) in[i] = cd((i * 37 % 101) / 8.0 - 5, (i * 53 % 89) / 8.0 - 4);
        complex_real(in, fdi);
    }
}

#endif

HARNESS_MAIN {
    hila::initialize(argc, argv);
    int lo = mc_param("lo", 2), hi = mc_param("hi", 5), st = mc_param("step", 1);
    foralldir(d) S[d] = lo + st * mc_global_choose((hi - lo) / st + 1, "side");
    mc_expect_exit(1);
    lattice.setup(S);
    mc_expect_exit(0);
    set_size();
    if (mc_param("block", 0)) {
        CoordinateVector b;
        foralldir(d) b[d] = 1 + mc_global_choose(2, "block factor");
        if (!lattice.can_block(b)) mc_skip();
        lattice.block(b);
        set_size();
    }
    if (mc_param("mode", 0) == 0) mode_fft();
#ifndef MC_NOREFLECT
    else mode_real();
#endif
    return 0;
}
