// ExtendedPrecision: every assignment of values of widely different sizes to the sites of tiny lattices, and every pair of
// values from a pool, against exact integer arithmetic (units of 2^-50 in 128 bits).
#include "hila.h"
#include "common.h"
#define MC_ELEM double
#include "elem.h"
using I128 = __int128;
static const int FRAC = 50;
static I128 ex(double x) {   // exact value in units of 2^-50
    int e;
    double m = frexp(x, &e);
    I128 v = (I128)(int64_t)ldexp(m, 53);
    int sh = e - 53 + FRAC;
    return sh >= 0 ? v << sh : v >> -sh;
}
static double rounded(I128 v) { return ldexp((double)v, -FRAC); }   // correctly rounded by the compiler's conversion
static I128 val(const ExtendedPrecision &a) { return ex(a.value) + ex(a.compensation) + ex(a.compensation2); }
static bool same(const ExtendedPrecision &a, I128 v) { return val(a) == v; }
static std::string str(I128 v) {
    char b[80];
    snprintf(b, sizeof b, "%.17g + %.17g", rounded(v), rounded(v - ex(rounded(v))));
    return b;
}
#define CHECK(c, v, ...) do { ExtendedPrecision c_ = (c); I128 v_ = (v); if (!same(c_, v_)) { char b_[200]; snprintf(b_, sizeof b_, __VA_ARGS__); \
    mc_fail("%s is %s, should be %s", b_, str(val(c_)).c_str(), str(v_).c_str()); } \
    if (std::abs(c_.to_double() - rounded(v_)) > std::abs(rounded(v_)) * 2.3e-16 || static_cast<double>(c_) != c_.to_double()) mc_fail("to_double()"); mc_compared(2); } while (0)

static const double AL[] = {1, 0x1p56, -0x1p56, 0x1p-50, -1, 3 * 0x1p-49, -0x1p-50, 0x1.8p57};

static void sums() {
    choose_lattice();
    int na = mc_param("na", 5);
    bool sparse = mc_param("sparse", 0);   // two large values on a background of small ones
    long n = 1, outer = 1;
    if (sparse) n = V;
    else {
        for (long i = 0; i < V; i++) n *= na;
        while (outer < 200 && outer * na < n) outer *= na;
    }
    long base = sparse ? mc_global_choose(V, "site") : mc_global_choose(outer, "first sites");
    Field<double> f;
    f[ALL] = 0;
    std::vector<double> r(V);
    bool root = hila::myrank() == 0;
    for (long c = 0; c < n / outer; c++) {
        long k = c * outer + base;
        if (sparse) {
            for (long i = 0; i < V; i++) r[i] = (i & 1 ? 3 : -5) * 0x1p-50;
            r[base] = 0x1p56;
            r[c] = -0x1.8p55;
        } else {
            for (long i = 0; i < V; i++) { r[i] = AL[k % na]; k /= na; }
        }
        for (unsigned q = lattice->loop_begin(ALL); q < lattice->loop_end(ALL); q++) f.set_value_at(r[idx(lattice->coordinates(q))], q);
        f.mark_changed(ALL);
        I128 e = 0, o = 0;
        for (long i = 0; i < V; i++) {
            CoordinateVector x = crd(i);
            long s = 0;
            foralldir(d) s += x[d];
            (s & 1 ? o : e) += ex(r[i]);
        }
        ExtendedPrecision s = 0, t = 3, u;
        onsites(ALL) s += f[X];
        CHECK(s, e + o, "sum over all sites");
        if (mc_param("single", 0)) continue;
        Vector<2, ExtendedPrecision> v;
        v[0] = 0;
        v[1] = 7;
        onsites(ALL) {
            v[0] += f[X];
            v[1] += 1;
        }
        CHECK(v[0], e + o, "sum in a vector, component 0");
        CHECK(v[1], ex(7 + V), "sum in a vector, component 1");
        u = s;
        onsites(EVEN) {
            t += f[X];
            u += f[X];
            u += 1;
        }
        long ne = (V + 1) / 2;
        if (V % 2 == 0) ne = V / 2;
        CHECK(t, ex(3) + e, "sum with an initial value");
        CHECK(u, e + o + e + ne * ex(1), "accumulated sum");
        hila::set_allreduce(false);
        onsites(ODD) t += f[X];
        if (root) CHECK(t, ex(3) + e + o, "sum on rank 0");
        // sums of the same numbers in different groups are equal, and a unit in the smallest place is seen
        ExtendedPrecision w = 0;
        onsites(EVEN) w += f[X];
        onsites(ODD) w += f[X];
        if (!(w == s) || w != s || w < s || w > s || !(w <= s) || !(w >= s)) mc_fail("two sums of the same numbers compare as different");
        w += 0x1p-50;
        if (w == s || !(w != s) || !(w > s) || w < s || !(s < w) || w <= s || s >= w) mc_fail("comparison does not see a difference of 2^-50");
        CHECK(w - s, 1, "difference");
    }
}

template <typename N>
static void with_int(const ExtendedPrecision &a, I128 A, N n, const char *t) {
    I128 E = (I128)n << FRAC;
    CHECK(a + n, A + E, "a + %s(%ld)", t, (long)n);
    CHECK(n + a, A + E, "%s(%ld) + a", t, (long)n);
    CHECK(a - n, A - E, "a - %s(%ld)", t, (long)n);
    CHECK(n - a, E - A, "%s(%ld) - a", t, (long)n);
    ExtendedPrecision b = a;
    b += n;
    CHECK(b, A + E, "a += %s(%ld)", t, (long)n);
    b = a;
    b -= n;
    CHECK(b, A - E, "a -= %s(%ld)", t, (long)n);
    b = n;
    CHECK(b, E, "a = %s(%ld)", t, (long)n);
    if ((a == n) != (A == E) || (a != n) != (A != E) || (a < n) != (A < E) || (a > n) != (A > E) || (a <= n) != (A <= E) || (a >= n) != (A >= E))
        mc_fail("comparison of %s with %s(%ld)", str(A).c_str(), t, (long)n);
    if ((n == a) != (A == E) || (n != a) != (A != E) || (n < a) != (E < A) || (n > a) != (E > A) || (n <= a) != (E <= A) || (n >= a) != (E >= A))
        mc_fail("comparison of %s(%ld) with %s", t, (long)n, str(A).c_str());
    mc_compared(12);
}
template <typename N>
static void times_int(const ExtendedPrecision &a, I128 A, N n, const char *t) {
    ExtendedPrecision b = a;
    b *= n;
    CHECK(b, A * n, "a *= %s(%ld)", t, (long)n);
    CHECK(a * n, A * n, "a * %s(%ld)", t, (long)n);
    CHECK(n * a, A * n, "%s(%ld) * a", t, (long)n);
}

// every sum of up to `terms` values of the alphabet
static void arithmetic() {
    std::vector<std::pair<ExtendedPrecision, I128>> pool;
    int na = mc_param("na", 5), terms = mc_param("terms", 3);
    long n = 1;
    for (int i = 0; i < terms; i++) n *= na + 1;
    for (long k = 0; k < n; k++) {
        ExtendedPrecision a = 0;
        I128 A = 0;
        long q = k;
        for (int i = 0; i < terms; i++) {
            int j = q % (na + 1);
            q /= na + 1;
            if (j) { a += AL[j - 1]; A += ex(AL[j - 1]); }
        }
        CHECK(a, A, "sum of terms");
        pool.push_back({a, A});
    }
    long i = mc_global_choose(n, "left operand");
    const ExtendedPrecision a = pool[i].first;
    const I128 A = pool[i].second;
    CHECK(+a, A, "+a");
    CHECK(-a, -A, "-a");
    for (auto &p : pool) {
        const ExtendedPrecision b = p.first;
        const I128 B = p.second;
        CHECK(a + b, A + B, "a + b");
        CHECK(a - b, A - B, "a - b");
        ExtendedPrecision c = a;
        c += b;
        CHECK(c, A + B, "a += b");
        c = a;
        c -= b;
        CHECK(c, A - B, "a -= b");
        c = b;
        CHECK(c, B, "a = b");
        c += c;
        CHECK(c, 2 * B, "a += a");
        if ((a == b) != (A == B) || (a != b) != (A != B) || (a < b) != (A < B) || (a > b) != (A > B) || (a <= b) != (A <= B) || (a >= b) != (A >= B))
            mc_fail("comparison of %s and %s", str(A).c_str(), str(B).c_str());
        mc_compared(6);
    }
    for (int k = -9; k <= 9; k++) {
        with_int<int>(a, A, k, "int");
        with_int<long>(a, A, k * 1000003L, "long");
        with_int<double>(a, A, k, "double");
        with_int<float>(a, A, k, "float");
        times_int<int>(a, A, k, "int");
        times_int<long>(a, A, k, "long");
        if (k >= 0) {
            with_int<unsigned>(a, A, k, "unsigned");
            with_int<size_t>(a, A, k, "size_t");
            times_int<unsigned>(a, A, k, "unsigned");
            times_int<size_t>(a, A, k, "size_t");
        }
    }
}

HARNESS_MAIN {
    mc_thread_orders(0);
    hila::initialize(argc, argv);
    mc_thread_orders(1);
    if (mc_param("mode", 0) == 0) sums();
    else { foralldir(d) S[d] = 4; lattice.setup(S); arithmetic(); }
    return 0;
}
