// coordinate vectors, directions, parities, site indices
#include "hila.h"
#include "plumbing/site_index.h"
#include "tools/levi_civita.h"
#include "common.h"
#include <set>
typedef std::vector<long> V;
typedef CoordinateVector CV;
static V up(const CV &c) { V v(NDIM); for (int d = 0; d < NDIM; d++) v[d] = c.c[d]; return v; }
static CV mk(const V &v) { CV c; for (int d = 0; d < NDIM; d++) c.c[d] = v[d]; return c; }
static V unit(int dir) { V v(NDIM); if (dir < NDIM) v[dir] = 1; else v[2 * NDIM - 1 - dir] = -1; return v; }
static V lin(const V &a, long s, const V &b) { V r(NDIM); for (int d = 0; d < NDIM; d++) r[d] = a[d] + s * b[d]; return r; }
static V ctx, ctx2;
static std::string str(const V &v) { std::string s = "("; for (auto x : v) s += std::to_string(x) + " "; return s + ")"; }
static void is(const char *w, const V &got, const V &want) {
    mc_compared(1);
    if (got != want) mc_fail("%s is %s, not %s; operands %s %s", w, str(got).c_str(), str(want).c_str(), str(ctx).c_str(), str(ctx2).c_str());
}
static void is(const char *w, const CV &got, const V &want) { is(w, up(got), want); }
static void eq(const char *w, double got, double want) {
    mc_compared(1);
    if (!(got == want)) mc_fail("%s is %g, not %g; operands %s %s", w, got, want, str(ctx).c_str(), str(ctx2).c_str());
}
#define IS(e, w) is(#e, e, w)
#define EQ(e, w) eq(#e, (double)(e), (double)(w))
static long dotp(const V &a, const V &b) { long s = 0; for (int d = 0; d < NDIM; d++) s += a[d] * b[d]; return s; }
static const char *names[] = {"e_x", "e_y", "e_z", "e_t"};
static void directions() {
    ctx = ctx2 = {};
    EQ(NDIRS, 2 * NDIM);
    int k = 0;
    foralldir(d) { EQ(d, k); k++; }
    EQ(k, NDIM);
    for (int i = 0; i < 2 * NDIM; i++) {
        const Direction d = (Direction)i;
        V u = unit(i);
        ctx = u;
        bool upw = i < NDIM;
        int a = upw ? i : 2 * NDIM - 1 - i, o = 2 * NDIM - 1 - i;
        IS(CV(d), u);
        { CV c; c = d; is("c = dir", c, u); }
        EQ(-d, o); EQ(+d, i); EQ(opp_dir(d), o); EQ(opp_dir(i), o); EQ(abs(d), a);
        EQ(is_up_dir(d), upw); EQ(is_up_dir(i), upw);
        EQ(next_direction(d), i + 1);
        { Direction x = d; EQ(x++, i); EQ(x, i + 1); Direction y = d; EQ(++y, i + 1); EQ(y, i + 1); }
        EQ(get_dir_mask(d), 1 << i);
        std::string n = (upw ? "" : "-") + std::string(names[a]);
        std::stringstream s;
        s << d;
        if (s.str() != n || n != hila::direction_name(d) || hila::prettyprint(d) != n) mc_fail("direction %d printed as %s", i, s.str().c_str());
        for (int j = 0; j < 2 * NDIM; j++) {
            const Direction b = (Direction)j;
            V w = unit(j);
            ctx2 = w;
            EQ(dir_dot_product(d, b), dotp(u, w));
            IS(d + b, lin(u, 1, w));
            IS(d - b, lin(u, -1, w));
            EQ(CV(d) == b, i == j);
            EQ(CV(d) == CV(b), i == j);
        }
        for (int j = -3; j <= 3; j++) {
            ctx2 = {j};
            IS(j * d, lin(V(NDIM), j, u));
            IS(d * j, lin(V(NDIM), j, u));
        }
    }
    const Parity none = Parity::none;
    EQ(opp_parity(EVEN) == ODD, 1); EQ(opp_parity(ODD) == EVEN, 1); EQ(opp_parity(ALL) == ALL, 1); EQ(opp_parity(none) == none, 1);
    EQ(~EVEN == ODD, 1); EQ(~ODD == EVEN, 1); EQ(~ALL == ALL, 1);
    EQ(parity_bits(EVEN), 1); EQ(parity_bits(ODD), 2); EQ(parity_bits(ALL), 3); EQ(parity_bits(none), 0);
    for (Parity p : {none, EVEN, ODD, ALL}) { EQ(parity_bits_inverse(p), 3 - parity_bits(p)); EQ(is_even_odd_parity(p), p == EVEN || p == ODD); }
    for (Parity p : {EVEN, ODD, ALL}) {
        std::stringstream s;
        s << p;
        std::string n = p == EVEN ? "EVEN" : p == ODD ? "ODD" : "ALL";
        if (s.str() != n || hila::prettyprint(p) != n) mc_fail("parity printed as %s", s.str().c_str());
    }
    for (int a = -30; a <= 30; a++) for (int b = 1; b <= 13; b++) { ctx = {a}, ctx2 = {b}; int r = a; while (r < 0) r += b; while (r >= b) r -= b; EQ(pmod(a, b), r); }
    EQ(pmod(-2147483647 - 1, 7), 7 - (2147483648LL % 7)); EQ(pmod(2147483647, 2147483647), 0); EQ(pmod(-1, 2147483647), 2147483646);
}
static void one(const V &v) {
    const CV c = mk(v);
    ctx = v, ctx2 = {};
    long sum = 0, l1 = 0, sq = 0, mx = v[0], mn = v[0];
    for (auto x : v) sum += x, l1 += std::labs(x), sq += x * x, mx = std::max(mx, x), mn = std::min(mn, x);
    EQ(c.parity() == (((sum % 2) + 2) % 2 ? ODD : EVEN), 1);
    IS(-c, lin(V(NDIM), -1, v));
    IS(+c, v);
    EQ(c.norm_L1(), l1); EQ(c.squarenorm(), sq); EQ(c.max(), mx); EQ(c.min(), mn); EQ(c.dot(c), sq);
    for (int d = 0; d < NDIM; d++) { EQ(c[d], v[d]); EQ(c[(Direction)d], v[d]); EQ(c.e(d), v[d]); CV x = c; x[d] = 9; x[(Direction)d] += 1; V w = v; w[d] = 10; is("c[d] = 10", x, w); }
    { CV x = 0; is("CoordinateVector(0)", x, V(NDIM)); x = c; is("x = c", x, v); x = 0; is("x = 0", x, V(NDIM)); }
    Direction dd = (Direction)77;
    bool isd = c.is_direction(dd);
    EQ(isd, l1 == 1);
    if (isd) is("is_direction", unit(dd), v);
    { CV x = c; Vector<NDIM, int> y(x), z = c; Vector<NDIM, double> f(x); for (int d = 0; d < NDIM; d++) { EQ(y[d], v[d]); EQ(f[d], v[d]); EQ(z[d], v[d]); } CV t(y); is("CoordinateVector(Vector)", t, v); t = 0; t = y; is("c = Vector", t, v); }
    for (int j : {-3, -1, 0, 2, 5}) { ctx2 = {j}; IS(j * c, lin(V(NDIM), j, v)); IS(c * j, lin(V(NDIM), j, v)); { CV x = c; x *= j; is("x *= j", x, lin(V(NDIM), j, v)); } if (j) { V q = v; for (auto &x : q) x /= j; { CV x = c; x /= j; is("x /= j", x, q); } } }
    for (int i = 0; i < 2 * NDIM; i++) {
        const Direction d = (Direction)i;
        V u = unit(i);
        ctx2 = u;
        IS(c + d, lin(v, 1, u)); IS(d + c, lin(v, 1, u)); IS(c - d, lin(v, -1, u)); IS(d - c, lin(u, -1, v));
        { CV x = c; x += d; is("x += d", x, lin(v, 1, u)); x -= d; x -= d; is("x -= d", x, lin(v, -1, u)); }
        EQ(c == d, v == u);
    }
    std::stringstream s;
    s << c;
    for (auto x : v) { long y; s >> y; EQ(y, x); }
    // lattice
    V sz = up(lattice.size());
    V m(NDIM);
    bool in = true;
    for (int d = 0; d < NDIM; d++) { m[d] = ((v[d] % sz[d]) + sz[d]) % sz[d]; in &= m[d] == v[d]; }
    ctx2 = sz;
    IS(c.mod(lattice.size()), m);
    auto k = c.convert_to_k(), k2 = convert_to_k(c);
    for (int d = 0; d < NDIM; d++) {
        long n = m[d];
        if (2 * n > sz[d]) n -= sz[d];
        double want = 2 * M_PI * n / sz[d];
        EQ(std::abs(k[d] - want) < 1e-14 && std::abs(k2[d] - want) < 1e-14, 1);
    }
    if (in) {
        SiteIndex s(c);
        size_t id = 0;
        for (int d = NDIM - 1; d >= 0; d--) id = id * sz[d] + v[d];
        EQ(s.value, id);
        IS(SiteIndex(id).coordinates(), v);
        IS(s.coordinates(), v);
    }
}
static void two(const V &v, const V &w) {
    const CV a = mk(v), b = mk(w);
    ctx = v, ctx2 = w;
    IS(a + b, lin(v, 1, w)); IS(a - b, lin(v, -1, w));
    { CV x = a; x += b; is("x += b", x, lin(v, 1, w)); } { CV x = a; x -= b; is("x -= b", x, lin(v, -1, w)); }
    { CV x = a; x += x; is("x += x", x, lin(v, 1, v)); x -= x; is("x -= x", x, V(NDIM)); }
    EQ(a.dot(b), dotp(v, w)); EQ(a == b, v == w);
    bool pos = true, nz = true, div = true;
    V m(NDIM);
    for (int d = 0; d < NDIM; d++) { pos &= w[d] > 0; nz &= w[d] != 0; if (w[d] && v[d] % w[d]) div = false; if (w[d] > 0) m[d] = ((v[d] % w[d]) + w[d]) % w[d]; }
    if (pos) IS(a.mod(b), m);
    if (nz) EQ(a.is_divisible(b), div);
    IS(a, v); IS(b, w);
}
template <int N> void levi() {
    const levi_civita<N> L;
    std::set<std::vector<int>> seen;
    ctx = {N};
    for (int i = 0; i < L.nfac; i++) {
        std::vector<int> p(L.a[i], L.a[i] + N);
        int s = 1;
        for (int a = 0; a < N; a++) for (int b = a + 1; b < N; b++) if (p[a] > p[b]) s = -s;
        EQ(L.a[i][N], s);
        seen.insert(p);
        for (auto x : p) EQ(x >= 0 && x < N, 1);
        EQ((std::set<int>(p.begin(), p.end()).size()), N);
    }
    int f = 1;
    for (int i = 2; i <= N; i++) f *= i;
    EQ(seen.size(), f); EQ(L.nfac, f);
}
HARNESS_MAIN {
    hila::initialize(argc, argv);
    int szs[5][4] = {{4, 6, 4, 8}, {5, 3, 4, 2}, {7, 4, 5, 3}, {2, 2, 2, 2}, {9, 2, 3, 4}};
    int which = mc_global_choose(5, "size");
    CV s;
    for (int d = 0; d < NDIM; d++) s[d] = szs[which][d];
    lattice.setup(s);
    mc_state(which);
    if (which == 0) { directions(); levi<1>(); levi<2>(); levi<3>(); levi<4>(); levi<5>(); }
    std::vector<V> all{V()};
    std::vector<long> al = NDIM == 4 ? std::vector<long>{-5, -2, -1, 0, 1, 3, 4} : std::vector<long>{-9, -8, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 13};
    for (int d = 0; d < NDIM; d++) {
        std::vector<V> n;
        for (auto &v : all) for (long x : al) { n.push_back(v); n.back().push_back(x); }
        all = n;
    }
    // all sites of the lattice
    for (size_t i = 0; i < lattice.volume(); i++) { V v; size_t k = i; for (int d = 0; d < NDIM; d++) v.push_back(k % s[d]), k /= s[d]; all.push_back(v); }
    for (auto &v : all) one(v);
    size_t step = std::max<size_t>(1, all.size() / 300);
    for (size_t i = 0; i < all.size(); i++) for (size_t j = i % step; j < all.size(); j += step) two(all[i], all[j]);
    return 0;
}
