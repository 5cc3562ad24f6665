#include <cstdarg>
// Global reductions: every sequence of reduction loops, assignments and completions of a given length, against sums kept exactly.
#include "hila.h"
#include "common.h"
#include "elem.h"
#ifdef RED_ARITH
constexpr bool arith = true;
#else
constexpr bool arith = false;
#endif

static Field<T> f;        // distinct values
static Field<int> g, h;   // g: small integers of both signs, h: factors 1, 2, -1
static std::vector<long> fv, gv, hv, par_;
static bool root;

static long coordpar(const CoordinateVector &c) { long s = 0; foralldir(d) s += c[d]; return s & 1; }
static bool in(long i, Parity p) { return p == ALL || (p == EVEN) == (par_[i] == 0); }
static const Parity PAR[3] = {ALL, EVEN, ODD};

static void setup_fields() {
    fv.resize(V); gv.resize(V); hv.resize(V); par_.resize(V);
    for (long i = 0; i < V; i++) {
        fv[i] = V <= 16 ? 1L << i : (i * 37) % 101 + 1;   // sums tell which sites went in
        gv[i] = (i * 5) % 7 - 3;
        hv[i] = i == 1 || i == V - 2 ? 2 : i % 7 == 3 ? -1 : 1;
        par_[i] = coordpar(crd(i));
    }
    f[ALL] = 0;
    g[ALL] = 0;
    h[ALL] = 0;
    for (unsigned k = lattice->loop_begin(ALL); k < lattice->loop_end(ALL); k++) {
        long i = idx(lattice->coordinates(k));
        f.set_value_at(mk<T>(fv[i]), k);
        g.set_value_at(gv[i], k);
        h.set_value_at(hv[i], k);
    }
    f.mark_changed(ALL); g.mark_changed(ALL); h.mark_changed(ALL);
}
static long sumf(Parity p) { long s = 0; for (long i = 0; i < V; i++) if (in(i, p)) s += fv[i]; return s; }
static char trail[600];
static void trail_add(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    size_t n = strlen(trail);
    vsnprintf(trail + n, sizeof trail - n, fmt, ap);
    va_end(ap);
}
#define FAIL(...) do { char b_[300]; snprintf(b_, sizeof b_, __VA_ARGS__); mc_fail("%s after%s", b_, trail); } while (0)

////////////////////////////////////////////////////////////////////// standard reduction variables
template <typename A> struct Var { A v; long m; };   // program's value and model's value

struct Std {
    double d; float fl; int i; long l; Complex<double> z; Vector<3, double> v; Vector<4, int> hist; double p; float pf; int pi; long pl;
    T t;
} x;
struct Mod {
    long d, fl, i, l, z, zi, v[3], hist[4], p, pf, pi, pl, t;
    bool all[12];   // value valid on every rank
} m;
enum { D, FL, IN, LO, Z, VV, H, P, PF, PI, PL, TT };

static bool once = true;   // allreduce state for the next loop
static void did(int k) { m.all[k] = once; }
static void check_std() {
#define CK(k, cond, name) do { if (m.all[k] || root) { if (!(cond)) FAIL("%s is wrong", name); mc_compared(1); } } while (0)
    CK(D, x.d == m.d, "double sum");
    CK(FL, x.fl == m.fl, "float sum");
    CK(IN, x.i == m.i, "int sum");
    CK(LO, x.l == m.l, "long sum");
    CK(Z, x.z.re == m.z && x.z.im == m.zi, "complex sum");
    CK(VV, x.v[0] == m.v[0] && x.v[1] == m.v[1] && x.v[2] == m.v[2], "vector sum");
    CK(H, x.hist[0] == m.hist[0] && x.hist[1] == m.hist[1] && x.hist[2] == m.hist[2] && x.hist[3] == m.hist[3], "component sums");
    CK(P, x.p == m.p, "double product");
    CK(PF, x.pf == m.pf, "float product");
    CK(PI, x.pi == m.pi, "int product");
    CK(PL, x.pl == m.pl, "long product");
    CK(TT, eq(x.t, m.t), "sum of field elements");
}
static void std_op(int op) {
    Parity p = ALL;
    switch (op) {
    case 0: case 1: case 2: {
        p = PAR[op];
        trail_add(" loop%d", op);
        T t = x.t;
        onsites(p) t += f[X];
        x.t = t;
        m.t += sumf(p);
        did(TT);
        once = true;
        break;
    }
    case 3: {   // several variables of different types in one loop
        trail_add(" many");
        double d = x.d; float fl = x.fl; int i = x.i; long l = x.l; Complex<double> z = x.z;
        onsites(ALL) {
            d += g[X];
            fl += 2 * g[X];
            i += g[X] + 1;
            l += 3;
            z += Complex<double>(g[X], 1);
        }
        x.d = d; x.fl = fl; x.i = i; x.l = l; x.z = z;
        for (long k = 0; k < V; k++) { m.d += gv[k]; m.fl += 2 * gv[k]; m.i += gv[k] + 1; m.l += 3; m.z += gv[k]; m.zi++; }
        did(D); did(FL); did(IN); did(LO); did(Z);
        once = true;
        break;
    }
    case 4: {   // twice in one loop, once under a condition
        trail_add(" conditional");
        double d = x.d; int i = x.i; Complex<double> z = x.z;
        onsites(ODD) {
            d += 1;
            z += 5;
            if (g[X] > 0) {
                d += g[X];
                i += 7;
            }
        }
        x.d = d; x.i = i; x.z = z;
        for (long k = 0; k < V; k++) if (in(k, ODD)) { m.d++; m.z += 5; if (gv[k] > 0) { m.d += gv[k]; m.i += 7; } }
        did(D); did(IN); did(Z);
        once = true;
        break;
    }
    case 5: {   // products and sums
        trail_add(" products");
        double q = x.p, d = x.d; float pf = x.pf; int pi = x.pi; long pl = x.pl;
        onsites(EVEN) {
            q *= h[X];
            pf *= h[X];
            pi *= h[X];
            pl *= h[X];
            d += h[X];
        }
        x.p = q; x.pf = pf; x.pi = pi; x.pl = pl; x.d = d;
        for (long k = 0; k < V; k++) if (in(k, EVEN)) { m.p *= hv[k]; m.pf *= hv[k]; m.pi *= hv[k]; m.pl *= hv[k]; m.d += hv[k]; }
        did(P); did(PF); did(PI); did(PL); did(D);
        once = true;
        break;
    }
    case 6: {   // components
        trail_add(" components");
        Vector<4, int> hist = x.hist; Vector<3, double> v = x.v;
        onsites(ALL) {
            hist[(g[X] + 3) % 4] += 1;
            v.e(0) += g[X];
            v.e(1) += g[X];
            v.e(2) += g[X];
        }
        x.hist = hist; x.v = v;
        for (long k = 0; k < V; k++) { m.hist[(gv[k] + 3) % 4]++; for (int j = 0; j < 3; j++) m.v[j] += gv[k]; }
        did(H); did(VV);
        once = true;
        break;
    }
    case 7:
        trail_add(" allreduce(false)");
        hila::set_allreduce(false);
        once = false;
        break;
    case 8: {   // values differ between ranks: rank 0 counts
        trail_add(" assign");
        int r = hila::myrank();
        x.d = 5 + 100 * r; x.fl = 6 + 100 * r; x.i = 7 + 100 * r; x.l = 8 + 100 * r; x.z = Complex<double>(1 + r, 2 + 100 * r);
        for (int j = 0; j < 3; j++) x.v.e(j) = 3 + 10 * r;
        for (int j = 0; j < 4; j++) x.hist.e(j) = 1 + r;
        x.p = 3 + r; x.pf = 3 + r; x.pi = 3 + r; x.pl = 3 + r; x.t = mk<T>(9 + 10 * r);
        m = {5, 6, 7, 8, 1, 2, {3, 3, 3}, {1, 1, 1, 1}, 3, 3, 3, 3, 9, {0}};
        break;
    }
    case 9: {   // a loop without reductions
        trail_add(" other");
        Field<int> k;
        onsites(ALL) k[X] = g[X] + h[X];
        once = true;
        break;
    }
    }
    check_std();
}

////////////////////////////////////////////////////////////////////// Reduction<T>
static void red_run(int depth) {
    int o = mc_global_choose(8, "options");
    bool all = !(o & 1), del = o & 2, nonb = o & 4;
    Reduction<T> r, r2;
    r.allreduce(all).delayed(del).nonblocking(nonb);
    r2.allreduce(all).delayed(del).nonblocking(nonb);
    trail_add(" [all=%d delayed=%d nonblocking=%d]", all, del, nonb);
    if (r.is_allreduce() != all || r.is_delayed() != del || r.is_nonblocking() != nonb) FAIL("options");
    long M = 0, M2 = 0;
    bool looped = false, looped2 = false;   // initial values are kept by rank 0 only
    auto value = [&]() {
        T a = r.value();
        if ((all && looped) || root) if (!eq(a, M)) { std::stringstream ss; ss << a; FAIL("value() is %s, should be %ld", ss.str().c_str(), M); }
        a = r.value();
        if ((all && looped) || root) if (!eq(a, M)) FAIL("second value() is wrong");
        mc_compared(2);
    };
    auto value2 = [&]() {
        T a = r2.value();
        if ((all && looped2) || root) if (!eq(a, M2)) FAIL("value() of the second variable is wrong");
        mc_compared(1);
    };
    int lowops = mc_param("fewops", 0) ? 7 : 11;
    for (int k = 0; k < depth; k++) {
        int op = mc_global_choose(lowops, "op");
        switch (op) {
        case 0: case 1: {
            Parity p = PAR[op];
            trail_add(" loop%d", op);
            onsites(p) r += f[X];
            M += sumf(p);
            looped = true;
            break;
        }
        case 2: trail_add(" value"); value(); break;
        case 3: trail_add(" reduce"); r.reduce(); break;
        case 4: trail_add(" start"); r.start_reduce(); break;
        case 5: {   // the same value on every rank
            trail_add(" assign");
            T ret = (r = mk<T>(1000));
            if (!eq(ret, 1000)) FAIL("value of the assignment");
            M = 1000;
            looped = false;
            break;
        }
        case 6: {   // two variables in one loop, one of them twice
            trail_add(" two");
            onsites(ODD) {
                r += f[X];
                if (g[X] > 0) r += f[X];
                r2 += f[X];
            }
            looped2 = true;
            for (long i = 0; i < V; i++) if (in(i, ODD)) { M += fv[i]; M2 += fv[i]; if (gv[i] > 0) M += fv[i]; }
            looped = true;
            break;
        }
        case 7: {   // an unrelated standard reduction and communication
            trail_add(" other");
            long s = 0;
            onsites(ALL) s += g[X];
            long e = 0;
            for (long i = 0; i < V; i++) e += gv[i];
            if (s != e) FAIL("unrelated sum");
            Field<int> k2;
            onsites(ALL) k2[X] = g[X + e_x];
            break;
        }
        case 8: trail_add(" set(0)"); r.set(mk<T>(0)); M = 0; looped = false; break;
        case 9:   // other options, once the result is complete
            trail_add(" options");
            value();
            value2();
            o = (o + 3) % 8;
            all = !(o & 1), del = o & 2, nonb = o & 4;
            r.allreduce(all).delayed(del).nonblocking(nonb);
            r2.allreduce(all).delayed(del).nonblocking(nonb);
            r = mk<T>(1);
            M = 1;
            r2 = mk<T>(0);
            M2 = 0;
            looped = looped2 = false;
            break;
        case 10: {   // temporary ends while its reduction may be under way
            trail_add(" temporary");
            Reduction<T> q(mk<T>(10));
            q.allreduce(all).delayed(del).nonblocking(nonb);
            onsites(ALL) q += f[X];
            if (mc_param("dropval", 1)) {
                T a = q.value();
                if (all || root) if (!eq(a, 10 + sumf(ALL))) FAIL("value of a temporary");
            }
            break;
        }
        }
    }
    trail_add(" END");
    value2();
    value();
}

////////////////////////////////////////////////////////////////////// ReductionVector<T>
template <typename A>
static void rv_run(int depth) {
    int o = mc_global_choose(8, "options");
    bool all = !(o & 1), del = o & 2, nonb = o & 4;
    constexpr int N = 3;
    ReductionVector<A> r(N), r2(2, mk<A>(4));
    r = 0;
    for (auto *q : {&r, &r2}) q->allreduce(all).delayed(del).nonblocking(nonb);
    trail_add(" [all=%d delayed=%d nonblocking=%d]", all, del, nonb);
    if (r.is_allreduce() != all || r.is_delayed() != del || r.is_nonblocking() != nonb) FAIL("options");
    if (r.size() != N) FAIL("size");
    std::vector<long> M(N, 0), M2(2, 4);
    int pend = 0, pend2 = 0;  // 1 sum, 2 product
    bool everywhere = true;   // value is defined on every rank
    auto check = [&]() {
        r.reduce();
        if (pend) everywhere = all;
        pend = 0;
        if (r.size() != M.size()) FAIL("size");
        std::vector<A> v = r.vector();
        if (v.size() != M.size()) FAIL("size of vector()");
        if (everywhere || root) {
            for (size_t i = 0; i < M.size(); i++) {
                if (!eq(r[i], M[i]) || !eq(v[i], M[i])) { std::stringstream ss; ss << r[i]; FAIL("element %zu is %s, should be %ld", i, ss.str().c_str(), M[i]); }
                mc_compared(1);
            }
            if (!eq(r.front(), M[0]) || !eq(r.back(), M.back())) FAIL("front() or back()");
        }
    };
    for (int k = 0; k < depth; k++) {
        int op = mc_global_choose(9, "op"), n = M.size();
        if (!del && !nonb) pend = 0;
        switch (op) {
        case 0: {
            trail_add(" loop");
            if (pend == 2) check();
            onsites(ALL) r[(g[X] + 3) % n] += f[X];
            for (long i = 0; i < V; i++) M[(gv[i] + 3) % n] += fv[i];
            everywhere = all;
            pend = 1;
            break;
        }
        case 1: {   // two statements and a condition
            trail_add(" two");
            if (pend == 2) check();
            onsites(EVEN) {
                r[(g[X] + 3) % n] += f[X];
                if (h[X] != 1) r[h[X] + 1 < n ? h[X] + 1 : 0] += f[X];
            }
            for (long i = 0; i < V; i++) if (in(i, EVEN)) { M[(gv[i] + 3) % n] += fv[i]; if (hv[i] != 1) M[hv[i] + 1 < n ? hv[i] + 1 : 0] += fv[i]; }
            everywhere = all;
            pend = 1;
            break;
        }
        case 2: trail_add(" reduce"); check(); break;
        case 3: {
            trail_add(" assign");
            r = mk<A>(7);
            for (auto &a : M) a = 7;
            everywhere = true;
            pend = 0;
            break;
        }
        case 4:
            if constexpr (hila::is_arithmetic<A>::value) {
                trail_add(" product");
                if (pend == 1) check();
                onsites(ODD) r[(g[X] + 3) % n] *= h[X];
                for (long i = 0; i < V; i++) if (in(i, ODD)) M[(gv[i] + 3) % n] *= hv[i];
                everywhere = all;
                pend = 2;
            }
            break;
        case 5:   // elements are set on all ranks, after the result is complete
            trail_add(" element");
            check();
            for (int i = 0; i < n; i++) { r[i] = mk<A>(20 + i); M[i] = 20 + i; }
            everywhere = true;
            break;
        case 6:
            trail_add(" resize");
            check();
            if (n == N) { r.push_back(mk<A>(3)); M.push_back(3); r.resize(5, mk<A>(2)); M.push_back(2); }
            else { r.pop_back(); r.resize(N); M.resize(N); }
            break;
        case 7: trail_add(" start"); r.start_reduce(); break;
        case 8: {   // another vector and a standard variable in the same loop
            trail_add(" several");
            if (pend == 2) check();
            long s = 0;
            onsites(ALL) {
                r[0] += f[X];
                r2[X.parity() == EVEN ? 0 : 1] += f[X];
                s += g[X];
            }
            long e = 0;
            for (long i = 0; i < V; i++) { e += gv[i]; M[0] += fv[i]; M2[in(i, EVEN) ? 0 : 1] += fv[i]; }
            if (s != e) FAIL("standard sum in the same loop");
            everywhere = all;
            pend = 1;
            pend2 = 1;
            break;
        }
        }
    }
    trail_add(" END");
    r2.reduce();
    if (all || root || !pend2) if (!eq(r2[0], M2[0]) || !eq(r2[1], M2[1])) FAIL("second vector");
    check();
}

HARNESS_MAIN {
    mc_thread_orders(0);
    hila::initialize(argc, argv);
    static const int SH[4][4] = {{4, 4, 2, 2}, {3, 4, 2, 2}, {6, 4, 4, 4}, {6, 2, 2, 2}};
    int sh = mc_param("shape", 0);
    V = 1;
    foralldir(d) { S[d] = SH[sh][d] * mc_param("scale", 1); V *= S[d]; }
    lattice.setup(S);
    root = hila::myrank() == 0;
    setup_fields();
    mc_thread_orders(1);
    int depth = mc_param("depth", 3);
    switch (mc_param("mode", 0)) {
    case 0:
        std_op(8);
        for (int k = 0; k < depth; k++) std_op(mc_global_choose(10, "op"));
        break;
    case 1: red_run(depth); break;
    case 2: rv_run<T>(depth); break;
    }
    return 0;
}
