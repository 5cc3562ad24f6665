// Generated programs of site loops (bin/progen.py): each is run on the fields and, with ordinary loops, on the reference,
// for every lattice, number of ranks, state of the halos and set of run-time arguments within the bounds.
#include "hila.h"
#include "common.h"
#include "prog/prog.h"

CoordinateVector S;
long V;
void programs(Table &);
static std::vector<RSite> all_sites;
std::vector<RSite> &rsites_all() { return all_sites; }

template <typename T>
static T val(long i, int k) {
    auto h = [&](int c) { return (int)((i * 7 + (i / 5) * 3 + k * 11 + c * 5) % 19) - 9; };
    T t;
    if constexpr (hila::is_arithmetic<T>::value) {
        t = h(0);
    } else {
        using A = hila::arithmetic_type<T>;
        for (int c = 0; c < (int)(sizeof(T) / sizeof(A)); c++) ((A *)&t)[c] = h(c) / (1 + (h(c) % 2 != 0 ? 0 : 1));
    }
    return t;
}
template <typename T>
static bool same(const T &a, const T &b) {
    if constexpr (hila::is_arithmetic<T>::value) {
        return a == b;
    } else {
        using A = hila::arithmetic_type<T>;
        for (int c = 0; c < (int)(sizeof(T) / sizeof(A)); c++) if (((const A *)&a)[c] != ((const A *)&b)[c]) return false;
        return true;
    }
}
template <typename FN>
static void each(HF &h, RF &r, FN fn) {
    fn(h.a, r.a, "a");
    fn(h.b, r.b, "b");
    fn(h.c, r.c, "c");
    fn(h.n, r.n, "n");
    fn(h.m, r.m, "m");
    fn(h.p, r.p, "p");
    fn(h.q, r.q, "q");
    fn(h.z, r.z, "z");
    fn(h.y, r.y, "y");
    fn(h.v, r.v, "v");
    fn(h.u, r.u, "u");
    fn(h.r, r.r, "r");
    for (int d = 0; d < NDIM; d++) fn(h.w[d], r.w[d], "w[]");
    for (int d = 0; d < NDIM; d++) fn(h.gf[(Direction)d], r.gf[(Direction)d], "gf[]");
}
static std::vector<long> site_index;

template <typename T>
static void check(const Field<T> &f, const RField<T> &g, const char *name, const char *what, const Prog &p, int d = -1) {
    unsigned n = lattice->loop_end(ALL);
    for (unsigned i = 0; i < n; i++) {
        T got = f.get_value_at(i);
        long k = site_index[i];
        T want = d < 0 ? g.v[k] : g[all_sites[k] + (Direction)d];
        if (!same(got, want)) {
            std::stringstream ss;
            ss << got << ", reference " << want << " at " << all_sites[k].c;
            mc_fail("program %s: %s of field %s is %s   [%s]", p.name, what, name, ss.str().c_str(), p.text);
        }
    }
    mc_compared(n);
}

static void run(const Prog &p, int prelude, int set) {
    HF h;
    RF r;
    int k = 0;
    each(h, r, [&](auto &f, auto &g, const char *) {
        k++;
        f.check_alloc();
        for (long i = 0; i < V; i++) g.v[i] = val<std::remove_reference_t<decltype(g.v[0])>>(i, k);
        for (unsigned i = 0; i < lattice->loop_end(ALL); i++) f.set_value_at(g.v[site_index[i]], i);
        f.mark_changed(ALL);
        if (prelude == 1) for (int d = 0; d < NDIRS; d++) f.gather((Direction)d, ALL);
        if (prelude == 2) for (int d = 0; d < NDIRS; d++) f.start_gather((Direction)d, d % 2 ? ODD : EVEN);
    });
    Args a;
    a.par = set == 0 ? EVEN : set == 1 ? ODD : ALL;
    a.opp = opp_parity(a.par);
    a.dv = set == 0 ? e_y : -e_x;
    a.du = set == 0 ? e_x : e_y;
    a.off = 0;
    a.off[e_x] = set == 0 ? 1 : -2;
    a.off[e_y] = set == 0 ? 2 : 1;
    a.k = set == 0 ? 1 : 2;
    a.x = 3;
    for (int i = 0; i < 8; i++) {
        a.arr[i] = a.sarr[i] = i * i - 5;
        a.iarr[i / 2][i % 2] = 3 * i - 7;
    }
    for (int i = 0; i < 9; i++) a.vec.push_back(2 * i + 1);
    a.v2.e(0) = 2;
    a.v2.e(1) = -3;
    a.zc = Complex<double>(1, -2);
    a.cfg.g = 5;
    a.cfg.h = 2;
    for (int i = 0; i < 3; i++) a.cfg.t[i] = i - 4;
    Args b = a;
    p.h(h, a);
    p.r(r, b);
    if (a.o.v != b.o.v) {
        std::stringstream ss;
        for (size_t i = 0; i < a.o.v.size(); i++) ss << a.o.v[i] << " ";
        ss << ", reference ";
        for (size_t i = 0; i < b.o.v.size(); i++) ss << b.o.v[i] << " ";
        mc_fail("program %s: results are %s   [%s]", p.name, ss.str().c_str(), p.text);
    }
    mc_compared(a.o.v.size());
    each(h, r, [&](auto &f, auto &g, const char *n) {
        check(f, g, n, "value", p);
        for (int d = 0; d < NDIRS; d++) {
            // the halo must agree too
            f.gather((Direction)d, ALL);
            for (unsigned i = 0; i < lattice->loop_end(ALL); i++) {
#ifdef SUBNODE_LAYOUT
                auto got = f.get_value_at_nb_site((Direction)d, i);
#else
                auto got = f.get_value_at(f.fs->neighbours[d][i]);
#endif
                if (!same(got, g[all_sites[site_index[i]] + (Direction)d])) mc_fail("program %s: neighbour %d of field %s afterwards   [%s]", p.name, d, n, p.text);
            }
        }
    });
}

HARNESS_MAIN {
    hila::initialize(argc, argv);
    int shape = mc_param("shape", 0);   // sides as digits, e.g. 46
    V = 1;
    bool odd = false;
    for (int d = 0; d < NDIM; d++) {
        S[d] = shape % 10;
        odd |= S[d] % 2 == 1;
        shape /= 10;
        V *= S[d];
    }
    mc_expect_exit(1);
    lattice.setup(S);
    mc_expect_exit(0);
    for (long i = 0; i < V; i++) {
        RSite s;
        long k = i;
        foralldir(d) { s.c[d] = k % S[d]; k /= S[d]; }
        s.i = i;
        all_sites.push_back(s);
    }
    for (unsigned i = 0; i < lattice->loop_end(ALL); i++) site_index.push_back(idx(lattice->coordinates(i)));
    static Table t;
    programs(t);
    int per = mc_param("per", 20), only = mc_param("prog", -1);
    int c = mc_global_choose((t.size() + per - 1) / per, "chunk");
    for (int i = c * per; i < (c + 1) * per && i < (int)t.size(); i++) {
        if (odd && !(t[i].flags & 2)) continue;
        for (int prelude = 0; prelude < 3; prelude++) {
            for (int set = 0; set < (t[i].flags & 1 ? 3 : 2); set++) {
                mc_note("%s prelude %d set %d", t[i].name, prelude, set);
                run(t[i], prelude, set);
            }
        }
    }
    return 0;
}
