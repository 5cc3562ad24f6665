// Field and its neighbours: every sequence of field operations of a given length on a small lattice, against a copy of the
// whole lattice kept by every rank.  After every operation both fields are compared site by site.
#include "hila.h"
#include "common.h"
#ifndef MC_ELEM
#define MC_ELEM double
#endif
using T = MC_ELEM;

// site value number v: linear, so that mk(-v) == -mk(v)
template <typename A>
A mk(long v) {
    if constexpr (hila::is_arithmetic<A>::value) {
        return static_cast<A>(v);
    } else {
        A r;
        r = 0;
        for (int i = 0; i < A::size(); i++) r.e(i) = (i + 1) * v;
        return r;
    }
}
template <typename A>
bool eq(const A &a, long v) {
    if constexpr (hila::is_arithmetic<A>::value) {
        return a == static_cast<A>(v);
    } else {
        for (int i = 0; i < A::size(); i++) if (a.e(i) != (i + 1) * v) return false;
        return true;
    }
}

static CoordinateVector S;
static long V;
static bool oddsize;
using Ref = std::vector<long>;
static long idx(const CoordinateVector &c) {
    long i = 0;
    for (int d = NDIM - 1; d >= 0; d--) i = i * S[d] + c[d];
    return i;
}
static std::vector<CoordinateVector> crd;
static std::vector<int> parity_;   // 0 even 1 odd
static std::vector<long> mine;     // reference index of local site i (or -1)
static unsigned lbegin, lend;

struct RF {                        // reference field
    Ref v;
    bool anti[NDIM];
    void reset() { v.assign(V, 0); for (auto &a : anti) a = false; }
    long at(const CoordinateVector &c, const CoordinateVector &off) const {
        CoordinateVector r;
        long s = 1;
        foralldir(d) {
            int k = c[d] + off[d], w = 0;
            while (k < 0) { k += S[d]; w++; }
            while (k >= S[d]) { k -= S[d]; w++; }
            r[d] = k;
            if (anti[d] && (w & 1)) s = -s;
        }
        return s * v[idx(r)];
    }
};
static bool in(long i, Parity p) { return p == ALL || (p == EVEN) == (parity_[i] == 0); }

static std::vector<Field<T>> src;
static std::vector<Ref> srcr;

static void fill(Field<T> &f, Ref &r, int k) {
    r.resize(V);
    for (long i = 0; i < V; i++) r[i] = (i * 7 + 3 * k + 1) % 97 + 1 + 100 * k;
    f[ALL] = 0;
    for (unsigned i = lbegin; i < lend; i++) f.set_value_at(mk<T>(r[mine[i]]), i);
    f.mark_changed(ALL);
}

static const char *desc = "";
static char trail[400];
static void compare(const Field<T> &f, const RF &r, const char *name) {
    for (unsigned i = lbegin; i < lend; i++) {
        T got = f.get_value_at(i);
        if (!eq(got, r.v[mine[i]])) {
            std::stringstream ss;
            ss << got << " at " << lattice->coordinates(i);
            mc_fail("%s: field %s is %s, reference %ld (after %s)", trail, name, ss.str().c_str(), r.v[mine[i]], desc);
        }
    }
    mc_compared(lend - lbegin);
}

enum { ASSIGN, NB, NB2, START, BC, SET, COMP, INPL, OFF, SHIFT, COPYFG, COPYGF, SWAP, MOVE, CLEAR, OFF2, SELF, CONSTOFF, OFF3 };
struct Op { int k; Parity p; Direction d; CoordinateVector v; };
static const char *kname[] = {"f[par]=src", "g[par]=f[X+d]", "g[par]=f[X+d]-2f[X-d]+f[X]", "f.start_gather", "toggle boundary condition", "set_element", "element +=",
                              "f[par]+=f[X+d]-f[X-d2]", "g[par]=f[X+v]", "f.shift(v,g,par)", "f=g", "g=f", "swap", "f=move(g)", "f.clear", "g[par]=f[X+v]+f[X+d]", "f=f.shift(v)", "g[par]=f[X+ex-ey]-f[X+2ex]", "g[par]=f[X+v]+3f[X+v+d]"};
static std::vector<Op> ops;

static void apply(const Op &o, Field<T> &f, RF &F, Field<T> &g, RF &G, int step) {
    const Parity par = o.p;
    const Direction d = o.d;
    CoordinateVector zero;
    zero = 0;
    switch (o.k) {
    case ASSIGN:
        f[par] = src[step][X];
        for (long i = 0; i < V; i++) if (in(i, par)) F.v[i] = srcr[step][i];
        break;
    case NB:
        g[par] = f[X + d];
        for (long i = 0; i < V; i++) if (in(i, par)) G.v[i] = F.at(crd[i], zero + d);
        break;
    case NB2:
        g[par] = f[X + d] - f[X - d] - f[X - d] + f[X];
        for (long i = 0; i < V; i++) if (in(i, par)) G.v[i] = F.at(crd[i], zero + d) - 2 * F.at(crd[i], zero - d) + F.v[i];
        break;
    case START:
        f.start_gather(d, par);
        break;
    case BC:
#ifdef SPECIAL_BOUNDARY_CONDITIONS
        f.set_boundary_condition(d, f.get_boundary_condition(d) == hila::bc::PERIODIC ? hila::bc::ANTIPERIODIC : hila::bc::PERIODIC);
        F.anti[d] = !F.anti[d];
#endif
        break;
    case SET:
        f[o.v] = mk<T>(7001 + step);
        F.v[idx(o.v)] = 7001 + step;
        break;
    case COMP:
        f[o.v] += mk<T>(500 + step);
        F.v[idx(o.v)] += 500 + step;
        break;
    case INPL: {
        const Direction d2 = next_direction(abs(d));
        f[par] += f[X + d] - f[X - d2];
        RF N = F;
        for (long i = 0; i < V; i++) if (in(i, par)) N.v[i] += F.at(crd[i], zero + d) - F.at(crd[i], zero - d2);
        F = N;
        break;
    }
    case OFF:
        g[par] = f[X + o.v];
        for (long i = 0; i < V; i++) if (in(i, par)) G.v[i] = F.at(crd[i], o.v);
        break;
    case OFF2:
        g[par] = f[X + o.v] + f[X + d];
        for (long i = 0; i < V; i++) if (in(i, par)) G.v[i] = F.at(crd[i], o.v) + F.at(crd[i], zero + d);
        break;
    case OFF3: {        // two offsets one step apart share moves
        CoordinateVector w = o.v + d;
        g[par] = f[X + o.v] + 3 * f[X + w];
        for (long i = 0; i < V; i++) if (in(i, par)) G.v[i] = F.at(crd[i], o.v) + 3 * F.at(crd[i], w);
        break;
    }
    case CONSTOFF:
#if NDIM > 1
        g[par] = f[X + e_x - e_y] - f[X + 2 * e_x];
        for (long i = 0; i < V; i++) if (in(i, par)) G.v[i] = F.at(crd[i], zero + e_x - e_y) - F.at(crd[i], zero + e_x + e_x);
#endif
        break;
    case SHIFT:
        f.shift(o.v, g, par);
        for (long i = 0; i < V; i++) if (in(i, par)) G.v[i] = F.at(crd[i], o.v);
        break;
    case SELF: {
        f = f.shift(o.v);
        RF N = F;
        for (long i = 0; i < V; i++) N.v[i] = F.at(crd[i], o.v);
        for (auto &a : N.anti) a = false;   // moved from a new field
        F = N;
        break;
    }
    case COPYFG:
        f = g;
        F.v = G.v;
        break;
    case COPYGF:
        g = f;
        G.v = F.v;
        break;
    case SWAP:
        hila::swap(f, g);
        std::swap(F, G);
        break;
    case MOVE:
        f = std::move(g);
        F = G;
        g = src[step];
        G.v = srcr[step];
        for (auto &a : G.anti) a = false;
        break;
    case CLEAR:
        f.clear();
        f[ALL] = src[step][X];
        F.v = srcr[step];
        for (auto &a : F.anti) a = false;
        break;
    }
}

static unsigned long state_of(const RF &F, const RF &G, const Field<T> &f) {
    unsigned long h = 1;
    for (long i = 0; i < V; i++) h = mc_hash(h, F.v[i]), h = mc_hash(h, G.v[i]);
    for (int d = 0; d < NDIM; d++) h = mc_hash(h, F.anti[d] * 2 + G.anti[d]);
    for (int d = 0; d < NDIRS; d++) h = mc_hash(h, (int)f.is_gathered(d, ALL) + 2 * f.is_gathered(d, EVEN) + 4 * f.is_gathered(d, ODD));
    return h;
}

static void run_sequence(const int *seq, int n) {
    Field<T> f, g;
    RF F, G;
    F.reset();
    G.reset();
    f[ALL] = src[10][X];
    g[ALL] = src[11][X];
    F.v = srcr[10];
    G.v = srcr[11];
    int l = 0;
    for (int i = 0; i < n; i++) {
        const Op &o = ops[seq[i]];
        l += snprintf(trail + l, sizeof(trail) - l, "%s%s %s d%d (", i ? "; " : "", kname[o.k], o.p == ALL ? "ALL" : o.p == EVEN ? "EVEN" : "ODD", (int)o.d);
        foralldir(d) l += snprintf(trail + l, sizeof(trail) - l, "%d ", o.v[d]);
        l += snprintf(trail + l, sizeof(trail) - l, ")");
        desc = kname[o.k];
        apply(o, f, F, g, G, i);
        compare(f, F, "f");
        compare(g, G, "g");
    }
    mc_state(state_of(F, G, f));
    // whatever was left in the buffers, a read now gives the current values
    desc = "final read of all neighbours";
    CoordinateVector zero;
    zero = 0;
    for (Direction d = e_x; d < NDIRS; d = (Direction)((int)d + 1)) {
        apply({NB, ALL, d, zero}, f, F, g, G, 0);
        compare(g, G, "g");
    }
}

static void build_ops(int level) {
    CoordinateVector zero, first, last, mid;
    zero = 0;
    first = 0;
    foralldir(d) last[d] = S[d] - 1;
    foralldir(d) mid[d] = S[d] / 2;
    bool sb = false;
#ifdef SPECIAL_BOUNDARY_CONDITIONS
    sb = hila::has_unary_minus<T>::value;
#endif
    std::vector<Direction> dirs;
    for (Direction d = e_x; d < NDIRS; d = (Direction)((int)d + 1)) dirs.push_back(d);
    std::vector<Parity> all = {ALL, EVEN, ODD};
    std::vector<Direction> some = dirs;
    if (level < 2 && NDIM > 2) some = {e_x, (Direction)(NDIM - 1), opp_dir((Direction)(NDIM - 1))};
    for (auto p : all) ops.push_back({ASSIGN, p, e_x, zero});
    for (auto p : all) for (auto d : some) ops.push_back({NB, p, d, zero});
    for (auto d : some) for (auto p : all) ops.push_back({START, p, d, zero});
    if (sb) foralldir(d) ops.push_back({BC, ALL, d, zero});
    ops.push_back({SET, ALL, e_x, last});
    ops.push_back({COMP, ALL, e_x, first});
    if (!oddsize && NDIM > 1) {
        ops.push_back({INPL, EVEN, e_x, zero});
        ops.push_back({INPL, ODD, -e_x, zero});
    }
    CoordinateVector v1, v2, v3, v4;
    v1 = 0; v2 = 0; v3 = 0; v4 = 0;
    v1[0] = 1; v1[NDIM - 1] += 1;
    v2[NDIM - 1] = -2;
    v3[0] = S[0] + 1; if (NDIM > 1) v3[NDIM - 1] = -1;
    v4[0] = -1; v4[NDIM - 1] -= 2;
    ops.push_back({OFF, ALL, e_x, v1});
    ops.push_back({OFF, EVEN, e_x, v2});
    ops.push_back({OFF, ODD, e_x, v4});
    ops.push_back({OFF3, EVEN, e_x, v1});
    ops.push_back({SHIFT, ODD, e_x, v1});
    ops.push_back({SHIFT, ALL, e_x, v4});
    ops.push_back({COPYFG, ALL, e_x, zero});
    ops.push_back({SWAP, ALL, e_x, zero});
    ops.push_back({MOVE, ALL, e_x, zero});
    if (level >= 1) {
        for (auto p : all) ops.push_back({NB2, p, e_x, zero});
        for (auto p : all) for (auto v : {v1, v2, v3, v4}) ops.push_back({OFF2, p, -e_x, v});
        for (auto p : all) ops.push_back({CONSTOFF, p, e_x, zero});
        for (auto p : all) for (auto v : {v2, v3}) ops.push_back({SHIFT, p, e_x, v});
        for (auto p : all) for (auto v : {v1, v2, v3, v4}) ops.push_back({OFF3, p, -e_x, v});
        ops.push_back({OFF, ODD, e_x, v1});
        ops.push_back({OFF, EVEN, e_x, v3});
        ops.push_back({SET, ALL, e_x, mid});
        ops.push_back({COPYGF, ALL, e_x, zero});
        ops.push_back({SELF, ALL, e_x, v1});
        ops.push_back({CLEAR, ALL, e_x, zero});
    }
}

static const int shapes[][4] = {
    // even, odd and mixed sides
    {4, 4, 4, 4}, {6, 4, 2, 4}, {3, 4, 2, 2}, {5, 3, 3, 2}, {8, 8, 8, 8}, {8, 4, 4, 4}, {4, 8, 16, 4}, {16, 8, 8, 4}, {2, 6, 2, 2}, {12, 4, 4, 4}, {4, 6, 4, 2}};

HARNESS_MAIN {
    hila::initialize(argc, argv);
    int depth = mc_param("depth", 3), outer = mc_param("outer", 2), level = mc_param("level", 0);
    int sh = mc_param("shape", -1);
    if (sh >= 0) {
        foralldir(d) S[d] = shapes[sh][d];
    } else {
        int lo = mc_param("lo", 2), hi = mc_param("hi", 6), st = mc_param("step", 1);
        foralldir(d) S[d] = lo + st * mc_global_choose((hi - lo) / st + 1, "side");
    }
    V = 1;
    foralldir(d) { V *= S[d]; if (S[d] & 1) oddsize = true; }
    if (sh < 0) mc_expect_exit(1);
    lattice.setup(S);
    mc_expect_exit(0);
    build_ops(level);
    lbegin = lattice->loop_begin(ALL);
    lend = lattice->loop_end(ALL);
    crd.resize(V);
    parity_.resize(V);
    CoordinateVector c;
    forallcoordinates(c) {
        crd[idx(c)] = c;
        int s = 0;
        foralldir(d) s += c[d];
        parity_[idx(c)] = s & 1;
    }
    mine.resize(lend);
    for (unsigned i = lbegin; i < lend; i++) mine[i] = idx(lattice->coordinates(i));
    src.resize(12);
    srcr.resize(12);
    for (int i = 0; i < depth; i++) fill(src[i], srcr[i], i);
    fill(src[10], srcr[10], 10);
    fill(src[11], srcr[11], 11);

    if (mc_param("offsets", 0)) {
        // every offset within a box, from every state of the neighbour buffers and with all boundary conditions
        int k = mc_param("box", 3);
        ops.clear();
        Op pre = {ASSIGN, ALL, e_x, c}, bcop = {BC, ALL, e_x, c};
        CoordinateVector v;
        foralldir(d) v[d] = mc_global_choose(2 * k + 1, "offset") - k;
        int nb = 1;
#ifdef SPECIAL_BOUNDARY_CONDITIONS
        foralldir(d) nb *= 2;
#endif
        for (int b = 0; b < nb; b++) for (int pr = 0; pr < 2 * NDIRS + 2; pr++) for (Parity p : {ALL, EVEN, ODD}) for (int how : {OFF, SHIFT, SELF, OFF3}) {
            ops.clear();
            foralldir(d) if (b >> (int)d & 1) ops.push_back({BC, ALL, d, v});
            if (pr < 2 * NDIRS) ops.push_back({pr < NDIRS ? START : NB, p, (Direction)(pr % NDIRS), v});
            else if (pr == 2 * NDIRS) ops.push_back({OFF, opp_parity(p), e_x, v});
            ops.push_back({how, p, (Direction)(pr % NDIRS), v});
            if (how == OFF) {
                CoordinateVector w = v;
                w[0] += 1;
                ops.push_back({OFF, ALL, e_x, w});
            }
            int sq[16];
            for (size_t i = 0; i < ops.size(); i++) sq[i] = i;
            run_sequence(sq, ops.size());
        }
        return 0;
    }
    int seq[8], n = ops.size();
    for (int i = 0; i < outer && i < depth; i++) seq[i] = mc_global_choose(n, "operation");
    long inner = 1;
    for (int i = outer; i < depth; i++) inner *= n;
    for (long q = 0; q < inner; q++) {
        long r = q;
        for (int i = outer; i < depth; i++) { seq[i] = r % n; r /= n; }
        run_sequence(seq, depth);
    }
    return 0;
}
