// element type of the run and a full-lattice reference
#ifndef MC_ELEM
#define MC_ELEM double
#endif
using T = MC_ELEM;

// site value number v: linear, so that mk(-v) == -mk(v)
template <typename A>
A mk(long v) {
    if constexpr (hila::is_arithmetic<A>::value) {
        return static_cast<A>(v);
    } else {
        A r;
        r = 0;
        for (int i = 0; i < A::size(); i++) r.e(i) = (i + 1) * v;
        return r;
    }
}
template <typename A>
bool eq(const A &a, long v) {
    if constexpr (hila::is_arithmetic<A>::value) {
        return a == static_cast<A>(v);
    } else {
        for (int i = 0; i < A::size(); i++) if (a.e(i) != (i + 1) * v) return false;
        return true;
    }
}

static CoordinateVector S;
static long V;
static long idx(const CoordinateVector &c) {
    long i = 0;
    for (int d = NDIM - 1; d >= 0; d--) i = i * S[d] + c[d];
    return i;
}
static CoordinateVector crd(long i) {
    CoordinateVector c;
    foralldir(d) { c[d] = i % S[d]; i /= S[d]; }
    return c;
}
using Ref = std::vector<long>;
static void fill(Field<T> &f, Ref &r, int k, const Lattice &l = lattice) {
    r.resize(V);
    for (long i = 0; i < V; i++) r[i] = (i * 7 + 3 * k + 1) % 97 + 1 + 100 * k;
    f[ALL] = 0;
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) f.set_value_at(mk<T>(r[idx(lattice->coordinates(i))]), i);
    f.mark_changed(ALL);
}
static void compare(const Field<T> &f, const Ref &r, const char *what) {
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        T got = f.get_value_at(i);
        if (!eq(got, r[idx(lattice->coordinates(i))])) {
            std::stringstream ss;
            ss << got << " at " << lattice->coordinates(i);
            mc_fail("%s: field is %s, reference %ld", what, ss.str().c_str(), r[idx(lattice->coordinates(i))]);
        }
    }
    mc_compared(lattice->loop_end(ALL) - lattice->loop_begin(ALL));
}
// shape chosen within the run's bounds; the lattice may be refused
static void choose_lattice() {
    int lo = mc_param("lo", 2), hi = mc_param("hi", 5), st = mc_param("step", 1);
    V = 1;
    foralldir(d) {
        S[d] = lo + st * mc_global_choose((hi - lo) / st + 1, "side");
        V *= S[d];
    }
    mc_expect_exit(1);
    lattice.setup(S);
    mc_expect_exit(0);
}
