// Single sites, lists, boxes, slices and rank-local copies of a field: every site, box and slice of every small lattice.
#include "hila.h"
#include "common.h"
#include "elem.h"

static bool box_ok(const std::vector<T> &v, const Ref &r, const CoordinateVector &a, const CoordinateVector &b, bool have, const char *what) {
    if (!have) {
        if (v.size() != 0) mc_fail("%s: data on a rank which should have none", what);
        return true;
    }
    size_t k = 0, n = 1;
    foralldir(d) n *= b[d] - a[d] + 1;
    if (v.size() != n) mc_fail("%s: %zu elements, expected %zu", what, v.size(), n);
    for (long i = 0; i < V; i++) {     // x runs fastest
        CoordinateVector c = crd(i);
        bool in = true;
        foralldir(d) if (c[d] < a[d] || c[d] > b[d]) in = false;
        if (!in) continue;
        if (!eq(v[k], r[i])) mc_fail("%s: element %zu is wrong", what, k);
        k++;
    }
    mc_compared(n);
    return true;
}

template <typename A>
void increments(Field<A> &f, Ref &r, const CoordinateVector &c, long v) {
    if constexpr (hila::is_arithmetic<A>::value) {
        A a = f[c]++;
        if (!eq(a, v + 3)) mc_fail("value of f[c]++");
        A b = ++f[c];
        if (!eq(b, v + 5)) mc_fail("value of ++f[c]");
        a = f[c]--;
        if (!eq(a, v + 5)) mc_fail("value of f[c]--");
        b = --f[c];
        if (!eq(b, v + 3)) mc_fail("value of --f[c]");
        compare(f, r, "increment and decrement");
    }
}

static void element_ops(Field<T> &f, Ref &r, long i) {
    CoordinateVector c = crd(i);
    long v = r[i];
    T got = f[c];
    if (!eq(got, v)) mc_fail("f[c] at site %ld", i);
    f[c] = mk<T>(v + 1000);
    r[i] = v + 1000;
    compare(f, r, "f[c] = v");
    f[c] += mk<T>(5);
    r[i] += 5;
    compare(f, r, "f[c] += v");
    f[c] -= mk<T>(7);
    r[i] -= 7;
    compare(f, r, "f[c] -= v");
    f[c] *= 2;
    r[i] *= 2;
    compare(f, r, "f[c] *= v");
    f[c] /= 2;
    r[i] /= 2;
    compare(f, r, "f[c] /= v");
    T ret = f.set_element(c, mk<T>(v + 3));
    if (!eq(ret, v + 3)) mc_fail("value of set_element");
    r[i] = v + 3;
    compare(f, r, "set_element");
    if (!eq(f.get_element(c), v + 3)) mc_fail("get_element");
    increments(f, r, c, v);
    // the neighbours see the new value
    Field<T> g;
    CoordinateVector u;
    u = c;
    for (Direction d = e_x; d < NDIRS; d = (Direction)((int)d + 1)) {
        g[ALL] = f[X + d];
        f[c] = mk<T>(v + 50 + d);
        r[i] = v + 50 + d;
        g[ALL] = f[X + d];
        for (unsigned k = lattice->loop_begin(ALL); k < lattice->loop_end(ALL); k++) {
            CoordinateVector n = (lattice->coordinates(k) + d).mod(S);
            if (!eq(g.get_value_at(k), r[idx(n)])) mc_fail("neighbour does not see the element written last");
        }
    }
}

HARNESS_MAIN {
    hila::initialize(argc, argv);
    choose_lattice();
    bool root = hila::myrank() == 0;
    Field<T> f, g;
    Ref r, r2;
    fill(f, r, 1);
    switch (mc_global_choose(5, "part")) {
    case 0: // boxes
        for (long i = 0; i < V; i++) for (long j = i; j < V; j++) {
            CoordinateVector a = crd(i), b = crd(j);
            bool ok = true;
            foralldir(d) if (a[d] > b[d]) ok = false;
            if (!ok) continue;
            box_ok(f.get_subvolume(a, b), r, a, b, root, "get_subvolume");
            box_ok(f.get_subvolume(a, b, true), r, a, b, true, "get_subvolume(broadcast)");
        }
        break;
    case 1: { // slices: -1 runs through
        long n = 1;
        foralldir(d) n *= S[d] + 1;
        for (long i = 0; i < n; i++) {
            CoordinateVector c, a, b;
            long k = i;
            foralldir(d) { c[d] = k % (S[d] + 1) - 1; k /= S[d] + 1; }
            foralldir(d) { a[d] = c[d] < 0 ? 0 : c[d]; b[d] = c[d] < 0 ? S[d] - 1 : c[d]; }
            box_ok(f.get_slice(c), r, a, b, root, "get_slice");
            box_ok(f.get_slice(c, true), r, a, b, true, "get_slice(broadcast)");
        }
        break;
    }
    case 2: // lists, in any order and with repetitions
        for (long i = 0; i < V; i++) for (long j = 0; j < V; j++) {
            std::vector<CoordinateVector> l = {crd(i), crd(j), crd(i), crd(V - 1)};
            for (bool bc : {false, true}) {
                std::vector<T> v = f.get_elements(l, bc);
                if (root || bc) {
                    if (v.size() != 4 || !eq(v[0], r[i]) || !eq(v[1], r[j]) || !eq(v[2], r[i]) || !eq(v[3], r[V - 1])) mc_fail("get_elements %ld %ld", i, j);
                }
                mc_compared(4);
            }
            if (i != j) {
                g = f;
                r2 = r;
                std::vector<CoordinateVector> l2 = {crd(i), crd(j)};
                std::vector<T> e = {mk<T>(2001), mk<T>(2002)};
                g.set_elements(e, l2);
                r2[i] = 2001;
                r2[j] = 2002;
                compare(g, r2, "set_elements");
                compare(f, r, "f after g.set_elements");
            }
        }
        break;
    case 3: { // data of this rank
        const auto mn = lattice->mynode.min, sz = lattice->mynode.size;
        std::vector<T> v;
        f.copy_local_data(v);
        long n = 1;
        foralldir(d) n *= sz[d];
        if ((long)v.size() != n) mc_fail("copy_local_data: %zu elements, expected %ld", v.size(), n);
        for (long i = 0; i < n; i++) {
            CoordinateVector c;
            long k = i;
            foralldir(d) { c[d] = mn[d] + k % sz[d]; k /= sz[d]; }
            if (!eq(v[i], r[idx(c)])) mc_fail("copy_local_data: element %ld", i);
        }
        mc_compared(n);
        std::vector<T> h;
        f.copy_local_data_with_halo(h);
        n = 1;
        foralldir(d) n *= sz[d] + 2;
        if ((long)h.size() != n) mc_fail("copy_local_data_with_halo: %zu elements, expected %ld", h.size(), n);
        for (long i = 0; i < n; i++) {
            CoordinateVector c;
            long k = i;
            foralldir(d) { c[d] = mn[d] - 1 + k % (sz[d] + 2); k /= sz[d] + 2; }
            if (!eq(h[i], r[idx(c.mod(S))])) {
                std::stringstream ss;
                ss << c;
                mc_fail("copy_local_data_with_halo: element %ld (site %s)", i, ss.str().c_str());
            }
        }
        mc_compared(n);
        compare(f, r, "field after local copies");
        for (auto &x : v) x += mk<T>(100);
        g.set_local_data(v);
        for (auto &x : r) x += 100;
        compare(g, r, "set_local_data");
        break;
    }
    case 4:
        for (long i = 0; i < V; i++) element_ops(f, r, i);
        break;
    }
    return 0;
}
