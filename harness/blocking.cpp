// Blocked lattices: every sequence of block / unblock / switch operations, with fields copied up and down.
#include "hila.h"
#include "common.h"
using T = double;

struct Lat {
    CoordinateVector size;
    int parent;
    long vol;
    lattice_struct *ptr;
    std::vector<double> ref;     // reference of the field of this lattice
    Field<T> *f;
};
static std::vector<Lat> L;
static CoordinateVector factors[6];
static long ix(const CoordinateVector &c, const CoordinateVector &s) {
    long i = 0;
    for (int d = NDIM - 1; d >= 0; d--) i = i * s[d] + c[d];
    return i;
}
static CoordinateVector co(long i, const CoordinateVector &s) {
    CoordinateVector c;
    foralldir(d) { c[d] = i % s[d]; i /= s[d]; }
    return c;
}
static char trail[400];

static void geometry(int k) {
    Lat &l = L[k];
    if (lattice.volume() != (size_t)l.vol || lattice.size() != l.size) mc_fail("%s: size of the lattice", trail);
    if (lattice.is_base() != (k == 0)) mc_fail("%s: is_base", trail);
    long *cnt = (long *)mc_shared(sizeof(long) * 2 * 64);
    long n = 0, p = 0;
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        CoordinateVector c = lattice->coordinates(i);
        foralldir(d) if (c[d] < 0 || c[d] >= l.size[d]) mc_fail("%s: site out of the lattice", trail);
        if (lattice->node_rank(c) != hila::myrank() || lattice->site_index(c) != i) mc_fail("%s: owner of a site", trail);
        n++;
        p += ix(c, l.size);
    }
    cnt[2 * mc_rank()] = n;
    cnt[2 * mc_rank() + 1] = p;
    mc_barrier();
    n = p = 0;
    for (int i = 0; i < mc_nranks(); i++) { n += cnt[2 * i]; p += cnt[2 * i + 1]; }
    if (n != l.vol || p != l.vol * (l.vol - 1) / 2) mc_fail("%s: sites are not divided exactly", trail);
    mc_barrier();
}
static void cmp(const Field<T> &f, const std::vector<double> &r, const CoordinateVector &s, const char *what) {
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        CoordinateVector c = lattice->coordinates(i);
        if (f.get_value_at(i) != r[ix(c, s)]) {
            std::stringstream ss;
            ss << c;
            mc_fail("%s: %s at %s: %g, reference %g", trail, what, ss.str().c_str(), (double)f.get_value_at(i), r[ix(c, s)]);
        }
    }
    mc_compared(lattice->loop_end(ALL) - lattice->loop_begin(ALL));
}
static double nb(const std::vector<double> &r, const CoordinateVector &s, long i, const CoordinateVector &v) { return r[ix((co(i, s) + v).mod(s), s)]; }

// use the lattice which is current
static void work(int k, int step) {
    Lat &l = L[k];
    geometry(k);
    CoordinateVector zero, v;
    zero = 0;
    v.fill(1);
    if (l.parent >= 0) {
        Lat &p = L[l.parent];
        CoordinateVector fac = p.size.element_div(l.size);
        Field<T> b;
        if (!l.f) l.f = new Field<T>;
        l.f->block_from(*p.f);
        l.ref.assign(l.vol, 0);
        for (long i = 0; i < l.vol; i++) {
            CoordinateVector c = co(i, l.size);
            foralldir(d) c[d] *= fac[d];
            l.ref[i] = p.ref[ix(c, p.size)];
        }
        cmp(*l.f, l.ref, l.size, "block_from");
        lattice.switch_to(p.ptr);
        l.f->block_from(*p.f);
        if (lattice.ptr() != p.ptr) mc_fail("%s: block_from changes the current lattice", trail);
        lattice.switch_to(l.ptr);
        cmp(*l.f, l.ref, l.size, "block_from with the parent active");
        if (lattice.ptr() != l.ptr) mc_fail("%s: block_from changes the current lattice", trail);
    }
    Field<T> &f = *l.f;
    // neighbours on this lattice
    Field<T> g;
    for (Direction d = e_x; d < NDIRS; d = (Direction)((int)d + 1)) {
        for (Parity par : {ALL, EVEN, ODD}) {
            g = 0;
            g[par] = f[X + d];
            std::vector<double> r(l.vol, 0);
            for (long i = 0; i < l.vol; i++) {
                int pp = 0;
                foralldir(e) pp += co(i, l.size)[e];
                if (par == ALL || (par == EVEN) == (pp % 2 == 0)) r[i] = nb(l.ref, l.size, i, zero + d);
            }
            cmp(g, r, l.size, "neighbours");
        }
    }
    g = f.shift(v);
    {
        std::vector<double> r(l.vol);
        for (long i = 0; i < l.vol; i++) r[i] = nb(l.ref, l.size, i, v);
        cmp(g, r, l.size, "shift");
    }
    double sum = 0, expect = 0;
    onsites(ALL) sum += f[X];
    for (auto x : l.ref) expect += x;
    if (sum != expect) mc_fail("%s: sum over the lattice is %g, expected %g", trail, sum, expect);
    // change and copy back
    f[ALL] = 2 * f[X] + 1 + step;
    for (auto &x : l.ref) x = 2 * x + 1 + step;
    f[ODD] = -f[X];
    for (long i = 0; i < l.vol; i++) {
        int pp = 0;
        foralldir(e) pp += co(i, l.size)[e];
        if (pp & 1) l.ref[i] = -l.ref[i];
    }
    cmp(f, l.ref, l.size, "assignment");
    if (l.parent >= 0) {
        Lat &p = L[l.parent];
        CoordinateVector fac = p.size.element_div(l.size);
        // the parent lattice may be the active one
        lattice_struct *active = (step & 1) ? p.ptr : l.ptr;
        lattice.switch_to(active);
        f.unblock_to(*p.f);
        for (long i = 0; i < l.vol; i++) {
            CoordinateVector c = co(i, l.size);
            foralldir(d) c[d] *= fac[d];
            p.ref[ix(c, p.size)] = l.ref[i];
        }
        if (lattice.ptr() != active) mc_fail("%s: unblock_to changes the current lattice", trail);
        lattice.switch_to(l.ptr);
        cmp(f, l.ref, l.size, "field after unblock_to");
        lattice.switch_to(p.ptr);
        cmp(*p.f, p.ref, p.size, "unblock_to");
        // and the neighbours of the changed sites see the new values
        Field<T> h;
        h[ALL] = (*p.f)[X + e_x];
        std::vector<double> r(p.vol);
        for (long i = 0; i < p.vol; i++) r[i] = nb(p.ref, p.size, i, zero + e_x);
        cmp(h, r, p.size, "neighbours after unblock_to");
        if (step == 0) {
            // a copy moved down by itself
            Field<T> q;
            q = *p.f;
            lattice.switch_to(l.ptr);
            q.block_to_current_lattice();
            if (q.mylattice().ptr() != l.ptr) mc_fail("%s: block_to_current_lattice", trail);
            cmp(q, l.ref, l.size, "block_to_current_lattice");
            g[ALL] = q[X - e_x];
            std::vector<double> r2(l.vol);
            for (long i = 0; i < l.vol; i++) r2[i] = nb(l.ref, l.size, i, zero - e_x);
            cmp(g, r2, l.size, "neighbours after block_to_current_lattice");
        }
        lattice.switch_to(l.ptr);
    }
}

HARNESS_MAIN {
    hila::initialize(argc, argv);
    CoordinateVector S;
    static const int shapes[][4] = {{4, 4, 4, 4}, {8, 4, 4, 2}, {6, 4, 2, 4}, {12, 6, 4, 4}, {9, 6, 3, 2}, {8, 8, 8, 8}, {6, 6, 6, 6}};
    const int *sh = shapes[mc_global_choose(mc_param("shapes", 4), "shape")];
    foralldir(d) S[d] = sh[d];
    int depth = mc_param("depth", 3);
    mc_expect_exit(1);
    lattice.setup(S);
    mc_expect_exit(0);
    for (int i = 0; i < 6; i++) factors[i].fill(1);
    factors[0].fill(2);
    factors[1][0] = 2;
    factors[2][NDIM - 1] = 2;
    factors[3][0] = 3;
    factors[4].fill(3);
    L.reserve(20);
    L.push_back({S, -1, (long)lattice.volume(), lattice.ptr(), {}, new Field<T>});
    *L[0].f = 0;
    L[0].ref.resize(L[0].vol);
    for (long i = 0; i < L[0].vol; i++) L[0].ref[i] = 10 + (i * 7) % 31;
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) L[0].f->set_value_at(L[0].ref[ix(lattice->coordinates(i), S)], i);
    L[0].f->mark_changed(ALL);
    int cur = 0, len = 0;
    for (int st = 0; st < depth; st++) {
        int op = mc_global_choose(8, "lattice operation");
        len += snprintf(trail + len, sizeof(trail) - len, "%s%s", st ? "; " : "", op < 6 ? "block " : op == 6 ? "unblock" : "switch_to_base");
        if (op < 6) {
            CoordinateVector fac = factors[op];
            foralldir(d) len += snprintf(trail + len, sizeof(trail) - len, "%d ", fac[d]);
            bool ok = true;
            foralldir(d) if (L[cur].size[d] % fac[d]) ok = false;
            if (lattice.can_block(fac) != ok) mc_fail("%s: can_block", trail);
            if (!ok) mc_skip();
            CoordinateVector ns = L[cur].size.element_div(fac);
            int max = 1;
            foralldir(d) max = std::min(max, ns[d]);
            bool empty = false;     // fewer sites than rank divisions: some ranks have no sites
            lattice_struct *cl = lattice.ptr();
            foralldir(d) if (ns[d] < cl->nodes.n_divisions[d]) empty = true;
            if (empty && !mc_param("empty", 0)) mc_skip();
            if (max < 1) mc_skip();
            lattice.block(fac);
            if (ns == L[cur].size) {
                if (lattice.ptr() != L[cur].ptr) mc_fail("%s: blocking by 1 changes the lattice", trail);
            } else {
                int found = -1;
                for (size_t i = 0; i < L.size(); i++) if (L[i].parent == cur && L[i].size == ns) found = i;
                if (found < 0) {
                    found = L.size();
                    L.push_back({ns, cur, (long)lattice.volume(), lattice.ptr(), {}, nullptr});
                }
                L[found].ptr = lattice.ptr();
                for (size_t i = 0; i < L.size(); i++) if ((int)i != found && L[i].ptr == lattice.ptr()) mc_fail("%s: a blocked lattice is used with another parent", trail);
                cur = found;
            }
        } else if (op == 6) {
            if (L[cur].parent < 0) mc_skip();
            lattice.unblock();
            cur = L[cur].parent;
        } else {
            lattice.switch_to_base();
            cur = 0;
        }
        if (lattice.ptr() != L[cur].ptr) mc_fail("%s: wrong lattice is active", trail);
        work(cur, st);
        unsigned long h = cur;
        for (auto &l : L) for (auto x : l.ref) h = mc_hash(h, (long)x);
        mc_state(h);
    }
    return 0;
}
