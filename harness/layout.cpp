// Node division and site indexing: every lattice shape x rank count of the run.
#include "hila.h"
#include "common.h"

static int *refused;      // per rank

// lattices that a user may expect to be accepted: sides and rank count powers of one prime with room for boxes of 2 sites
// in every direction; sides that are multiples of the rank count; a prime rank count (up to 37) and sides of at least twice that
static bool expect_accepted(const CoordinateVector &s, int np) {
    bool mult = true, large = true, prime = np <= 37;
    foralldir(d) {
        if (s[d] % np != 0 || s[d] / np < 2) mult = false;
        if (s[d] < 2 * np) large = false;
    }
    for (int i = 2; i < np; i++) if (np % i == 0) prime = false;
    if (np == 1 || (mult && np <= 37) || (prime && large)) return true;
    for (int p : {2, 3, 5}) {
        bool all = true;
        long v = 1, need = np;
        int n = np;
        while (n % p == 0) n /= p;
        if (n != 1) continue;
        foralldir(d) {
            int k = s[d];
            while (k % p == 0) k /= p;
            if (k != 1) all = false;
            v *= s[d];
            need *= p;
        }
        if (all && v >= need) return true;
    }
    return false;
}

static CoordinateVector s;
static void on_exit_(int kind, int code) {
    refused[mc_rank()] = 1;
    if (kind != 1) mc_fail("the lattice was not refused in an orderly way");
#ifdef SUBNODE_LAYOUT
    // vector layout: lattices whose sides are powers of two and give at least 4^NDIM sites to each of the 8 np virtual nodes
    bool pow2 = (mc_nranks() & (mc_nranks() - 1)) == 0;
    long v = 1, need = 8 * mc_nranks();
    foralldir(d) { pow2 = pow2 && (s[d] & (s[d] - 1)) == 0 && s[d] >= 4; v *= s[d]; need *= 4; }
    if (pow2 && v >= need) mc_fail("refused although virtual nodes of equal size exist");
#else
    if (expect_accepted(s, mc_nranks())) mc_fail("refused although equal boxes exist");
#endif
    mc_compared(1);
}

HARNESS_MAIN {
    int np = mc_nranks();
    refused = (int *)mc_shared(sizeof(int) * 64);
    int *owner = (int *)mc_shared(sizeof(int) * 100000);
    int *seen = (int *)mc_shared(sizeof(int) * 100000);
    int *info = (int *)mc_shared(sizeof(int) * 64 * 16);
    hila::initialize(argc, argv);
    int lo = mc_param("lo", 2), hi = mc_param("hi", 6), step = mc_param("step", 1);
    long V = 1;
    foralldir(d) {
        s[d] = lo + step * mc_global_choose((hi - lo) / step + 1, "size");
        V *= s[d];
    }
    mc_on_exit(on_exit_);
    mc_expect_exit(1);
    lattice.setup(s);
    mc_expect_exit(0);
    mc_barrier();
    // from here on the lattice was accepted by every rank
    for (int i = 0; i < np; i++) if (refused[i]) mc_fail("rank %d refused the lattice, others accepted it", i);
    if (lattice.volume() != V) mc_fail("volume");
    foralldir(d) if (lattice.size(d) != s[d] || lattice.size()[d] != s[d]) mc_fail("size");
    long mine = 0, even = 0;
    const auto &n = lattice->mynode;
    CoordinateVector c;
    long gi = 0;
    forallcoordinates(c) {
        int r = lattice->node_rank(c);
        if (r < 0 || r >= np) mc_fail("site owned by non-existing rank %d", r);
        bool on = lattice->is_on_mynode(c);
        if (on != (r == hila::myrank())) mc_fail("is_on_mynode and node_rank disagree");
        if (on) {
            owner[gi]++;
            unsigned i = lattice->site_index(c);
            if (i >= n.volume) mc_fail("site index %u of local volume %ld", i, (long)n.volume);
            CoordinateVector c2 = lattice->coordinates(i);
            foralldir(d) {
                if (c2[d] != c[d]) mc_fail("coordinates(site_index(c)) != c");
                if (lattice->coordinate(i, d) != c[d]) mc_fail("coordinate(i,d)");
                if (c[d] < n.min[d] || c[d] >= n.min[d] + n.size[d]) mc_fail("site outside of the box of its rank");
            }
            if (lattice->site_parity(i) != c.parity()) mc_fail("site parity");
            mine++;
            if (c.parity() == EVEN) even++;
#ifndef SUBNODE_LAYOUT
            if ((c.parity() == EVEN) != (i < n.evensites)) mc_fail("even sites are not first");
#endif
        }
        CoordinateVector g = lattice->global_coordinates(gi);
        foralldir(d) if (g[d] != c[d]) mc_fail("global_coordinates");
        SiteIndex si(c);
        if ((long)si.value != gi) mc_fail("SiteIndex");
        g = si.coordinates();
        foralldir(d) if (g[d] != c[d]) mc_fail("SiteIndex::coordinates");
        gi++;
    }
    if (mine != (long)n.volume || even != (long)n.evensites || mine - even != (long)n.oddsites) mc_fail("local volume %ld even %ld, counted %ld %ld", (long)n.volume, (long)n.evensites, mine, even);
    // node info of every rank as seen by this rank
    for (int r = 0; r < np; r++) {
        node_info ni = lattice->nodes.nodeinfo(r);
        int *q = info + 16 * r;
        foralldir(d) {
            int a = ni.min[d] + 1000 * (int)ni.size[d] + 1;
            if (q[d] == 0) q[d] = a;
            if (q[d] != a) mc_fail("ranks disagree on the box of rank %d", r);
            if (r == hila::myrank() && (ni.min[d] != n.min[d] || ni.size[d] != n.size[d])) mc_fail("box of this rank");
        }
    }
    mc_barrier();
    for (long i = 0; i < V; i++) if (owner[i] != 1) mc_fail("site %ld is owned by %d ranks", i, owner[i]);
    // loops visit each site of the parity once, with the right coordinates
    for (int k = 0; k < 3; k++) {
        Parity p = k == 0 ? EVEN : k == 1 ? ODD : ALL;
        Field<int64_t> f;
        f[ALL] = -1;
        int64_t cnt = 0;
        onsites(p) {
            f[X] = SiteIndex(X.coordinates()).value;
            cnt += 1;
        }
        int64_t expect = 0;
        forallcoordinates(c) if (p == ALL || c.parity() == p) expect++;
        if (cnt != expect) mc_fail("loop over parity %d visited %ld sites of %ld", k, (long)cnt, (long)expect);
        forallcoordinates(c) if (lattice->is_on_mynode(c)) {
            int64_t v = f.get_value_at(lattice->site_index(c));
            int64_t e = (p == ALL || c.parity() == p) ? (int64_t)SiteIndex(c).value : -1;
            if (v != e) mc_fail("loop over parity %d stored %ld, expected %ld", k, (long)v, (long)e);
        }
        Field<int> h, g, q;
        h[ALL] = -1; g[ALL] = -1; q[ALL] = -1;
        onsites(p) {
            h[X] = X.x();
            g[X] = X.coordinate(Direction(NDIM - 1));
            q[X] = X.parity() == EVEN ? 0 : 1;
        }
        forallcoordinates(c) if (lattice->is_on_mynode(c) && (p == ALL || c.parity() == p)) {
            unsigned i = lattice->site_index(c);
            if (h.get_value_at(i) != c[0] || g.get_value_at(i) != c[NDIM - 1]) mc_fail("X.x() or X.coordinate()");
            if (q.get_value_at(i) != (c.parity() == EVEN ? 0 : 1)) mc_fail("X.parity()");
        }
    }
    mc_compared(6 * V);
    unsigned long hsh = np;
    foralldir(d) hsh = mc_hash(hsh, s[d]);
    mc_state(hsh);
    foralldir(d) hsh = mc_hash(hsh, lattice->nodes.n_divisions[d]);
    mc_outcome(hsh);
    mc_on_exit(nullptr);
    mc_expect_exit(1);
    hila::finishrun();
    return 0;
}
