// Clusters: every assignment of types (or links) to the sites of small lattices, against a flood fill by hand.
#include <set>
#include <map>
#include "hila.h"
#include "common.h"
#include "plumbing/clusters.h"

static CoordinateVector S;
static long V;
static long idx(const CoordinateVector &c) {
    long i = 0;
    for (int d = NDIM - 1; d >= 0; d--) i = i * S[d] + c[d];
    return i;
}
static CoordinateVector crd(long i) {
    CoordinateVector c;
    foralldir(d) { c[d] = i % S[d]; i /= S[d]; }
    return c;
}
static std::vector<long> nbr;    // [site*2*NDIM + 2*d + (0 up, 1 down)]
static void neighbours() {
    nbr.resize(V * 2 * NDIM);
    for (long x = 0; x < V; x++)
        foralldir(d) {
            CoordinateVector c = crd(x), u = c, w = c;
            u[d] = (c[d] + 1) % S[d];
            w[d] = (c[d] + S[d] - 1) % S[d];
            nbr[x * 2 * NDIM + 2 * (int)d] = idx(u);
            nbr[x * 2 * NDIM + 2 * (int)d + 1] = idx(w);
        }
}
static long root_of(std::vector<long> &p, long x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }

struct Cl { int type; std::vector<long> sites; long area; };
static const int BG = hila::Clusters::background;

// clusters from types and connections: joined(x, k) tells if x is connected to its neighbour k
template <typename F>
static std::map<long, Cl> reference(const std::vector<int> &type, F joined) {
    std::vector<long> p(V);
    for (long x = 0; x < V; x++) p[x] = x;
    for (long x = 0; x < V; x++) if (type[x] != BG)
        for (int k = 0; k < 2 * NDIM; k++) {
            long y = nbr[x * 2 * NDIM + k];
            if (joined(x, k)) p[root_of(p, x)] = root_of(p, y);
        }
    std::map<long, Cl> r;
    std::vector<long> first(V, -1), lab(V, -1);
    for (long x = 0; x < V; x++) if (type[x] != BG) {
        long q = root_of(p, x);
        if (first[q] < 0) { first[q] = x; r[x].type = type[x]; r[x].area = 0; }
        r[first[q]].sites.push_back(x);
        lab[x] = first[q];
    }
    for (long x = 0; x < V; x++) if (lab[x] >= 0)
        for (int k = 0; k < 2 * NDIM; k++) if (lab[nbr[x * 2 * NDIM + k]] != lab[x]) r[lab[x]].area++;
    return r;
}
static std::map<long, Cl> of_types(const std::vector<int> &t) {
    return reference(t, [&](long x, int k) { return t[x] == t[nbr[x * 2 * NDIM + k]]; });
}

static void check(hila::Clusters &cl, const std::map<long, Cl> &ref, bool all, const char *what) {
    if (cl.number() != ref.size() || cl.size() != ref.size()) mc_fail("%s: %ld clusters, should be %ld", what, (long)cl.number(), (long)ref.size());
    std::set<long> seen;
    std::set<uint64_t> labels;
    long n = 0;
    for (size_t i = 0; i < cl.number(); i++) {
        // found by its sites; the sites only on rank 0
        long first = -1;
        if (all || cl.number() <= 4) {
            std::vector<SiteIndex> s = cl[i].sites();
            long area = cl[i].area();
            std::set<long> mine;
            for (auto &q : s) mine.insert(q.value);
            if (hila::myrank() == 0) {
                if (mine.empty()) mc_fail("%s: cluster without sites", what);
                first = *mine.begin();
                if (mine.size() != s.size()) mc_fail("%s: a site is listed twice", what);
            }
            hila::broadcast(first);
            if (!ref.count(first)) mc_fail("%s: a cluster begins at site %ld", what, first);
            const Cl &c = ref.at(first);
            if (hila::myrank() == 0 && mine != std::set<long>(c.sites.begin(), c.sites.end())) mc_fail("%s: wrong sites in the cluster of site %ld", what, first);
            if (area != c.area) mc_fail("%s: area %ld of the cluster of site %ld, should be %ld", what, area, first, c.area);
            if ((long)cl[i].size() != (long)c.sites.size()) mc_fail("%s: size %ld of the cluster of site %ld, should be %ld", what, (long)cl[i].size(), first, (long)c.sites.size());
            if (cl[i].type() != c.type) mc_fail("%s: type %d of the cluster of site %ld, should be %d", what, cl[i].type(), first, c.type);
            if (!seen.insert(first).second) mc_fail("%s: cluster of site %ld twice", what, first);
        }
        if (!labels.insert(cl[i].label()).second) mc_fail("%s: two clusters with the same label", what);
        n += cl[i].size();
    }
    // the labels on the lattice separate exactly the clusters
    std::map<long, uint64_t> lab;
    std::map<uint64_t, long> size, where;
    for (size_t i = 0; i < cl.number(); i++) { size[cl[i].label()] = cl[i].size(); where[cl[i].label()] = i; }
    std::vector<long> of(V, -1);
    for (auto &q : ref) for (long x : q.second.sites) of[x] = q.first;
    auto &lb = cl.get_labels();
    std::map<uint64_t, long> back;
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        long x = idx(lattice->coordinates(i));
        uint64_t l = lb.get_value_at(i);
        if (of[x] < 0) {
            if (labels.count(l)) mc_fail("%s: site %ld is in no cluster but has the label of one", what, x);
            continue;
        }
        if (!labels.count(l)) mc_fail("%s: site %ld has a label of no cluster", what, x);
        if (lab.count(of[x]) && lab[of[x]] != l) mc_fail("%s: two labels in the cluster of site %ld", what, of[x]);
        lab[of[x]] = l;
        if (back.count(l) && back[l] != of[x]) mc_fail("%s: the clusters of sites %ld and %ld have the same label", what, back[l], of[x]);
        back[l] = of[x];
        const Cl &c = ref.at(of[x]);
        if (size[l] != (long)c.sites.size()) mc_fail("%s: cluster of site %ld has size %ld, should be %ld", what, of[x], size[l], (long)c.sites.size());
        if (cl[where[l]].type() != c.type) mc_fail("%s: type", what);
    }
    long total = 0;
    for (auto &q : ref) total += q.second.sites.size();
    if (n != total) mc_fail("%s: clusters have %ld sites together, should be %ld", what, n, total);
    long it = 0;
    for (auto r : cl) { if (r.size() != cl[it].size()) mc_fail("%s: iteration", what); it++; }
    if (it != (long)ref.size()) mc_fail("%s: iteration has %ld clusters", what, it);
    mc_compared(V);
}

template <typename F>
static void put(F &f, const std::vector<int> &t) {
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) f.set_value_at(t[idx(lattice->coordinates(i))], i);
    f.mark_changed(ALL);
}

static Field<uint8_t> ft;
static Field<int> fi;
static void types(const std::vector<int> &t, int way, bool all) {
    if (way == 0) {
        put(ft, t);
        hila::Clusters cl(ft);
        check(cl, of_types(t), all, "clusters");
    } else if (way == 1) {           // found before, from other types
        std::vector<int> o(t);
        for (auto &x : o) x = x == BG ? 0 : x == 0 ? BG : x;
        put(fi, o);
        hila::Clusters cl;
        cl.find(fi);
        check(cl, of_types(o), false, "clusters of integers");
        put(ft, t);
        cl.find(ft);
        check(cl, of_types(t), all, "clusters found again");
    } else {
        put(fi, t);
        hila::Clusters cl;
        cl.make_labels(fi);
        cl.classify();
        check(cl, of_types(t), all, "labels and classes");
    }
}

static VectorField<uint8_t> link_;
static void links(const std::vector<int> &l, bool all) {     // [x*NDIM+d]
    foralldir(d) {
        std::vector<int> t(V);
        for (long x = 0; x < V; x++) t[x] = l[x * NDIM + (int)d];
        put(link_[d], t);
    }
    auto on = [&](long x, int k) {
        int d = k / 2;
        return k % 2 == 0 ? l[x * NDIM + d] != 0 : l[nbr[x * 2 * NDIM + k] * NDIM + d] != 0;
    };
    std::vector<int> type(V, BG);
    for (long x = 0; x < V; x++) for (int k = 0; k < 2 * NDIM; k++) if (on(x, k)) type[x] = 1;
    hila::Clusters cl(link_);
    check(cl, reference(type, on), all, "clusters of links");
}

HARNESS_MAIN {
    hila::initialize(argc, argv);
    int lo = mc_param("lo", 2), hi = mc_param("hi", 3), st = mc_param("step", 1);
    V = 1;
    foralldir(d) { S[d] = lo + st * mc_global_choose((hi - lo) / st + 1, "side"); V *= S[d]; }
    mc_expect_exit(1);
    lattice.setup(S);
    mc_expect_exit(0);
    neighbours();
    mc_thread_orders(0);
    onsites(ALL) { ft[X] = 0; fi[X] = 0; }
    foralldir(d) onsites(ALL) link_[d][X] = 0;
    mc_thread_orders(1);
    int mode = mc_param("mode", 0), limit = mc_param("limit", 2000);
    if (mode == 0) {                 // every field of na types
        int na = mc_param("na", 3), way = mc_global_choose(3, "way");
        static const int A[5] = {BG, 0, 1, 254, 7};
        long n = 1;
        for (long x = 0; x < V; x++) if ((n *= na) > limit) mc_skip();
        int parts = n >= 64 ? 16 : 1, part = mc_global_choose(parts, "part");
        for (long k = part; k < n; k += parts) {
            std::vector<int> t(V);
            long q = k;
            for (long x = 0; x < V; x++) { t[x] = A[q % na]; q /= na; }
            types(t, way, n <= mc_param("full", 1000));
        }
    } else if (mode == 1) {          // every field of links
        long n = 1;
        for (long x = 0; x < V * NDIM; x++) if ((n *= 2) > limit) mc_skip();
        int parts = n >= 64 ? 16 : 1, part = mc_global_choose(parts, "part");
        for (long k = part; k < n; k += parts) {
            std::vector<int> l(V * NDIM);
            for (long x = 0; x < V * NDIM; x++) l[x] = k >> x & 1;
            links(l, n <= mc_param("full", 1000));
        }
    } else if (mode == 3) {          // labyrinth: odd rows are walls with at most one gap
        std::vector<int> t(V, 2), l(V * NDIM, 0);
        int torn = mc_global_choose(S[0] + 1, "torn");
        for (int y = 1; y < S[1]; y += 2) {
            int gap = mc_global_choose(S[0] + 1, "gap");
            for (int x = 0; x < S[0]; x++) {
                CoordinateVector c = {x, y};
                if (x != gap) t[idx(c)] = torn % 2 ? BG : 5;
                else {               // a link through the gap
                    l[idx(c) * NDIM + 1] = 1;
                    c[1] = y - 1;
                    l[idx(c) * NDIM + 1] = 1;
                }
            }
        }
        for (int y = 0; y < S[1]; y += 2) for (int x = 0; x < S[0]; x++) {
            CoordinateVector c = {x, y};
            if (x == torn) t[idx(c)] = BG;
            else l[idx(c) * NDIM] = 1;
        }
        types(t, 0, true);
        links(l, true);
    } else {                         // winding paths: every self-avoiding path up to a length, on the links or as sites
        int len = mc_param("len", 6);
        std::vector<long> path;
        path.push_back(mc_global_choose(V, "start"));
        std::vector<int> dirs;
        for (int s = 0; s < len; s++) {
            int k = mc_global_choose(2 * NDIM, "step");
            long y = nbr[path.back() * 2 * NDIM + k];
            for (long p : path) if (p == y) mc_skip();
            path.push_back(y);
            dirs.push_back(k);
        }
        std::vector<int> t(V, BG), o(V, 0), l(V * NDIM, 0);
        for (long p : path) { t[p] = 3; o[p] = 1; }
        types(t, 0, true);
        types(o, 1, true);
        for (int s = 0; s < len; s++) l[(dirs[s] % 2 ? path[s + 1] : path[s]) * NDIM + dirs[s] / 2] = 1;
        links(l, true);
    }
    return 0;
}
