// SiteSelect, SiteValueSelect and SiteIndex: every choice of sites on small lattices, every size limit, with and without
// joining, against sets built by hand.
#include <set>
#include <map>
#include "hila.h"
#include "common.h"
#include "elem.h"

static long par_of(long i) { long s = 0; CoordinateVector c = crd(i); foralldir(d) s += c[d]; return s & 1; }
static bool in(long i, Parity p) { return p == ALL || (p == EVEN) == (par_of(i) == 0); }
static const Parity PAR[3] = {ALL, EVEN, ODD};

using Want = std::map<long, long>;   // site -> value number

// what the ranks hold: on rank 0 everything
template <typename SEL>
static void gathered(SEL &s, const Want &w, long max, const char *what) {
    if (hila::myrank() != 0) {
        return;
    }
    long n = w.size();
    if ((long)s.size() != std::min(n, max)) mc_fail("%s: %ld sites selected, should be %ld of %ld", what, (long)s.size(), std::min(n, max), n);
    if ((long)s.overflow() != std::max(0l, n - max)) mc_fail("%s: overflow is %ld, should be %ld", what, (long)s.overflow(), std::max(0l, n - max));
    std::set<long> seen;
    for (size_t i = 0; i < s.size(); i++) {
        CoordinateVector c = s.coordinates(i);
        long x = s.site_index(i).value;
        if (x != idx(c)) mc_fail("%s: site index %ld does not belong to the coordinates", what, x);
        if (!w.count(x)) mc_fail("%s: site %ld was not chosen", what, x);
        if (!seen.insert(x).second) mc_fail("%s: site %ld twice", what, x);
        if constexpr (std::is_same<SEL, SiteValueSelect<T>>::value) {
            if (!eq(s.value(i), w.at(x))) mc_fail("%s: value of site %ld, should be number %ld", what, x, w.at(x));
        }
    }
    mc_compared(s.size() + 2);
}

static Field<int> flag;     // bit 0: first condition, bit 1: second
static Field<T> val, val2;

template <typename SEL>
static void local_then_join(SEL &s, const Want &w, long max, const char *what) {
    // before joining every rank has its own sites
    std::set<long> mine;
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        long x = idx(lattice->coordinates(i));
        if (w.count(x)) mine.insert(x);
    }
    if ((long)s.size() != std::min((long)mine.size(), max)) mc_fail("%s: %ld own sites, should be %ld", what, (long)s.size(), (long)mine.size());
    for (size_t i = 0; i < s.size(); i++) {
        long x = s.site_index(i).value;
        if (!mine.count(x)) mc_fail("%s: site %ld is not an own site", what, x);
        if constexpr (std::is_same<SEL, SiteValueSelect<T>>::value) if (!eq(s.value(i), w.at(x))) mc_fail("%s: value of own site", what);
    }
    s.join();
    gathered(s, w, max, what);
    s.join();               // again: nothing happens
    gathered(s, w, max, what);
}

static void one(const std::vector<int> &fl, long max, int join) {
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) flag.set_value_at(fl[idx(lattice->coordinates(i))], i);
    flag.mark_changed(ALL);
    for (int k = 0; k < 3; k++) {
        Parity p = PAR[k];
        Want a, b, both, v1, v2, vb;
        for (long x = 0; x < V; x++) if (in(x, p)) {
            if (fl[x] & 1) { a[x] = 0; v1[x] = x + 1; }
            if (fl[x] & 2) { b[x] = 0; v2[x] = 1000 + x; }
            if (fl[x] & 3) { both[x] = 0; vb[x] = fl[x] & 2 ? 1000 + x : x + 1; }
        }
        long m = max < 0 ? V : max;
        {
            SiteSelect s, t;
            SiteValueSelect<T> sv, tv;
            if (max >= 0) { s.max_size(max); t.max_size(max); sv.max_size(max); tv.max_size(max); }
            if (!join) { s.no_join(); t.no_join(); sv.no_join(); tv.no_join(); }
            onsites(p) {
                if (flag[X] & 1) {
                    s.select(X);
                    sv.select(X, val[X]);
                }
                if (flag[X] & 2) {
                    t.select(X);
                    tv.select(X, val2[X]);
                }
            }
            if (join) {
                gathered(s, a, m, "first");
                gathered(t, b, m, "second");
                gathered(sv, v1, m, "first with value");
                gathered(tv, v2, m, "second with value");
            } else {
                local_then_join(s, a, m, "first");
                local_then_join(t, b, m, "second");
                local_then_join(sv, v1, m, "first with value");
                local_then_join(tv, v2, m, "second with value");
            }
            // the same variables again: earlier content is gone
            onsites(p) {
                if (flag[X] & 2) {
                    s.select(X);
                    sv.select(X, val2[X]);
                }
            }
            if (join) {
                gathered(s, b, m, "reused");
                gathered(sv, v2, m, "reused with value");
                s.clear();
                sv.clear();
                if (s.size() != 0 || sv.size() != 0) mc_fail("clear()");
            } else {
                s.join();
                sv.join();
                gathered(s, b, m, "reused");
                gathered(sv, v2, m, "reused with value");
            }
        }
        // a site selected by two statements counts once, with the last value
        if (!mc_param("twice", 1)) continue;
        SiteSelect s;
        SiteValueSelect<T> sv;
        if (max >= 0) { s.max_size(max); sv.max_size(max); }
        onsites(p) {
            if (flag[X] & 1) {
                s.select(X);
                sv.select(X, val[X]);
            }
            if (flag[X] & 2) {
                s.select(X);
                sv.select(X, val2[X]);
            }
        }
        gathered(s, both, m, "selected twice");
        gathered(sv, vb, m, "selected twice with value");
        std::vector<SiteIndex> mv = s.move_sites();
        if (hila::myrank() == 0 && (long)mv.size() != std::min((long)both.size(), m)) mc_fail("move_sites()");
    }
}

HARNESS_MAIN {
    mc_thread_orders(0);
    hila::initialize(argc, argv);
    choose_lattice();
    for (long x = 0; x < V; x++) {
        CoordinateVector c = crd(x);
        if (SiteIndex(c).value != (size_t)x || SiteIndex((size_t)x).coordinates() != c) mc_fail("SiteIndex of site %ld", x);
    }
    Ref r, r2;
    onsites(ALL) { val[X] = 0; val2[X] = 0; flag[X] = 0; }
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        long x = idx(lattice->coordinates(i));
        val.set_value_at(mk<T>(x + 1), i);
        val2.set_value_at(mk<T>(1000 + x), i);
    }
    val.mark_changed(ALL);
    val2.mark_changed(ALL);
    mc_thread_orders(1);
    int join = mc_global_choose(2, "joining");
    if (mc_param("sparse", 0)) {
        long i = mc_global_choose(V, "site"), j = mc_global_choose(V, "site 2");
        std::vector<int> fl(V, 0);
        fl[i] |= 1;
        fl[j] |= 2;
        for (long max = -1; max < 3; max++) one(fl, max, join);
        for (long x = 0; x < V; x++) fl[x] = 3 ^ fl[x];
        for (long max : {-1l, 1l, V / 2, V - 1}) one(fl, max, join);
        return 0;
    }
    long max = mc_global_choose(V + 2, "size limit") - 1;
    int full = mc_param("flags", 4);
    long n = 1;
    for (long x = 0; x < V; x++) n *= full;
    if (n > mc_param("limit", 300)) mc_skip();
    for (long k = 0; k < n; k++) {
        std::vector<int> fl(V);
        long q = k;
        for (long x = 0; x < V; x++) { fl[x] = q % full; q /= full; }
        one(fl, max, join);
    }
    return 0;
}
