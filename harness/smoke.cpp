#include "hila.h"
#include "common.h"

static void body() {
    int L = 4 + 2 * mc_global_choose(3, "L");
    CoordinateVector s;
    foralldir(d) s[d] = L;
    lattice.setup(s);
    Field<int> f, g;
    onsites(ALL) f[X] = SiteIndex(X.coordinates()).value;
    int k = mc_global_choose(NDIRS, "dir");
    Direction d = (Direction)k;
    g[ALL] = f[X + d];
    long bad = 0;
    onsites(ALL) {
        CoordinateVector c = (X.coordinates() + d).mod(lattice.size());
        if (g[X] != SiteIndex(c).value) bad += 1;
    }
    if (bad) mc_fail("neighbour wrong at %ld sites", bad);
    mc_compared(lattice.volume());
    mc_state(mc_hash(L, k));
}

HARNESS_MAIN {
    hila::initialize(argc, argv);
    body();
    mc_expect_exit(1);
    hila::finishrun();
    return 0;
}
