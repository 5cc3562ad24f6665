import sys; sys.path.insert(0,'/tmp/seed')
from mk import seed
H='''#include "hila.h"
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad++; fprintf(stderr, "line %d: %s is false\\n", __LINE__, #c); } } while (0)
'''
END='''    hila::finishrun();
    return 0;
}
'''
LATE='''#include <mpi.h>
#include <cstring>
#include <cstdlib>
#include <map>
// an MPI library which delivers a message when it is waited for, as the standard allows
struct pend { void *user, *tmp; size_t n; };
static std::map<MPI_Request, pend> pending;
extern "C" int MPI_Irecv(void *buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *r) {
    int sz;
    PMPI_Type_size(t, &sz);
    pend p = {buf, malloc((size_t)n * sz + 1), (size_t)n * sz};
    int e = PMPI_Irecv(p.tmp, n, t, src, tag, c, r);
    pending[*r] = p;
    return e;
}
extern "C" int MPI_Wait(MPI_Request *r, MPI_Status *s) {
    MPI_Request o = *r;
    int e = PMPI_Wait(r, s);
    auto it = pending.find(o);
    if (it != pending.end()) {
        memcpy(it->second.user, it->second.tmp, it->second.n);
        free(it->second.tmp);
        pending.erase(it);
    }
    return e;
}
'''
# L02: with one parity gathered, waiting for ALL takes the other parity as gathered too
seed("L02a","L02",("libraries/plumbing/field_comm.h",
"""            n_wait = 2; // need to wait for both!
            par = EVEN; // will be flipped""",
"""            par = EVEN;"""),
"communication of EVEN and of ODD sites of the same field and direction both in flight when a loop over ALL reads that neighbour; two ranks or more",
"a loop over all sites waits only for the even sites' halo and reads the odd sites' halo before it has arrived (stale values)",
H+'''int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup({8, 8});
    Field<double> f, g;
    for (int k = 1; k < 20; k++) {
        f[ALL] = X.x() + 10 * X.y() + 1000.0 * k;
        foralldir(d) { f.start_gather(d, EVEN); f.start_gather(d, ODD); }
        g[ALL] = f[X + e_y];
        double e = 0;
        onsites(ALL) e += fabs(g[X] - (X.x() + 10 * ((X.y() + 1) % 8) + 1000.0 * k));
        CHECK(e == 0);
        g[ALL] = f[X + e_x];
        e = 0;
        onsites(ALL) e += fabs(g[X] - ((X.x() + 1) % 8 + 10 * X.y() + 1000.0 * k));
        CHECK(e == 0);
    }
    int tot = bad;
    MPI_Allreduce(MPI_IN_PLACE, &tot, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    if (tot) MPI_Abort(MPI_COMM_WORLD, 1);
'''+END, ndim=2, nps=(2,4), interp=LATE)
