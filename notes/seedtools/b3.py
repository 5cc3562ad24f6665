import sys; sys.path.insert(0,'/tmp/seed')
from mk import seed
exec(open('/tmp/seed/b2.py').read().split('C="libraries')[0].split("from mk import seed")[1])
C="libraries/plumbing/"
seed("F03a","F03",(C+"lattice.h","            return switch_to(lat_ptr->parent);","            return switch_to(hila::defined_lattices.front());"),
"a lattice blocked twice in succession is unblocked once",
"unblock() jumps to the base lattice instead of the parent of the blocked lattice",
H+'''    lattice.setup({8, 8});
    lattice.block({2, 2});
    Field<double> f;
    f = 1;
    lattice.block({2, 2});
    CHECK(lattice.size(e_x) == 2);
    lattice.unblock();
    CHECK(lattice.size(e_x) == 4 && lattice.size(e_y) == 4);
    lattice.unblock();
    CHECK(lattice.size(e_x) == 8);
'''+END,2,(1,))
seed("R01a","R01",(C+"com_mpi.cpp","""                for (int i = 0; i < n_double; i++)
                    *(double_reduction_ptrs[i]) = work[i];
        }

        n_double = 0;
""","""                for (int i = 0; i < n_double; i++)
                    *(double_reduction_ptrs[i]) = work[i];
            if (hila::myrank() != 0) {
                // nothing to distribute here
                reduction_timer.stop();
                n_double = 0;
                return;
            }
        }

        n_double = 0;
"""),
"a loop which sums both a double and a float variable after set_allreduce(false)",
"with allreduce off the float sums of ranks other than 0 are never sent: rank 0 waits for ever or later combines unrelated sums",
H+'''    lattice.setup({8, 8});
    Field<double> f;
    f = 1;
    double d = 0;
    float s = 0;
    hila::set_allreduce(false);
    onsites(ALL) {
        d += f[X];
        s += f[X];
    }
    if (hila::myrank() == 0) CHECK(d == 64 && s == 64);
    float t = 0;
    onsites(ALL) t += 2 * f[X];
    CHECK(t == 128);
'''+END,2,(1,2))
seed("R02a","R02",(C+"reduction.h","""        wait(); // wait for possible ongoing

        // add the node""","""        // add the node"""),
"a second loop on a non-blocking Reduction before the first result was asked for, with the first communication still under way",
"the contribution of the second loop is overwritten when the first communication completes",
H+'''    lattice.setup({8, 8});
    Field<double> f;
    f = 1;
    Reduction<double> r(0);
    r.nonblocking();
    onsites(ALL) r += f[X];
    onsites(ALL) r += 2 * f[X];
    CHECK(r.value() == 3 * 64);
'''+END,2,(2,),interp='''// non-blocking reductions complete when they are waited for, as MPI allows
#include <mpi.h>
#include <cstring>
static char res[256];
static void *dst;
static int bytes;
extern "C" int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *q) {
    int sz;
    PMPI_Type_size(t, &sz);
    PMPI_Allreduce(s == MPI_IN_PLACE ? r : s, res, n, t, op, c);
    dst = r;
    bytes = n * sz;
    return PMPI_Ibarrier(c, q);
}
extern "C" int MPI_Wait(MPI_Request *q, MPI_Status *st) {
    if (dst) memcpy(dst, res, bytes);
    dst = 0;
    return PMPI_Wait(q, st);
}
''')
seed("R03a","R03",(C+"reductionvector.h","""        wait();
        if (hila::myrank() != 0 && !delay_is_on) {
            for (auto &vp : val)
                vp = 0;""","""        wait();
        if (hila::myrank() != 0 && !is_delayed_) {
            for (auto &vp : val)
                vp = 0;"""),
"a delayed ReductionVector is used again after reduce() without being assigned to",
"the result of the earlier reduction is counted once per rank",
H+'''    lattice.setup({8, 8});
    Field<double> f;
    f = 1;
    ReductionVector<double> r(2);
    r = 0;
    r.delayed();
    onsites(ALL) r[X.coordinate(e_x) % 2] += f[X];
    r.reduce();
    CHECK(r[0] == 32 && r[1] == 32);
    onsites(ALL) r[X.coordinate(e_x) % 2] += f[X];
    r.reduce();
    CHECK(r[0] == 64 && r[1] == 64);
'''+END,2,(1,2))
seed("R04a","R04",(C+"reduction.h","""        MPI_Bcast(&loc, sizeof(CoordinateVector), MPI_BYTE, rdata.rank, lattice->mpi_comm_lat);""",
"""        MPI_Bcast(&loc, NDIM * sizeof(short), MPI_BYTE, rdata.rank, lattice->mpi_comm_lat);"""),
"an extreme value on another rank whose coordinates differ from the local ones beyond the first half of the vector",
"only the first components of the location are communicated",
H+'''    lattice.setup({8, 8});
    Field<double> f;
    f = 1;
    CoordinateVector c;
    c[0] = 3;
    c[1] = 6;
    f[c] = 5;
    CoordinateVector l;
    double m = f.max(l);
    CHECK(m == 5 && l == c);
'''+END,2,(1,4))
seed("R05a","R05",("libraries/datatypes/extended.h","""    ExtendedPrecision tmp = a - b;
    return (tmp.to_double() > 0.0);""","""    ExtendedPrecision tmp = a - b;
    return (tmp.value > 0.0);"""),
"two values which agree in their leading doubles and differ in the compensation",
"a > b is false although a is larger by a small amount",
H+'''    ExtendedPrecision a = 1e18, b = 1e18;
    a += 3e-16;
    CHECK(a > b && !(b > a));
    CHECK(a != b);
'''+END,2,(1,))
