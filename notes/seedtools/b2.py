import sys; sys.path.insert(0,'/tmp/seed')
from mk import seed
H='''#include "hila.h"
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad++; fprintf(stderr, "rank %d line %d: %s is false\\n", hila::myrank(), __LINE__, #c); } } while (0)
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
'''
END='''    int tot = bad;
    MPI_Allreduce(MPI_IN_PLACE, &tot, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    if (tot) MPI_Abort(MPI_COMM_WORLD, 1);
    hila::finishrun();
    return 0;
}
'''
C="libraries/plumbing/"
seed("L01a","L01",(C+"map_node_layout.cpp","        this->map_inverse[bi * nblocks + ii] = i;","        this->map_inverse[i] = bi * nblocks + ii;"),
"a division of the lattice where the rank permutation is not its own inverse (e.g. 3x2 ranks, blocks of 1x2)",
"the inverse of the rank placement is wrong, so the owner computed for a site differs from the rank which stores it",
H+'''    lattice.setup({12, 8});
    long n = 0;
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        CHECK(lattice->node_rank(lattice->coordinates(i)) == hila::myrank());
    }
'''+END,2,(6,))
seed("L03a","L03",(C+"field.h","""        // Make sure boundaries get refreshed
        mark_changed(ALL);""","""        // Make sure boundaries get refreshed
        if (bc != hila::bc::PERIODIC)
            mark_changed(ALL);"""),
"an antiperiodic field whose halo has been communicated is switched back to periodic and read again before it is assigned to",
"reading over the edge after switching back to periodic boundaries still gives the negated values",
H+'''    lattice.setup({8, 8});
    Field<double> f, g;
    f = 1;
    double e = 0;
    f.set_boundary_condition(e_x, hila::bc::ANTIPERIODIC);
    f.set_boundary_condition(e_y, hila::bc::ANTIPERIODIC);
    onsites(ALL) e += f[X + e_x] + f[X + e_y];
    CHECK(e == 2 * 64 - 4 * 8);
    f.set_boundary_condition(e_x, hila::bc::PERIODIC);
    f.set_boundary_condition(e_y, hila::bc::PERIODIC);
    e = 0;
    onsites(ALL) e += f[X + e_x] + f[X + e_y];
    CHECK(e == 2 * 64);
'''+END,2,(2,4),defs="-DSPECIAL_BOUNDARY_CONDITIONS")
seed("L04a","L04",(C+"field_comm.h","            if (r.par == par || r.par == ALL)\n                return r.f;","            if (r.par != Parity::none)\n                return r.f;"),
"one loop over one parity which reads a field at two long offsets one step apart",
"the second offset is built from sites of the first buffered shift which were never filled in",
H+'''    lattice.setup({8, 8});
    Field<double> f, g;
    f[ALL] = 1 + X.x() + 8 * X.y();
    CoordinateVector v = {2, 1};
    g = 0;
    CoordinateVector w = {3, 1};
    g[EVEN] = f[X + v] + f[X + w];
    g[ODD] = f[X + v] + f[X + w];
    double e = 0;
    onsites(ALL) e += fabs(g[X] - (1 + (X.x() + 2) % 8 + 8 * ((X.y() + 1) % 8)) - (1 + (X.x() + 3) % 8 + 8 * ((X.y() + 1) % 8)));
    CHECK(e == 0);
'''+END,2,(1,2))
seed("F02a","F02",(C+"field_io.h","""                int tsf = ind % scalef[dir];
                ind /= scalef[dir];""","""                int tsf = ind % scalef[dir];
                ind -= tsf;"""),
"a file of a lattice smaller in two or more directions is read into a field",
"the periodic copies of the smaller lattice go to wrong places and part of the field is not filled",
H+'''    lattice.setup({8, 8});
    CoordinateVector in = {4, 4};
    if (hila::myrank() == 0) {
        std::ofstream o("small", std::ios::binary);
        for (int i = 0; i < 16; i++) { double d = 10 + i; o.write((char *)&d, sizeof d); }
    }
    hila::synchronize();
    Field<double> f;
    f = 0;
    std::ifstream s;
    hila::open_input_file("small", s);
    f.read(s, in);
    hila::close_file("small", s);
    double e = 0;
    onsites(ALL) e += fabs(f[X] - (10 + X.x() % 4 + 4 * (X.y() % 4)));
    CHECK(e == 0);
'''+END,2,(1,2))
s=open('/repo/libraries/plumbing/field_comm.h').read()
i=s.index("void Field<T>::unblock_to"); j=s.index("void Field<T>::block_to_current_lattice")
old=s[i:j]
k=old.rindex("    lattice.switch_to(currentlat);\n\n    d_free(buf);")
new=old[:k]+"    lattice.switch_to(blocklat);\n\n    d_free(buf);"+old[k+len("    lattice.switch_to(currentlat);\n\n    d_free(buf);"):]
seed("F03a","F03",(C+"field_comm.h",old,new),
"unblock_to called while the parent lattice is the active one",
"unblock_to leaves the blocked lattice active, so later loops run over the wrong lattice",
H+'''    lattice.setup({8, 8});
    Field<double> f, b;
    f = 1;
    lattice.block({2, 2});
    b.block_from(f);
    b[ALL] = 5;
    lattice.unblock();
    b.unblock_to(f);
    CHECK(lattice.volume() == 64);
    double s = 0;
    if (lattice.volume() == 64) onsites(ALL) s += f[X];
    CHECK(s == 64 - 16 + 5 * 16);
'''+END,2,(1,2))
