"""What each check explores: harness, build variant, rank counts, bounds."""
PROPS = {}


def prop(pid, runs, assumptions=()):
    PROPS[pid] = dict(runs=runs, assumptions=list(assumptions) + COMMON)


COMMON = [
    "the MPI library behaves as the MPI standard says; it is replaced by the explorer's own message layer, which checks buffer ownership, "
    "collective agreement and deadlock (rendezvous sends by default)",
    "g++ 13 and clang 18 (as a library of hilapp) compile correctly",
    "sizes, rank counts and operation alphabets beyond the stated bounds behave like those within them",
]


def run(name, h, v, np="1", **kw):
    return dict(name=name, h=h, v=v, np=np, **kw)


R12 = "1,2,3,4,5,6,7,8,9,10,11,12"

prop("L01", [
    run("layout 2d", "layout", "v2", R12 + ",16,18,24,41", set=dict(allexit=1, lo=2, hi=13), limit=8, bound="2D sides 2..13"),
    run("layout 3d", "layout", "v3", R12 + ",16,41", set=dict(allexit=1, lo=2, hi=7), tset=dict(hi=10), limit=8, bound="3D sides 2..7"),
    run("layout 4d", "layout", "v4", R12 + ",16", set=dict(allexit=1, lo=2, hi=5), tset=dict(hi=6), limit=8, bound="4D sides 2..5"),
    run("layout 1d", "layout", "v1", R12 + ",41", set=dict(allexit=1, lo=2, hi=60), limit=8, bound="1D sides 2..60"),
    run("layout 3d trivial map", "layout", "v3+NODE_LAYOUT_TRIVIAL", R12, set=dict(allexit=1, lo=2, hi=6), limit=8, bound="3D sides 2..6"),
    run("layout 3d blocks of 6", "layout", "v3+NODE_LAYOUT_BLOCK=6", "4,6,8,12,18,24,36", set=dict(allexit=1, lo=3, hi=7), tset=dict(hi=9), limit=8, bound="3D sides 3..7"),
    run("layout vector 2d", "layout", "a2", "1,2,3,4,5,6,8,12,16", set=dict(allexit=1, lo=2, hi=32, step=2), limit=8, bound="2D even sides 2..32"),
    run("layout vector 3d", "layout", "a3", "1,2,3,4,5,6,8,12,16", set=dict(allexit=1, lo=2, hi=16, step=2), limit=8, bound="3D even sides 2..16"),
    run("layout vector 4d", "layout", "a4", "1,2,3,4,6,8,12,16", set=dict(allexit=1, lo=2, hi=8, step=2), tset=dict(hi=12), limit=8, bound="4D even sides 2..8"),
])

SBC = "+SPECIAL_BOUNDARY_CONDITIONS"
VF = ("MC_ELEM=Vector<3,float>",)

prop("L02", [
    run("histories 2d 4x4", "comm", "v2", "1,2,4", set=dict(shape=0, depth=3), tset=dict(depth=4), ttime=600, bound="all sequences of 3 (4 thorough) operations"),
    run("histories 2d 6x4", "comm", "v2", "2,3,6", set=dict(shape=1, depth=3), tset=dict(depth=4), ttime=600, bound="all sequences of 3 (4) operations"),
    run("histories 2d 3x4", "comm", "v2", "1,2", set=dict(shape=2, depth=3), tset=dict(depth=4), ttime=600, bound="odd side, all sequences of 3 (4) operations"),
    run("histories 2d 5x3", "comm", "v2", "1", set=dict(shape=3, depth=2, level=1), tset=dict(depth=3), ttime=600, bound="odd sides, all sequences of 2 (3) operations"),
    run("shapes 2d", "comm", "v2", "1,2,3,4,5,6,8", set=dict(lo=2, hi=8, depth=2, outer=0, allexit=1), tset=dict(hi=12), bound="all 2D shapes 2..8 (12), all pairs of operations"),
    run("histories 3d", "comm", "v3", "1,2,4", set=dict(shape=1, depth=2, level=1), tset=dict(depth=3), ttime=900, bound="6x4x4, all pairs (triples) of operations"),
    run("shapes 3d", "comm", "v3", "1,2,3,4,6,8", set=dict(lo=2, hi=4, depth=1, outer=0, allexit=1), tset=dict(depth=2, hi=5), bound="all 3D shapes 2..4"),
    run("histories 4d", "comm", "v4", "1,2,4", set=dict(shape=0, depth=2), tset=dict(level=1), bound="4x4x4x4, all pairs of operations"),
    run("vectorised 3d double", "comm", "a3", "1,2", set=dict(shape=5, depth=3), tset=dict(depth=3, level=1), bound="8x4x4 AVX2, all triples"),
    run("vectorised 3d float vectors", "comm", "a3", "1,2,4", set=dict(shape=4, depth=2, level=1), defs=VF, bound="8x8x8 AVX2, all pairs"),
])

prop("L03", [
    run("histories 2d 4x4", "comm", "v2" + SBC, "1,2,4", set=dict(shape=0, depth=3), tset=dict(depth=4), ttime=600, bound="all sequences of 3 (4) operations"),
    run("histories 2d 3x4", "comm", "v2" + SBC, "1,2", set=dict(shape=2, depth=3), tset=dict(depth=4), ttime=600, bound="odd side, all sequences of 3 (4) operations"),
    run("shapes 2d", "comm", "v2" + SBC, "1,2,3,4,5,6,8", set=dict(lo=2, hi=7, depth=2, outer=0, allexit=1), bound="all 2D shapes 2..7, all pairs of operations"),
    run("histories 3d", "comm", "v3" + SBC, "1,2,4", set=dict(shape=1, depth=2, level=1), tset=dict(depth=3), ttime=900, bound="6x4x4, all pairs (triples)"),
    run("vectors of doubles 3d", "comm", "v3" + SBC, "1,2,4", set=dict(shape=1, depth=2), defs=("MC_ELEM=Vector<2,Complex<double>>",), bound="6x4x4, all pairs"),
    run("vectorised 3d double", "comm", "a3" + SBC, "1,2", set=dict(shape=5, depth=2, level=1), tset=dict(depth=3), ttime=900, bound="8x4x4 AVX2, all pairs (triples)"),
    run("vectorised 3d float vectors", "comm", "a3" + SBC, "1,2,4", set=dict(shape=4, depth=2), tset=dict(level=1), defs=VF, bound="8x8x8 AVX2, all pairs"),
    run("vectorised 2d", "comm", "a2" + SBC, "1,2", set=dict(shape=4, depth=2, level=1), tset=dict(depth=3), ttime=900, bound="8x8 AVX2, all pairs"),
])

prop("L04", [
    run("offsets 2d 4x4", "comm", "v2" + SBC, "1,2,4", set=dict(shape=0, offsets=1, box=4), tset=dict(box=9), bound="all offsets within +-4 (9)"),
    run("offsets 2d 3x4", "comm", "v2" + SBC, "1,2", set=dict(shape=2, offsets=1, box=4), tset=dict(box=9), bound="odd side, all offsets within +-4 (9)"),
    run("offsets 2d 6x4", "comm", "v2", "2,3", set=dict(shape=1, offsets=1, box=7), tset=dict(box=14), bound="no boundary conditions, offsets within +-7 (14)"),
    run("offsets 3d", "comm", "v3" + SBC, "1,2", set=dict(shape=1, offsets=1, box=2), tset=dict(box=3), ttime=900, bound="6x4x4, offsets within +-2 (3)"),
    run("offsets vectorised 3d", "comm", "a3" + SBC, "1,2", set=dict(shape=5, offsets=1, box=1), tset=dict(box=3), ttime=900, bound="8x4x4 AVX2, offsets within +-1 (3)"),
    run("offsets vectorised 2d", "comm", "a2" + SBC, "1,2", set=dict(shape=4, offsets=1, box=3), tset=dict(box=5), bound="8x8 AVX2, offsets within +-3 (5)"),
    run("offset histories 3d", "comm", "v3" + SBC, "1,2,4", set=dict(shape=1, depth=2, level=1), tset=dict(depth=3), ttime=900, bound="6x4x4, all pairs (triples) of operations with offsets"),
])

E12 = "1,2,3,4,6"
prop("F01", [
    run("2d", "elements", "v2", E12, set=dict(lo=2, hi=6, allexit=1), tset=dict(hi=8), ttime=900, bound="all 2D shapes 2..6 (8), every site, box, slice and pair of sites"),
    run("3d", "elements", "v3", "1,2,4,6", set=dict(lo=2, hi=3, allexit=1), tset=dict(hi=4), ttime=900, bound="all 3D shapes 2..3 (4)"),
    run("4d", "elements", "v4", "1,2,4", set=dict(lo=2, hi=2, allexit=1), tset=dict(hi=3), ttime=900, bound="4D shapes 2 (2..3)"),
    run("vectors 2d", "elements", "v2", "1,2,4", set=dict(lo=2, hi=4, allexit=1), defs=("MC_ELEM=Vector<3,double>",), bound="all 2D shapes 2..4, three-component elements"),
    run("vectorised 2d", "elements", "a2", "1,2,4", set=dict(lo=4, hi=8, step=4, allexit=1), defs=("MC_ELEM=float",), bound="2D shapes 4, 8, AVX2 storage"),
])
WB = "+WRITE_BUFFER_SIZE=40"
prop("F02", [
    run("2d", "fieldio", "v2" + WB, "1,2,3,4", set=dict(lo=2, hi=4, parts=8, allexit=1), tset=dict(hi=6), ttime=900, opts=["--rundir"], bound="all 2D shapes 2..4 (6), buffers of 5 sites"),
    run("3d", "fieldio", "v3" + WB, "1,2,4", set=dict(lo=2, hi=3, parts=8, allexit=1), tset=dict(hi=4), ttime=900, opts=["--rundir"], bound="all 3D shapes 2..3 (4), buffers of 5 sites"),
    run("vectors 2d", "fieldio", "v2" + WB, "1,2,4", set=dict(lo=2, hi=4, parts=8, allexit=1), defs=("MC_ELEM=Vector<3,double>",), opts=["--rundir"], bound="2D shapes 2..4, element of 24 bytes, buffer of one element"),
    run("vectorised 2d", "fieldio", "a2" + WB, "1,2", set=dict(lo=4, hi=8, step=4, parts=8, allexit=1), defs=("MC_ELEM=float",), opts=["--rundir"], bound="2D shapes 4, 8, AVX2 storage"),
])
prop("F03", [
    run("2d", "blocking", "v2", E12, set=dict(depth=4, empty=1), tset=dict(depth=5), ttime=900, bound="all sequences of 4 (5) lattice operations from 4 shapes"),
    run("3d", "blocking", "v3", "1,2,4,8", set=dict(depth=3, empty=1), tset=dict(depth=4, shapes=6), ttime=900, bound="all sequences of 3 (4) lattice operations from 4 (6) shapes"),
    run("4d", "blocking", "v4", "1,2,4", set=dict(depth=2, empty=1), tset=dict(depth=3), ttime=900, bound="all sequences of 2 (3) lattice operations"),
])


def red(mode, d, td):
    O = ["--dev", "1"]
    return [
        run("histories 2d 4x4", "reduction", "v2", "1,2,4", set=dict(mode=mode, depth=d), tset=dict(depth=td), ttime=700, bound="4x4, all sequences of %d (%d) operations" % (d, td)),
        run("histories 2d 3x4", "reduction", "v2", "1,2", set=dict(mode=mode, depth=2, shape=1), tset=dict(depth=d), ttime=600, bound="3x4, all pairs of operations (%d)" % d),
        run("histories 3d integers", "reduction", "v3", "1,2,3,6,12", set=dict(mode=mode, depth=2, shape=2, dropval=0), tset=dict(depth=d), ttime=600, defs=("MC_ELEM=long",), bound="6x4x4, long integers, pairs"),
        run("histories 2d vectors", "reduction", "v2", "1,2", set=dict(mode=mode, depth=2, shape=3), defs=("MC_ELEM=Vector<3,float>",), bound="6x2, vector elements, pairs"),
        run("vectorised 3d", "reduction", "a3", "1,2", set=dict(mode=mode, depth=2, scale=2), tset=dict(depth=d), ttime=600, defs=("MC_ELEM=Vector<3,double>",), bound="8x8x4 AVX2, pairs"),
        run("vectorised 2d float", "reduction", "a2", "1,2", set=dict(mode=mode, depth=2, scale=2), tset=dict(depth=d), ttime=600, defs=("MC_ELEM=float",), bound="8x8 AVX2, float, pairs"),
        run("vectorised 2d int", "reduction", "a2", "1,2", set=dict(mode=mode, depth=2, scale=2), defs=("MC_ELEM=int",), bound="8x8 AVX2, int, pairs"),
        run("two threads", "reduction", "o2", "1,2", set=dict(mode=mode, depth=2 if mode == 0 else 1, omp_threads=2), tset=dict(depth=2), dev=1, tdev=2, ttime=600, bound="OpenMP, 2 threads, one (two) reordered region(s)"),
        run("three threads", "reduction", "o2", "1,2", set=dict(mode=mode, depth=1, omp_threads=3), tset=dict(depth=2), dev=1, ttime=600, defs=("MC_ELEM=Vector<3,float>",), bound="OpenMP, 3 threads, one reordered region"),
    ]


prop("R01", red(0, 4, 5))
prop("R02", red(1, 3, 4))
prop("R03", red(2, 3, 5))
AX = dict(allexit=1)
prop("R04", [
    run("signed values 2d", "minmax", "v2", "1,2,3,4", set=dict(AX, lo=2, hi=3, alphabet=0), bound="2D sides 2..3, all fields with values -3, -1, 2"),
    run("range ends 2d", "minmax", "v2", "1,2,3,4", set=dict(AX, lo=2, hi=3, alphabet=1), bound="2D sides 2..3, largest and lowest value"),
    run("smallest values 2d", "minmax", "v2", "1,2,3,4", set=dict(AX, lo=2, hi=3, alphabet=2), bound="2D sides 2..3, smallest positive value and zero"),
    run("range ends 2d int", "minmax", "v2", "1,2,3,4", set=dict(AX, lo=2, hi=3, alphabet=1), defs=("MC_ELEM=int",), bound="same for int"),
    run("range ends 2d long", "minmax", "v2", "1,2,3,4", set=dict(AX, lo=2, hi=3, alphabet=1), defs=("MC_ELEM=long",), bound="same for long"),
    run("signed 2d long double", "minmax", "v2", "1,2,3,4", set=dict(AX, lo=2, hi=3, alphabet=0), defs=("MC_ELEM=long double",), bound="same, long double"),
    run("special sites 2d long", "minmax", "v2", "1,2,3,4,6", set=dict(AX, lo=3, hi=5, sparse=1), tset=dict(hi=8), defs=("MC_ELEM=long",), bound="2D sides 3..5 (8), every pair of special sites"),
    run("special sites 3d float", "minmax", "v3", "1,2,3,4,6,8,12", set=dict(AX, lo=2, hi=3, sparse=1), tset=dict(hi=5), ttime=600, defs=("MC_ELEM=float",), bound="3D sides 2..3 (5)"),
    run("vectorised float", "minmax", "a2", "1,2,4", set=dict(AX, lo=8, hi=8, sparse=1), defs=("MC_ELEM=float",), bound="8x8 AVX2"),
    run("vectorised int", "minmax", "a2", "1,2,4", set=dict(AX, lo=8, hi=8, sparse=1), defs=("MC_ELEM=int",), bound="8x8 AVX2"),
    run("vectorised long", "minmax", "a2", "1,2,4", set=dict(AX, lo=8, hi=8, sparse=1), defs=("MC_ELEM=long",), bound="8x8 AVX2"),
    run("two threads", "minmax", "o2", "1,2", set=dict(AX, lo=2, hi=3, sparse=1, omp_threads=2), dev=1, defs=("MC_ELEM=long",), bound="OpenMP, 2 threads, one reordered region"),
    run("three threads", "minmax", "o2", "1", set=dict(AX, lo=2, hi=3, sparse=1, omp_threads=3), tset=dict(hi=4), dev=1, bound="OpenMP, 3 threads, one reordered region"),
])
prop("R05", [
    run("sums 2d", "extended", "v2", "1,2,3,4", set=dict(AX, lo=2, hi=3, na=3, redorders=1), tset=dict(na=4), bound="2D sides 2..3, all assignments of 3 (4) values"),
    run("sums 2x2", "extended", "v2", "1,2,4", set=dict(AX, lo=2, hi=2, na=7, redorders=1), bound="2x2, all assignments of 7 values"),
    run("two large values", "extended", "v2", "1,2,3,6", set=dict(AX, lo=2, hi=6, sparse=1), tset=dict(hi=9), bound="2D sides 2..6 (9), every pair of sites"),
    run("arithmetic", "extended", "v2", "1", set=dict(mode=1), tset=dict(na=7), bound="all pairs of sums of 3 values, integers -9..9"),
    run("vectorised build", "extended", "a2", "1,2", set=dict(AX, lo=8, hi=8, sparse=1), bound="8x8 AVX2 build"),
    run("threads", "extended", "o2", "1,2", set=dict(AX, lo=2, hi=2, na=3, omp_threads=2, single=1), tset=dict(na=5), dev=1, bound="OpenMP, 2 threads, one reordered region"),
])
CF = ("MC_ELEM=Complex<float>",)
prop("T01", [
    run("2d", "fft", "v2", E12, set=dict(AX, lo=2, hi=7), tset=dict(hi=10), ttime=700, bound="all 2D shapes 2..7 (10), all direction sets, both senses, every basis field"),
    run("3d", "fft", "v3", "1,2,3,4,6", set=dict(AX, lo=2, hi=4), tset=dict(hi=5), ttime=700, bound="all 3D shapes 2..4 (5)"),
    run("4d", "fft", "v4", "1,2", set=dict(AX, lo=2, hi=3), tset=dict(hi=4), ttime=700, bound="4D shapes 2..3 (4)"),
    run("1d", "fft", "v1", "1,2,3,4,5", set=dict(AX, lo=2, hi=17), bound="1D sides 2..17"),
    run("blocked 2d", "fft", "v2", "1,2,4,6", set=dict(AX, lo=2, hi=8, step=2, block=1), tset=dict(hi=10), ttime=600, bound="2D even sides 2..8 (10) blocked by 1 or 2 in each direction, ranks without sites"),
    run("blocked 3d", "fft", "v3", "1,4,8", set=dict(AX, lo=2, hi=4, step=2, block=1), bound="3D sides 2, 4 blocked"),
    run("float vectors 2d", "fft", "v2", "1,2,3,4", set=dict(AX, lo=2, hi=5), defs=("MC_ELEM=Vector<2,Complex<float>>", "MC_NOREFLECT"), bound="2D shapes 2..5, vectors of Complex<float>"),
    run("matrices 2d", "fft", "v2", "1,2,4", set=dict(AX, lo=2, hi=4), defs=("MC_ELEM=Matrix<2,2,Complex<double>>", "MC_NOREFLECT"), bound="2D shapes 2..4, 2x2 matrices"),
    run("vectorised 2d", "fft", "a2", "1,2", set=dict(AX, lo=8, hi=8), defs=CF, bound="8x8 AVX2, Complex<float>"),
    run("vectorised 3d", "fft", "a3", "1,2", set=dict(AX, lo=4, hi=4), tset=dict(hi=8, step=4), ttime=700, bound="4x4x4 AVX2"),
    run("threads", "fft", "o2", "1,2", set=dict(AX, lo=4, hi=4, omp_threads=2, single=1), dev=1, tdev=2, bound="OpenMP build, 2 threads, one (two) reordered region(s)"),
])
prop("T02", [
    run("2d", "fft", "v2", E12, set=dict(AX, mode=1, lo=2, hi=6), tset=dict(hi=8), ttime=700, bound="all 2D shapes 2..6 (8), every basis field"),
    run("3d", "fft", "v3", "1,2,3,4,6", set=dict(AX, mode=1, lo=2, hi=4), tset=dict(hi=5), ttime=700, bound="all 3D shapes 2..4 (5)"),
    run("4d", "fft", "v4", "1,2", set=dict(AX, mode=1, lo=2, hi=3), tset=dict(hi=4), ttime=700, bound="4D shapes 2..3 (4)"),
    run("1d", "fft", "v1", "1,2,3,4,5", set=dict(AX, mode=1, lo=2, hi=17), bound="1D sides 2..17"),
    run("blocked 2d", "fft", "v2", "1,2,4,6", set=dict(AX, mode=1, lo=2, hi=8, step=2, block=1), bound="2D even sides 2..8, blocked, ranks without sites"),
    run("float 2d", "fft", "v2", "1,2,4", set=dict(AX, mode=1, lo=2, hi=5), defs=CF, bound="2D shapes 2..5, float"),
    run("vectorised 2d", "fft", "a2", "1,2", set=dict(AX, mode=1, lo=8, hi=8), defs=CF, bound="8x8 AVX2, float"),
    run("vectorised 3d", "fft", "a3", "1,2", set=dict(AX, mode=1, lo=4, hi=4), bound="4x4x4 AVX2"),
])
prop("T03", [
    run("histories 2d", "spectral", "v2", "1,2,3", set=dict(lo=4, hi=4, depth=3), tset=dict(depth=4), ttime=700, bound="4x4, all sequences of 3 (4) operations"),
    run("shapes 2d", "spectral", "v2", "1,2,4", set=dict(AX, lo=2, hi=6, depth=1), tset=dict(hi=8), ttime=700, bound="all 2D shapes 2..6 (8), every single operation"),
    run("shapes 3d", "spectral", "v3", "1,2", set=dict(AX, lo=3, hi=4, depth=1), tset=dict(depth=2), ttime=700, bound="3D shapes 3..4"),
    run("real", "spectral", "v2", "1,2", set=dict(AX, lo=3, hi=4, depth=1), defs=("MC_ELEM=double",), bound="real fields"),
    run("real pairs", "spectral", "v2", "1,2", set=dict(AX, lo=3, hi=4, depth=1), defs=("MC_ELEM=Vector<2,double>",), bound="fields with two real components"),
    run("real triples float", "spectral", "v2", "1,2", set=dict(AX, lo=3, hi=4, depth=1), defs=("MC_ELEM=Vector<3,float>",), bound="fields with three real components"),
    run("complex vectors", "spectral", "v2", "1,2", set=dict(AX, lo=3, hi=4, depth=1), defs=("MC_ELEM=Vector<2,Complex<float>>",), bound="vectors of Complex<float>"),
    run("vectorised real", "spectral", "a2", "1,2", set=dict(AX, lo=8, hi=8, depth=1), defs=("MC_ELEM=double",), bound="8x8 AVX2, real field"),
    run("vectorised triples", "spectral", "a2", "1,2", set=dict(AX, lo=8, hi=8, depth=1), defs=("MC_ELEM=Vector<3,float>",), bound="8x8 AVX2, three real components"),
])
prop("S01", [
    run("all choices 2d", "select", "v2", "1,2,3", set=dict(AX, lo=2, hi=3, limit=5000), bound="2D lattices of up to 6 sites, every choice of sites for two statements, every size limit"),
    run("all subsets 2d", "select", "v2", "1,2,3", set=dict(AX, lo=2, hi=4, limit=600, flags=2), tset=dict(limit=70000), ttime=700, bound="2D lattices of up to 9 (16) sites, every subset, every size limit"),
    run("pairs of sites 2d", "select", "v2", "1,2,3,6", set=dict(AX, lo=2, hi=4, sparse=1), tset=dict(hi=6), ttime=700, bound="2D sides 2..4 (6), every pair of sites and their complement"),
    run("pairs of sites 3d vectors", "select", "v3", "1,2,4", set=dict(AX, lo=2, hi=3, sparse=1), tset=dict(hi=4), ttime=700, defs=("MC_ELEM=Vector<3,float>",), bound="3D sides 2..3 (4)"),
    run("vectorised build", "select", "a3", "1", set=dict(AX, lo=4, hi=4, sparse=1), defs=("MC_ELEM=float",), bound="4x4x4 AVX2 build, every pair of sites"),
    run("threads", "select", "o2", "1,2", set=dict(AX, lo=2, hi=3, sparse=1, omp_threads=2), dev=1, bound="OpenMP build"),
])
prop("C01", [
    run("all types 2d", "cluster", "v2", "1,2,3,4", set=dict(AX, lo=2, hi=4, limit=7000), tset=dict(limit=70000, na=4), ttime=800, bound="2D lattices of up to 8 sites, every assignment of 3 types (8 sites: 4 types)"),
    run("all types 3d", "cluster", "v3", "1,2,4", set=dict(AX, lo=2, hi=3, limit=20000), bound="3D lattice of 8 sites, every assignment of 3 types"),
    run("all types 4d", "cluster", "v4", "1,2", set=dict(AX, lo=2, hi=2, limit=65536, na=2), bound="4D lattice of 16 sites, every assignment of 2 types"),
    run("all links 2d", "cluster", "v2", "1,2,3,4", set=dict(AX, lo=2, hi=3, limit=5000, mode=1), tset=dict(limit=300000), ttime=700, bound="2D lattices of up to 6 (9) sites, every set of links"),
    run("paths 2d", "cluster", "v2", "1,2,3,4", set=dict(AX, lo=3, hi=5, mode=2, len=2), tset=dict(len=4), ttime=700, bound="2D sides 3..5, every path of 2 (4) steps, as links, as sites and as their complement"),
    run("paths 3d", "cluster", "v3", "1,2,4", set=dict(AX, lo=2, hi=3, mode=2, len=2), tset=dict(len=3), bound="3D sides 2..3, every path of 2 (3) steps"),
    run("paths 4d", "cluster", "v4", "1,4", set=dict(AX, lo=2, hi=3, mode=2, len=1), tset=dict(len=2), bound="4D sides 2..3, every path of 1 (2) step(s)"),
    run("winding 2d", "cluster", "v2", "1,2,4", set=dict(AX, mode=3, lo=6, hi=6), tset=dict(hi=8, step=2), ttime=600, bound="6x6 (8x8), every labyrinth of walls with one or two gaps"),
    run("threads", "cluster", "o2", "1", set=dict(AX, lo=3, hi=3, mode=2, len=1, omp_threads=2), dev=1, opts=["--phases", "1"], time=30, bound="OpenMP build, 3x3"),
])
prop("G01", [
    run("histories 2d", "rng", "v2", "1,2,3", set=dict(AX, lo=3, hi=4, step=1), tset=dict(depth=3), ttime=700, bound="2D sides 3..4, every sequence of 2 (3) of 11 draws after every history of one of 13 steps, 2 seeds"),
    run("long histories", "rng", "v2", "2", set=dict(AX, lo=4, hi=4, depth=1, hist=2), tset=dict(hist=3, seeds=5), ttime=700, bound="4x4, every history of 2 (3) steps, 2 (5) seeds"),
    run("3d vectors", "rng", "v3", "1,4", set=dict(AX, lo=2, hi=3, depth=1), tset=dict(depth=2), defs=("MC_ELEM=Vector<3,float>",), bound="3D sides 2..3"),
    run("vectorised build", "rng", "a2", "1,2", set=dict(AX, lo=8, hi=8, depth=1), tset=dict(depth=2), bound="8x8 AVX2 build"),
    run("vectorised vectors", "rng", "a3", "1,2", set=dict(AX, lo=4, hi=4, depth=1), defs=("MC_ELEM=Vector<3,float>",), bound="4x4x4 AVX2 build"),
    run("threads", "rng", "o2", "1,2", set=dict(AX, lo=3, hi=3, depth=1, omp_threads=2), dev=1, bound="OpenMP build, 2 threads, one reordered region"),
    run("refusals", "rng", "v2", "1,2,3", set=dict(AX, lo=4, hi=4, mode=1), bound="every kind of use without seed"),
    run("refusals vectorised", "rng", "a2", "1,2", set=dict(AX, lo=8, hi=8, mode=1), bound="AVX2 build"),
    run("refusals threads", "rng", "o2", "1,2", set=dict(AX, lo=4, hi=4, mode=1, omp_threads=2), dev=1, bound="OpenMP build"),
    run("seeds", "rng", "v2", "1,2,5,8,16,60", set=dict(AX, lo=12, hi=12, mode=2), tset=dict(seeds=400), bound="seeds 1..24 (400), up to 60 ranks, clock seeds at 3 times"),
    run("distributions", "rng", "v2", "1,3", set=dict(AX, lo=12, hi=12, mode=3), tset=dict(seeds=16, n=2000000), ttime=600, bound="moments over 300000 (2000000) draws, 4 (16) seeds"),
])
K3 = ("MC_GROUP=SU<3,float>",)
prop("K01", [
    run("interrupted", "ckpt", "v2+WRITE_BUFFER_SIZE=320", "1,2,4", set=dict(scenarios=4, renp=1), opts=["--phases", "2"], bound="3 checkpoints interrupted before or within every file operation, with or without old files kept, with or without initial configuration, restart on 1, 2 or 4 ranks"),
    run("interrupted twice", "ckpt", "v2", "1", set=dict(scenarios=2, saves=1), tset=dict(scenarios=4, saves=2), ttime=700, opts=["--phases", "3"], bound="1 (2) checkpoints interrupted at every operation, the restarted run interrupted at every operation again"),
    run("interrupted 3d", "ckpt", "v3", "1,2", set=dict(scenarios=4), defs=K3, opts=["--phases", "2"], bound="SU(3) float, 4x4x4"),
    run("histories", "ckpt", "v2", "1,2", set=dict(mode=1, depth=4), tset=dict(depth=6), ttime=700, opts=["--rundir"], bound="every sequence of 4 (6) checkpoints, edits of run_status, restarts, readings"),
    run("histories 3d", "ckpt", "v3", "1,2", set=dict(mode=1, depth=3), tset=dict(depth=5), ttime=700, defs=K3, opts=["--rundir"], bound="SU(3) float, every sequence of 3 (5)"),
    run("files", "ckpt", "v2", "1,2", set=dict(mode=2), opts=["--rundir"], bound="every word of the header changed in 6 ways, cut at every byte of the header and 40 places of the data, every smaller lattice"),
    run("files 3d", "ckpt", "v3+WRITE_BUFFER_SIZE=100", "1,2", set=dict(mode=2), defs=("MC_GROUP=SU<2,float>",), opts=["--rundir"], bound="3D, buffers of 3 sites"),
    run("vectorised build", "ckpt", "a2", "1,2", set=dict(mode=1, size=8, depth=3), opts=["--rundir"], bound="8x8 AVX2 build, every sequence of 3"),
])

ALLG, MOST, FEW = ("single", "pair", "chain", "context", "feature"), ("chain", "context", "feature"), ("context", "feature")
prop("H01", [
    run("programs", "prog", "v2", "1,2,4", set=dict(shape=46), gen=(ALLG, False, 80), limit=100, time=200, bound="all programs (quick set), 6x4"),
    run("programs odd sides", "prog", "v2", "1,3", set=dict(shape=53), gen=(ALLG, False, 80), limit=100, time=200, bound="all programs (quick set), 3x5"),
    run("programs vectorised", "prog", "a2", "1,2", set=dict(shape=88), gen=(MOST, False, 80), limit=100, time=200, bound="statement chains, contexts and features, AVX2 8x8"),
    run("programs OpenMP", "prog", "o2", "1,2", set=dict(shape=46), gen=(FEW, False, 80), limit=100, time=200, bound="contexts and features, OpenMP"),
    run("programs 3d", "prog", "v3", "2,4", set=dict(shape=444), gen=(FEW, False, 80), limit=100, time=200, thorough_only=True, bound="contexts and features, 3D 4x4x4"),
    run("programs, every parity", "prog", "v2", "1,2,4", set=dict(shape=46), gen=(ALLG, True, 80), limit=300, ttime=900, thorough_only=True, bound="all programs with every parity"),
    run("programs vectorised, all", "prog", "a2", "1,2", set=dict(shape=88), gen=(ALLG, True, 80), limit=300, ttime=900, thorough_only=True, bound="all programs with every parity, AVX2"),
    run("programs OpenMP, all", "prog", "o2", "1,2", set=dict(shape=46), gen=(ALLG, False, 80), limit=300, ttime=900, thorough_only=True, bound="all programs (quick set), OpenMP"),
])

prop("H02", [
    run("refused and accepted", "illegal", "v2", survey=True, bound="all cases, vanilla target"),
    run("refused and accepted OpenMP", "illegal", "o2", survey=True, bound="all cases, OpenMP target"),
    run("refused and accepted vectorised", "illegal", "a2", survey=True, thorough_only=True, bound="all cases, AVX2 target"),
])

prop("I01", [
    run("files", "input", "v2", "1,2", set=dict(mode=0, depth=2), tset=dict(depth=3), ttime=800, opts=["--rundir"], bound="every sequence of 2 (3) entries over all kinds of entries, layouts and readings"),
    run("wrong files", "input", "v2", "1,2", set=dict(mode=1), opts=["--rundir"], bound="every kind of wrong entry in every place"),
    run("overrides", "input", "v2", "1,2", set=dict(mode=2), opts=["--rundir"], bound="every set of -p and -i overrides"),
    run("open and close", "input", "v2", "1,2,3", set=dict(mode=3, depth=5), tset=dict(depth=6), ttime=600, opts=["--rundir"], bound="every sequence of 5 (6) of 14 operations on two input objects"),
])
prop("I02", [
    run("argument lists", "cmdline", "v2", "1,2", set=dict(len=4), tset=dict(len=5, na=12), ttime=800, bound="every list of up to 4 (5) arguments out of 10 (12), every access"),
    run("all arguments", "cmdline", "v2", "2", set=dict(len=3, na=16), bound="every list of up to 3 arguments out of 16, every access"),
])
prop("K02", [
    run("time limits", "timing", "v2", "1,2,3", set=dict(mode=0, depth=4), tset=dict(depth=7), ttime=600, bound="5 limits, every sequence of 4 (7) steps of time, signals and checks"),
    run("limit strings", "timing", "v2", "1,2", set=dict(mode=1), bound="every string of the 4 formats over 6 numbers per field, 23 malformed strings"),
    run("timers", "timing", "v2", "1,2", set=dict(mode=2, depth=6), tset=dict(depth=8), ttime=600, bound="every sequence of 6 (8) of 10 operations on two timers"),
])

TY = [("double", "double"), ("Complex<double>", "Complex<double>"), ("int", "int"), ("Complex<float>", "Complex<float>"),
      ("Complex<double>", "double"), ("double", "Complex<double>"), ("float", "float"), ("int64_t", "double"), ("Complex<float>", "Complex<double>")]
prop("A02", [
    run("complex numbers", "complex", "v2", "1", bound="every operation, assignment form and function over all pairs of a set of complex values, real scalars of 4 types, aliased operands included"),
])
prop("A03", [run("types %s and %s" % t, "matrix", "v2", "1", defs=("MC_T=" + t[0], "MC_U=" + t[1]), thorough_only=i > 3,
    bound="10 shapes, every operation, assignment form and index, aliased operands included, element types %s and %s" % t) for i, t in enumerate(TY)])
prop("A04", [run("type %s" % t, "linalg", "v2", "1", defs=("MC_T=" + t,), tset={"full": 1}, thorough_only=i > 2,
    bound="matrix sizes 2 to %s, every decomposition, determinant, solver, exponential and derivative over all small matrices on an alphabet and a set of degenerate ones, element type %s" % ("6" if "int" in t else "5", t))
    for i, t in enumerate(["double", "Complex<double>", "int", "float", "Complex<float>", "int64_t"])])
prop("A05", [run("type " + t, "groups", "v2", "1", defs=("MC_T=" + t,),
    bound="every operation of SU2, U1, SU(2..5) and their algebras over all quaternions on an alphabet, every generator and pair of generators, permutation and centre elements, element type " + t) for t in ("double", "float")])
prop("A01", [run("dimension %d" % d, "coords", "v%d" % d, "1",
    bound="%d dimensions, 5 lattices, every site and every vector over an alphabet of %d coordinates, all directions and pairs of directions" % (d, 7 if d == 4 else 17)) for d in (1, 2, 3, 4)])
prop("U01", [run("histories", "muca", "v2", "1,2", set=dict(depth=3), tset=dict(depth=5), libs=("tools/multicanonical.cpp",), opts=["--rundir"], ttime=900,
    bound="all histories of 5 (6) order parameter values of an alphabet of 5 to 9 per method and 60 more steps, two sets of bins, with and without walls; accept/reject for all pairs of 7 values, 24 random sequences; 7 kinds of weight files")])


def gauge(n, t="double", *more):
    return ("MC_N=%d" % n, "MC_T=" + t) + more


SH4 = "lattices 4x4x2x2, 2x4x4x2, 6x2x2x2, 3x2x4x3"
FIELDS = "6 kinds of link fields (identity, strong, strong, weak, centre, pure gauge)"
prop("U02", [
    run("observables SU2 4d", "gauge", "v4", "1,4", set=dict(mode="obs", shapes=1, **AX), tset=dict(shapes=4), defs=gauge(2), bound=SH4 + " (quick: the first), " + FIELDS + ", every plane, direction, path up to length 3"),
    run("observables SU2 2d", "gauge", "v2", "1,2,4", set=dict(mode="obs", **AX), defs=gauge(2), bound="4 2D lattices, " + FIELDS + ", every path up to length 3"),
    run("observables SU3", "gauge", "v2", "1,2,4", set=dict(mode="obs", **AX), defs=gauge(3), bound="4 2D lattices, " + FIELDS + ", every path up to length 3"),
    run("observables SU3 float", "gauge", "v3", "1,2", set=dict(mode="obs", shapes=2, **AX), defs=gauge(3, "float"), thorough_only=True, bound="2 3D lattices, " + FIELDS),
    run("observables OpenMP", "gauge", "o3", "1,2", set=dict(mode="obs", shapes=2, **AX), defs=gauge(2), thorough_only=True, bound="2 3D lattices, " + FIELDS),
    run("observables AVX 2d", "gauge", "a2", "1,2,4", set=dict(mode="obs", shape=4, **AX), defs=gauge(3, "double", "MC_BASIC"), bound="8x8, plaquette, staples, Polyakov lines, Wilson lines"),
    run("observables AVX 3d", "gauge", "a3", "1,2,4", set=dict(mode="obs", shape=5, **AX), defs=gauge(2, "double", "MC_BASIC"), thorough_only=True, bound="4x4x4, plaquette, staples, Polyakov lines, Wilson lines"),
    run("smearing SU2", "gauge", "v2", "1,2,4", set=dict(mode="smear", **AX), defs=gauge(2), bound="4 2D lattices, " + FIELDS + ", coefficients and numbers of steps"),
    run("smearing SU3", "gauge", "v2", "1,2,4", set=dict(mode="smear", **AX), defs=gauge(3), bound="4 2D lattices, " + FIELDS + ", coefficients and numbers of steps"),
    run("smearing SU3 float 3d", "gauge", "v3", "1,2", set=dict(mode="smear", shapes=2, **AX), defs=gauge(3, "float"), thorough_only=True, bound="2 3D lattices, " + FIELDS),
    run("topological charge", "gauge", "v4", "1,2,4", set=dict(mode="topo", shape=6, **AX), defs=gauge(2, "double", "MC_TOPO"), bound="2x2x2x2, " + FIELDS),
])
prop("U03", [
    run("forces SU2", "gauge", "v2", "1,2,4", set=dict(mode="force", **AX), defs=gauge(2), bound="4 2D lattices, " + FIELDS + ", every action, every generator of every link of the lattice or a representative set"),
    run("forces SU3", "gauge", "v2", "1,2", set=dict(mode="force", shapes=2, **AX), tset=dict(shapes=4), defs=gauge(3), bound="2 (4) 2D lattices, " + FIELDS + ", every action"),
    run("forces SU3 float 3d", "gauge", "v3", "1,2", set=dict(mode="force", shapes=2, **AX), defs=gauge(3, "float"), thorough_only=True, bound="2 3D lattices, " + FIELDS),
    run("forces SU2 4d", "gauge", "v4", "1,4", set=dict(mode="force", shape=6, **AX), defs=gauge(2), bound="2x2x2x2, " + FIELDS),
    run("forces OpenMP", "gauge", "o2", "1,2", set=dict(mode="force", shapes=2, **AX), defs=gauge(2), thorough_only=True, bound="2 2D lattices, " + FIELDS),
    run("loops SU2", "gauge", "v2", "1,2,4", set=dict(mode="loops", shapes=2, **AX), tset=dict(shapes=4, len=6), defs=gauge(2), ttime=300, bound="every closed path up to length 4 (6): Wilson loop, its force and its staples"),
    run("loops SU3", "gauge", "v2", "1,2", set=dict(mode="loops", shapes=2, **AX), defs=gauge(3), thorough_only=True, bound="every closed path up to length 4"),
    run("force pulled back SU2", "gauge", "v2", "1,2,4", set=dict(mode="pullback", **AX), defs=gauge(2), bound="stout smearing of 1 to 3 steps, force of the smeared action"),
    run("force pulled back SU3", "gauge", "v2", "1,2,4", set=dict(mode="pullback", shapes=2, **AX), tset=dict(shapes=4), defs=gauge(3), bound="stout smearing of 1 to 3 steps, force of the smeared action"),
    run("flow SU2", "gauge", "v2", "1,2,4", set=dict(mode="flow", **AX), defs=gauge(2), bound="gradient flow, " + FIELDS),
    run("flow SU3", "gauge", "v2", "1,2,4", set=dict(mode="flow", **AX), defs=gauge(3), bound="gradient flow, " + FIELDS),
    run("flow SU3 float 3d", "gauge", "v3", "1,2", set=dict(mode="flow", shapes=2, **AX), defs=gauge(3, "float"), thorough_only=True, bound="2 3D lattices"),
])
prop("U04", [run("%s SU%d %s" % (m[1], n, t), "update", "v2", "1", set=dict(mode=m[0]), defs=gauge(n, t), thorough_only=(t == "float" or n == 4 and m[0] == "heat"),
    bound="all links and staples of a set of 6 kinds, random numbers on a lattice filling the unit cube") for m in (("over", "overrelaxation"), ("heat", "heat bath")) for n in (2, 3, 4) for t in ("double", "float")])
prop("M01", [
    run("values", "comms", "v2", "1,2,3,4", set=dict(depth=2), tset=dict(depth=3), ttime=600, bound="every sequence of 2 (3) of 13 operations with every root rank and kind of data"),
    run("all schedules", "comms", "v2", "2,3", set=dict(depth=1), dev=1, tdev=2, ttime=600, opts=["--sched"], bound="every operation, one (two) preemptions at every MPI call"),
])
prop("P01", [
    run("partitions", "comms", "v2", "1,2,3,4,6", set=dict(mode=1, depth=1), opts=["--rundir", "--percwd"], bound="1 to 7 partitions, one of 9 operations in even and one in odd partitions"),
    run("longer histories", "comms", "v2", "2,4", set=dict(mode=1, depth=2), thorough_only=True, ttime=800, opts=["--rundir", "--percwd"], bound="1 to 5 partitions, every sequence of 2 of 9 operations in even and in odd partitions"),
])
GF = ("MC_T=Matrix<2,2,double>",)
FL = ("MC_T=Matrix<2,2,float>",)
prop("U05", [
    run("histories 2d", "gfield", "v2", "1,2,4", set=dict(mode="ops", **AX), tset=dict(depth=3), ttime=600, defs=GF, opts=["--rundir"], bound="4 2D lattices, every sequence of 2 (3) of 17 operations"),
    run("histories 3d float", "gfield", "v3", "1,2,3", set=dict(mode="ops", shapes=3, depth=1, **AX), tset=dict(depth=2), defs=FL, opts=["--rundir"], bound="3 3D lattices, every sequence of 1 (2) of 17 operations"),
    run("histories AVX", "gfield", "a2", "1,2,4", set=dict(mode="ops", shape=4, **AX), defs=GF, opts=["--rundir"], bound="8x8, every pair of 17 operations"),
    run("blocking 2d", "gfield", "v2", "1,2,3,4,6", set=dict(mode="block", **AX), defs=GF, opts=["--rundir"], bound="4 2D lattices, every set of factors 1 and 2, 4 ways"),
    run("blocking 3d", "gfield", "v3", "1,2,3,4,8", set=dict(mode="block", shapes=3, **AX), defs=FL, opts=["--rundir"], bound="3 3D lattices, every set of factors 1 and 2, 4 ways"),
    run("files 2d", "gfield", "v2", "1,2,4", set=dict(mode="files", **AX), defs=GF, opts=["--rundir"], bound="4 2D lattices, every smaller lattice by factors 2, 6 kinds of good and 6 of wrong files"),
    run("files 3d", "gfield", "v3", "1,2,3,8", set=dict(mode="files", shapes=3, **AX), defs=FL, opts=["--rundir"], bound="3 3D lattices, every smaller lattice by factors 2, good and wrong files"),
    run("files AVX", "gfield", "a2", "1,2,4", set=dict(mode="files", shape=4, **AX), defs=GF, opts=["--rundir"], bound="8x8, good and wrong files"),
])
CSA = ["Wilson", "bulk prevention", "Luscher-Weisz", "Iwasaki", "DBW2", "log plaquette"]
prop("U06", [
    run("Gauss law SU2 2d", "gauge", "v2", "1,2,4", set=dict(mode="gauss", **AX), defs=gauge(2), bound="4 2D lattices, " + FIELDS + ", strong, weak and zero electric field, 3 qualities"),
    run("Gauss law SU3 2d", "gauge", "v2", "1,2,4", set=dict(mode="gauss", **AX), defs=gauge(3), bound="4 2D lattices, " + FIELDS + ", strong, weak and zero electric field, 3 qualities"),
    run("Gauss law SU2 3d", "gauge", "v3", "1,2,4", set=dict(mode="gauss", shapes=1, **AX), tset=dict(shapes=4), defs=gauge(2), bound="1 (4) 3D lattices, " + FIELDS + ", strong, weak and zero electric field, 3 qualities"),
    run("Gauss law float 3d", "gauge", "v3", "1,2", set=dict(mode="gauss", shapes=3, **AX), defs=gauge(3, "float"), thorough_only=True, bound="3 3D lattices, " + FIELDS + ", strong, weak and zero electric field, 3 qualities"),
] + [run("constant action flow %s" % CSA[a], "gauge", "v2", "1,2,4", set=dict(mode="csflow", **AX), defs=gauge(2, "double", "CSFLOWACTION=%d" % a), thorough_only=a in (2, 4), bound="4 2D lattices, 3 kinds of links, flow times 0.002, 0.05, 0.4") for a in range(6)]
  + [run("constant action flow SU3", "gauge", "v2", "1,2", set=dict(mode="csflow", **AX), defs=gauge(3, "double", "CSFLOWACTION=3"), bound="4 2D lattices, 3 kinds of links, flow times 0.002, 0.05, 0.4")])
VC, V3 = ("MC_V=Complex<double>",), ("MC_V=std::conditional_t<true,Vector<3,Complex<double>>,void>",)
CGB = "3 parities, every set of antiperiodic directions, 3 first guesses, 4 sources, 2 operators, 2 accuracies"
prop("U07", [
    run("2d", "cg", "v2" + SBC, "1,2,4", set=dict(shapes=3, **AX), defs=VC, bound="3 2D lattices, " + CGB),
    run("2d vectors", "cg", "v2" + SBC, "1,2,4", set=dict(shapes=1, **AX), tset=dict(shapes=4), defs=V3, bound="1 (4) 2D lattices, " + CGB),
    run("3d", "cg", "v3" + SBC, "1,4", set=dict(shape=3, **AX), defs=VC, bound="4x2x2, " + CGB),
    run("3d long", "cg", "v3" + SBC, "1,2,3", set=dict(shapes=2, **AX), defs=VC, thorough_only=True, bound="4x4x2 and 2x6x4, " + CGB),
    run("AVX", "cg", "a2", "1,2,4", set=dict(shape=4, bc=0, **AX), defs=VC, bound="8x8, periodic, " + CGB),
])
