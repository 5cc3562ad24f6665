// M01: values sent between ranks.  P01: independent partitions of the ranks.
#include "hila.h"
#include "plumbing/shuffle.h"
#include "common.h"
#include <set>
#include <map>
#include <array>
#include <algorithm>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>

static int me, np, world, part_, parts; // rank and number within the partition, world rank
static int W() { return world; }
template <typename A>
static void same(const char *w, const A &a, const A &b) {
    mc_compared(1);
    if (!(a == b)) mc_fail("%s: wrong value on rank %d", w, W());
}
struct Trio { char c; double d; int i; bool operator==(const Trio &o) const { return c == o.c && d == o.d && i == o.i; } };
template <typename A> static A val(int k, int r);
template <> int val<int>(int k, int r) { return 1000003 * (k + 1) + 17 * r - 2000000; }
template <> char val<char>(int k, int r) { return 'a' + (k * 3 + r) % 20; }
template <> bool val<bool>(int k, int r) { return (k + r) & 1; }
template <> int64_t val<int64_t>(int k, int r) { return (int64_t)val<int>(k, r) * 4000000007LL; }
template <> double val<double>(int k, int r) { return val<int>(k, r) / 7.0; }
template <> float val<float>(int k, int r) { return val<int>(k, r) / 7.0f; }
template <> Complex<double> val<Complex<double>>(int k, int r) { return Complex<double>(val<double>(k, r), -val<double>(k + 3, r)); }
template <> Trio val<Trio>(int k, int r) { Trio t = {}; t.c = val<char>(k, r); t.d = val<double>(k, r); t.i = val<int>(k, r); return t; }
template <> CoordinateVector val<CoordinateVector>(int k, int r) { CoordinateVector c; foralldir(d) c[d] = 5 * k + r + (int)d; return c; }
template <> std::string val<std::string>(int k, int r) { return std::string((size_t)((k * 7 + r * 5) % 4 == 0 ? 0 : (k + 2 * r) % 5 == 1 ? 40 + r : k + r), (char)('A' + r)) + (k & 1 ? "" : std::string("\0 x", 3)); }

template <typename A>
static void one(const char *w, int k, int root) {
    A a = val<A>(k, me), e = val<A>(k, root);
    same(w, hila::broadcast(a, root), e);
    same(w, a, e);
    const A c = val<A>(k + 1, me);
    same(w, hila::broadcast(c, root), val<A>(k + 1, root));
    same(w, c, val<A>(k + 1, me));
    A b = val<A>(k + 2, me);
    if (root == 0) { same(w, hila::broadcast(b), val<A>(k + 2, 0)); same(w, b, val<A>(k + 2, 0)); }
}
template <typename A>
static void vec(const char *w, int k, int root) {
    for (int n = 0; n < 3; n++) {
        std::vector<A> a((me * 2 + k + n) % 4), e((root * 2 + k + n) % 4);
        for (size_t i = 0; i < a.size(); i++) a[i] = val<A>(k + i, me);
        for (size_t i = 0; i < e.size(); i++) e[i] = val<A>(k + i, root);
        auto &r = hila::broadcast(a, root);
        same(w, a, e);
        if (&r != &a) mc_fail("%s: reference to another object returned", w);
    }
}
template <typename A>
static void arr(const char *w, int k, int root) {
    for (int n = 0; n < 4; n++) {
        A a[6];
        for (int i = 0; i < 6; i++) a[i] = val<A>(k + i, me);
        A *r = hila::broadcast_array(a + 1, n, root);
        if (r != a + 1) mc_fail("%s: wrong pointer returned", w);
        for (int i = 0; i < 6; i++) same(w, a[i], val<A>(k + i, i >= 1 && i < 1 + n ? root : me));
    }
    std::array<A, 3> s;
    for (int i = 0; i < 3; i++) s[i] = val<A>(k + i, me);
    hila::broadcast(s, root);
    for (int i = 0; i < 3; i++) same("broadcast of std::array", s[i], val<A>(k + i, root));
}
template <typename A>
static void p2p(const char *w, int k, int from, int to) {
    if (from == to) return;
    A a = val<A>(k, me);
    std::vector<A> v((k + me) % 3), e((k + from) % 3);
    for (size_t i = 0; i < v.size(); i++) v[i] = val<A>(k + i, me);
    for (size_t i = 0; i < e.size(); i++) e[i] = val<A>(k + i, from);
    auto v0 = v;
    if (me == from) {
        hila::send_to(to, a);
        hila::send_to(to, v);
        hila::send_to(to, val<A>(k + 1, me));
    }
    A b = val<A>(k + 5, me);
    if (me == to) {
        hila::receive_from(from, a);
        hila::receive_from(from, v);
        hila::receive_from(from, b);
        same(w, a, val<A>(k, from));
        same(w, v, e);
        same(w, b, val<A>(k + 1, from));
    } else {
        same(w, a, val<A>(k, me));
        same(w, v, v0);
    }
}
template <typename A>
static void red(const char *w, int k, bool all) {
    auto f = [&](int i, int r) { return A((i + k) % 3 + r + 1); };
    for (int n = 0; n <= 3; n++) {
        A a[4], b[4];
        for (int i = 0; i < 4; i++) a[i] = b[i] = f(i, me);
        hila::reduce_node_sum(a, n, all);
        hila::reduce_node_product(b, n, all);
        for (int i = 0; i < 4; i++) {
            A s = 0, p = 1;
            for (int r = 0; r < np; r++) { s += f(i, r); p *= f(i, r); }
            if (i >= n || (!all && me != 0)) s = p = f(i, me);
            same(w, a[i], s);
            same("reduce_node_product", b[i], p);
        }
    }
    A a = f(1, me), b = f(2, me), s = 0, p = 1;
    for (int r = 0; r < np; r++) { s += f(1, r); p *= f(2, r); }
    A x = hila::reduce_node_sum(a, all), y = hila::reduce_node_product(b, all);
    if (all || me == 0) { same(w, a, s); same(w, x, s); same("reduce_node_product", b, p); same("reduce_node_product", y, p); }
    else { same(w, a, f(1, me)); same("reduce_node_product", b, f(2, me)); }
}
static void compound(int k, bool all) {
    Vector<3, double> v[2];
    Complex<float> c = Complex<float>(me + k, 2 * me + 1);
    for (int j = 0; j < 2; j++) for (int i = 0; i < 3; i++) v[j].c[i] = i + 10 * me + 100 * j + k;
    hila::reduce_node_sum(v, 2, all);
    hila::reduce_node_sum(c, all);
    if (!all && me) return;
    long R = (long)np * (np - 1) / 2;
    for (int j = 0; j < 2; j++) for (int i = 0; i < 3; i++) same("reduce_node_sum of vectors", v[j].c[i], (double)(np * (i + 100 * j + k) + 10 * R));
    same("reduce_node_sum of complex", c, Complex<float>(R + np * k, 2 * R + np));
}
const int NOPS = 13;
static void valueop(int op, int k) {
    int root = k % np, to = (k / np) % np;
    switch (op) {
    case 0: one<int>("broadcast of int", k, root); one<bool>("broadcast of bool", k, root); one<char>("broadcast of char", k, root); break;
    case 1: one<double>("broadcast of double", k, root); one<float>("broadcast of float", k, root); one<int64_t>("broadcast of int64_t", k, root); break;
    case 2: one<Complex<double>>("broadcast of Complex", k, root); one<Trio>("broadcast of struct", k, root); one<CoordinateVector>("broadcast of CoordinateVector", k, root); break;
    case 3: vec<int>("broadcast of vector<int>", k, root); vec<char>("broadcast of vector<char>", k, root); vec<Trio>("broadcast of vector<struct>", k, root); vec<Complex<double>>("broadcast of vector<Complex>", k, root); break;
    case 4: vec<std::string>("broadcast of vector<string>", k, root); break;
    case 5: for (int i = 0; i < 4; i++) { std::string s = val<std::string>(k + i, me); auto &r = hila::broadcast(s, root); same("broadcast of string", s, val<std::string>(k + i, root)); if (&r != &s) mc_fail("reference to another string returned"); } break;
    case 6: arr<int>("broadcast_array", k, root); arr<Trio>("broadcast_array", k, root); arr<char>("broadcast_array", k, root); break;
    case 7: {
        char a = val<char>(k, me); double b = val<double>(k, me);
        hila::broadcast2(a, b, root);
        same("broadcast2", a, val<char>(k, root)); same("broadcast2", b, val<double>(k, root));
        int64_t c = val<int64_t>(k, me); bool d = val<bool>(k, me);
        hila::broadcast2(c, d, root);
        same("broadcast2", c, val<int64_t>(k, root)); same("broadcast2", d, val<bool>(k, root));
        break; }
    case 8: p2p<int>("send_to", k, root, to); p2p<Trio>("send_to", k, root, to); p2p<Complex<double>>("send_to", k, root, to); break;
    case 9: // all ranks in a ring, even ones send first
        for (int c = 0; c < np; c++) { int nx = (c + 1) % np; p2p<double>("send_to in a ring", k, c, nx); }
        if (np % 2 == 0) {
            double a = val<double>(k, me), b = 0; int nx = (me + 1) % np, pv = (me + np - 1) % np;
            if (me % 2 == 0) { hila::send_to(nx, a); hila::receive_from(pv, b); } else { hila::receive_from(pv, b); hila::send_to(nx, a); }
            same("exchange in a ring", b, val<double>(k, pv));
        }
        break;
    case 10: red<int>("reduce_node_sum", k, k % 2 == 0); red<double>("reduce_node_sum", k, k % 2 == 0); break;
    case 11: red<int64_t>("reduce_node_sum", k, k % 2); red<float>("reduce_node_sum", k, k % 2); compound(k, k % 2); break;
    case 12: hila::set_allreduce(k % 2); if (hila::get_allreduce() != (bool)(k % 2)) mc_fail("get_allreduce()"); hila::set_allreduce(true); hila::synchronize(); hila::barrier(); break;
    }
}
// ---- partitions
static Field<int> F, H;
static int fset(long x, int salt) { return (int)(x * 31 + 1000 * part_ + 7 * salt); }
static int salt_ = 0;
static std::string dirname_;
static std::vector<double> drawn;
static void partop(int op, int k) {
    long vol = lattice.volume();
    switch (op) {
    case 0: { // new values, neighbours
        salt_ = k + 1; int s = salt_, p = part_;
        onsites(ALL) F[X] = (int)(SiteIndex(X.coordinates()).value * 31 + 1000 * p + 7 * s);
        foralldir(d) {
            long bad = 0;
            onsites(ALL) { CoordinateVector c = (X.coordinates() + d).mod(lattice.size()); if (F[X + d] != (int)(SiteIndex(c).value * 31 + 1000 * p + 7 * s)) bad += 1; }
            if (bad) mc_fail("partition %d: %ld wrong neighbours", part_, bad);
        }
        break; }
    case 1: { // sums, also non-blocking, over the ranks of the partition
        Reduction<double> r; r.nonblocking(true); r = 0;
        long s = 0; int sa = salt_;
        onsites(ALL) { s += F[X]; r += F[X]; }
        long e = 0; for (long x = 0; x < vol; x++) e += fset(x, sa);
        same("sum over a partition", s, e);
        same("non-blocking sum over a partition", r.value(), (double)e);
        CoordinateVector loc; int m = F.max(loc);
        same("maximum over a partition", m, fset(vol - 1, sa));
        break; }
    case 2: valueop(0, k); valueop(5, k); valueop(3, k); break;
    case 3: { // a file in the directory of the partition
        F.write("field");
        Field<int> G; G.read("field");
        long bad = 0; int p = part_, s = salt_;
        onsites(ALL) { if (G[X] != (int)(SiteIndex(X.coordinates()).value * 31 + 1000 * p + 7 * s)) bad += 1; }
        if (bad) mc_fail("partition %d: field file with %ld wrong sites", part_, bad);
        break; }
    case 4: valueop(10, k); valueop(11, k); valueop(8, k + 1); break;
    case 5: { // element access, shifts
        CoordinateVector c = 0; c[e_x] = 1; int v = F.get_element(c);
        same("get_element in a partition", v, fset(SiteIndex(c).value, salt_));
        H = F.shift(c);
        int w = H.get_element(CoordinateVector(0)); // value at c
        CoordinateVector n = c;
        same("shift in a partition", w, fset(SiteIndex(n).value, salt_));
        break; }
    case 6: hila::synchronize(); hila::barrier(); valueop(9, k); break;
    case 7: { // the same numbers on all ranks of a partition
        auto order = hila::shuffle_directions_and_parities();
        for (int r = 0; r < np; r++) { auto o = order; hila::broadcast(o, r); for (size_t i = 0; i < o.size(); i++) if (o[i].direction != order[i].direction || o[i].parity != order[i].parity) mc_fail("shuffle_directions_and_parities() differs between ranks of a partition"); }
        break; }
    case 8: { // input files: own directory first, then the one above
        hila::input in; in.quiet();
        std::string fn = k % 2 ? "own" : "common";
        if (!in.open(fn)) mc_fail("input file not found");
        int v = in.get("key");
        in.close();
        same("value of an input file", v, k % 2 ? 50 + part_ : 7);
        break; }
    }
}
const int NP_OPS = 9;
static void part_main(int depth) {
    int P = 1 + mc_global_choose(mc_nranks() + 1, "partitions"), naming = mc_global_choose(2, "name");
    bool bad = mc_nranks() % P;
    int nseq = std::min(P, 2);
    std::vector<std::vector<int>> seq(nseq);
    if (!bad) for (int q = 0; q < nseq; q++) for (int i = 0; i < depth; i++) seq[q].push_back(mc_global_choose(NP_OPS, "operation"));
    std::string dir = mc_rundir();
    if (chdir(dir.c_str())) mc_fail("chdir");
    world = mc_rank();
    if (world == 0) {
        std::ofstream("common") << "key 7\n";
        for (int q = 0; q < P && P > 1; q++) {
            std::string d = (naming ? std::string("stream_") : std::string("partition")) + std::to_string(q);
            if (q % 2) mkdir(d.c_str(), 0777);              // some exist already
        }
    }
    mc_barrier();
    std::vector<std::string> args = {"prog", "-partitions", std::to_string(P)};
    if (naming) args.push_back("stream_");
    std::vector<char *> av; for (auto &a : args) av.push_back(&a[0]); av.push_back(nullptr);
    if (bad) mc_expect_exit(2);
    hila::initialize((int)args.size(), av.data());
    if (bad) mc_fail("%d ranks in %d partitions accepted", mc_nranks(), P);
    me = hila::myrank(); np = hila::number_of_nodes(); parts = hila::partitions.number(); part_ = P > 1 ? hila::partitions.mylattice() : 0;
    same("number of partitions", parts, P);
    same("ranks of a partition", np, mc_nranks() / P);
    same("own partition", part_, world / np);
    same("rank in the partition", me, world % np);
    char b[4096]; if (!getcwd(b, sizeof b)) b[0] = 0;
    std::string want = P > 1 ? dir + "/" + (naming ? "stream_" : "partition") + std::to_string(part_) : dir;
    struct stat s1, s2;
    if (stat(b, &s1) || stat(want.c_str(), &s2) || s1.st_ino != s2.st_ino) mc_fail("working directory of rank %d is %s, not %s", world, b, want.c_str());
    std::ofstream(std::string("own")) << "key " << 50 + part_ << "\n";
    mc_barrier();
    CoordinateVector size; foralldir(d) size[d] = 4;
    lattice.setup(size);
    same("number of sites", (long)lattice.volume(), 16L);
    long *all = (long *)mc_shared(mc_nranks() * 8 * sizeof(long));
    hila::seed_random(1234);
    for (int i = 0; i < 4; i++) all[world * 8 + i] = (long)(hila::random() * 1e15);
    all[world * 8 + 4] = lattice->mynode.volume;
    mc_barrier();
    std::set<long> u; long sites = 0;
    for (int r = 0; r < mc_nranks(); r++) { for (int i = 0; i < 4; i++) u.insert(all[r * 8 + i]); if (r / np == part_) sites += all[r * 8 + 4]; }
    same("number of different random numbers of all ranks", u.size(), (size_t)mc_nranks() * 4);
    same("sites of the ranks of a partition", sites, 16L);
    partop(0, part_);
    auto &q = seq[part_ % nseq];
    for (int i = 0; i < (int)q.size(); i++) partop(q[i], i + part_);
    hila::synchronize_partitions();
    if (P > 1) {
        hila::out0 << "OUT" << part_ << std::endl;
        hila::out << "ALL" << world << std::endl;
        mc_barrier();
        std::ifstream o("output"); std::string t((std::istreambuf_iterator<char>(o)), std::istreambuf_iterator<char>());
        for (int p = 0; p < P; p++) if ((t.find("OUT" + std::to_string(p)) != std::string::npos) != (p == part_)) mc_fail("output of partition %d in that of %d", p, part_);
        for (int r = 0; r < mc_nranks(); r++) if ((t.find("ALL" + std::to_string(r)) != std::string::npos) != (r / np == part_)) mc_fail("output of rank %d in that of partition %d", r, part_);
    }
    mc_state(mc_hash(mc_hash(P, naming), std::hash<std::string>()(std::to_string(part_))));
}
HARNESS_MAIN {
    int depth = mc_param("depth", 2);
    if (mc_param("mode", 0)) { part_main(depth); return 0; }
    hila::initialize(argc, argv);
    CoordinateVector size; foralldir(d) size[d] = 4;
    lattice.setup(size);
    world = me = hila::myrank(); np = hila::number_of_nodes();
    same("rank", me, mc_rank()); same("number of ranks", np, mc_nranks());
    unsigned long h = 0;
    for (int i = 0; i < depth; i++) {
        int op = mc_global_choose(NOPS, "operation"), k = mc_global_choose(np * (op == 8 ? np : 2), "root");
        valueop(op, k);
        h = mc_hash(h, op * 100 + k);
        mc_state(h);
    }
    return 0;
}
