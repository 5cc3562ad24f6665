// Writing fields to files and reading them back: every small lattice, chunk sizes smaller than the lattice, boxes and slices,
// and truncated files.  The expected file content is produced from the reference.
#include "hila.h"
#include "common.h"
#include "elem.h"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

static const char *dir;
static std::string file(const char *n) { return std::string(dir) + "/" + n; }

static std::string slurp(const std::string &n) {
    std::ifstream f(n, std::ios::binary);
    if (!f) mc_fail("file %s does not exist", n.c_str());
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
static void need(const std::string &n, const std::string &expect, const char *what) {
    mc_barrier();
    if (hila::myrank() == 0) {
        std::string got = slurp(n);
        if (got != expect) mc_fail("%s: file has %zu bytes, expected %zu, or other content", what, got.size(), expect.size());
        mc_compared(expect.size());
    }
    mc_barrier();
}
static std::string bin(const T &t) { return std::string((const char *)&t, sizeof(T)); }
using A_t = hila::arithmetic_type<T>;
static const int NEL = sizeof(T) / sizeof(A_t);
static std::string text(const T &t, int prec) {
    std::stringstream ss;
    ss.precision(prec);
    T u = t;
    for (int i = 0; i < NEL; i++) ss << ((A_t *)&u)[i] << ' ';
    return ss.str() + "\n";
}
static std::string flt(const T &t) {
    std::string r;
    T u = t;
    for (int i = 0; i < NEL; i++) { float f = ((A_t *)&u)[i]; r += std::string((char *)&f, sizeof f); }
    return r;
}
static bool inbox(long i, const CoordinateVector &a, const CoordinateVector &b) {
    CoordinateVector c = crd(i);
    foralldir(d) if (c[d] < a[d] || c[d] > b[d]) return false;
    return true;
}
static int phase;
static void on_exit_(int kind, int code) {
    if (phase != 1 || kind != 1 || code == 0) mc_fail("the program ended with code %d in phase %d", code, phase);
    mc_compared(1);
}

HARNESS_MAIN {
    hila::initialize(argc, argv);
    dir = mc_rundir();
    choose_lattice();
    Field<T> f, g, h;
    Ref r, r2, r3;
    fill(f, r, 1);
    fill(g, r2, 2);
    std::string all, all2;
    for (long i = 0; i < V; i++) all += bin(mk<T>(r[i])), all2 += bin(mk<T>(r2[i]));
    int parts = mc_param("parts", 6), part = mc_global_choose(parts, "part");
    switch (part) {
    case 0: { // whole field, binary, site order x fastest, and back
        f.write(file("a"));
        need(file("a"), all, "write");
        h.read(file("a"));
        compare(h, r, "read");
        compare(f, r, "field after write");
        // into a field with content and halos
        Field<T> n;
        n[ALL] = g[X + e_x];
        g.read(file("a"));
        compare(g, r, "read into a used field");
        n[ALL] = g[X + e_x];
        for (auto &x : r3) x = 0;
        r3.resize(V);
        for (long i = 0; i < V; i++) r3[i] = r[idx((crd(i) + e_x).mod(S))];
        compare(n, r3, "neighbours after read");
        // replacing a longer file
        {
            std::ofstream o;
            hila::open_output_file(file("a"), o);
            f.write(o);
            f.write(o);
            f.write(o);
            hila::close_file(file("a"), o);
        }
        need(file("a"), all + all + all, "three writes to one stream");
        f.write(file("a"));
        need(file("a"), all, "write over an existing file");
        break;
    }
    case 1: { // several fields in one file
        write_fields(file("b"), f, g, f);
        need(file("b"), all + all2 + all, "write_fields");
        Field<T> x, y, z;
        read_fields(file("b"), x, y, z);
        compare(x, r, "read_fields 1");
        compare(y, r2, "read_fields 2");
        compare(z, r, "read_fields 3");
        break;
    }
    case 2: { // text form
        int prec = 3 + mc_global_choose(2, "precision") * 9;
        f.write(file("c"), false, prec);
        std::string t;
        for (long i = 0; i < V; i++) {
            std::stringstream ss;
            ss.precision(prec);
            ss << mk<T>(r[i]) << '\n';
            t += ss.str();
        }
        need(file("c"), t, "text write");
        break;
    }
    case 3: // boxes
        for (long i = 0; i < V; i++) for (long j = i; j < V; j++) {
            CoordinateVector a = crd(i), b = crd(j);
            bool ok = true;
            foralldir(d) if (a[d] > b[d]) ok = false;
            if (!ok) continue;
            std::string t, bi, fl;
            for (long k = 0; k < V; k++) if (inbox(k, a, b)) { t += text(mk<T>(r[k]), 6); bi += bin(mk<T>(r[k])); fl += flt(mk<T>(r[k])); }
            f.write_subvolume(file("d"), a, b);
            need(file("d"), t, "write_subvolume");
            f.write_subvolume_binary(file("d"), a, b);
            need(file("d"), bi, "write_subvolume_binary");
            f.write_subvolume_binary(file("d"), a, b, true);
            need(file("d"), fl, "write_subvolume_binary to float");
        }
        break;
    case 4: { // slices
        long n = 1;
        foralldir(d) n *= S[d] + 1;
        for (long i = 0; i < n; i++) {
            CoordinateVector c, a, b;
            long k = i;
            foralldir(d) { c[d] = k % (S[d] + 1) - 1; k /= S[d] + 1; }
            foralldir(d) { a[d] = c[d] < 0 ? 0 : c[d]; b[d] = c[d] < 0 ? S[d] - 1 : c[d]; }
            std::string t, bi;
            for (long k = 0; k < V; k++) if (inbox(k, a, b)) { t += text(mk<T>(r[k]), 4); bi += bin(mk<T>(r[k])); }
            f.write_slice(file("e"), c, 4);
            need(file("e"), t, "write_slice");
            f.write_slice_binary(file("e"), c);
            need(file("e"), bi, "write_slice_binary");
        }
        break;
    }
    case 5: { // a field of a smaller lattice fills this one periodically
        CoordinateVector in;
        long v = 1;
        foralldir(d) {
            std::vector<int> divs;
            for (int k = 1; k <= S[d]; k++) if (S[d] % k == 0) divs.push_back(k);
            in[d] = divs[mc_global_choose(divs.size(), "size in the file")];
            v *= in[d];
        }
        if (hila::myrank() == 0) {
            std::ofstream o(file("g"), std::ios::binary);
            for (long i = 0; i < v; i++) o << bin(mk<T>(300 + i));
        }
        mc_barrier();
        std::ifstream s;
        hila::open_input_file(file("g"), s);
        h.read(s, in);
        hila::close_file(file("g"), s);
        r3.resize(V);
        for (long i = 0; i < V; i++) {
            long k = 0;
            CoordinateVector c = crd(i);
            for (int d = NDIM - 1; d >= 0; d--) k = k * in[d] + c[d] % in[d];
            r3[i] = 300 + k;
        }
        compare(h, r3, "read of a smaller lattice");
        break;
    }
    case 6: { // a file of any shorter length is refused; with trailing data it is accepted
        f.write(file("h"));
        mc_barrier();
        long len = mc_global_choose((int)all.size() + 2, "file length");
        if (hila::myrank() == 0) {
            if (len <= (long)all.size()) { if (truncate(file("h").c_str(), len)) mc_fail("truncate"); }
            else { std::ofstream o(file("h"), std::ios::app); o << "x"; }
        }
        mc_barrier();
        mc_on_exit(on_exit_);
        bool shrt = len < (long)all.size();
        phase = shrt ? 1 : 2;
        mc_expect_exit(shrt ? 2 : 0);
        h.read(file("h"));
        mc_expect_exit(0);
        if (shrt) mc_fail("a file of %ld of %zu bytes was accepted", len, all.size());
        compare(h, r, "read");
        break;
    }
    case 7: { // the disk is full before all is written: the program ends with an error on all ranks
        int op = mc_global_choose(8, "operation");
        CoordinateVector a, b, c;
        foralldir(d) { a[d] = 0; b[d] = S[d] - 1; c[d] = -1; }
        std::string t6, t4, t8, fl;
        for (long k = 0; k < V; k++) {
            t6 += text(mk<T>(r[k]), 6), t4 += text(mk<T>(r[k]), 4), fl += flt(mk<T>(r[k]));
            std::stringstream ss;
            ss.precision(8);
            ss << mk<T>(r[k]) << '\n';
            t8 += ss.str();
        }
        std::string want = op == 0 || op == 4 || op == 7 ? all : op == 1 ? all + all2 : op == 2 ? t8 : op == 3 ? t6 : op == 5 ? fl : t4;
        long n = want.size(), rooms[] = {0, 1, n / 3, n - 2, n - 1, n}, room = rooms[mc_global_choose(6, "room")];
        mc_disk_space(room);
        mc_on_exit(on_exit_);
        phase = room < n ? 1 : 2;
        mc_expect_exit(room < n ? 2 : 0);
        std::string name = file("full");
        switch (op) {
        case 0: f.write(name); break;
        case 1: write_fields(name, f, g); break;
        case 2: f.write(name, false); break;
        case 3: f.write_subvolume(name, a, b); break;
        case 4: f.write_subvolume_binary(name, a, b); break;
        case 5: f.write_subvolume_binary(name, a, b, true); break;
        case 6: f.write_slice(name, c, 4); break;
        case 7: f.write_slice_binary(name, c); break;
        }
        mc_expect_exit(0);
        if (room < n) mc_fail("operation %d: %ld bytes were to be written with room for %ld, and no error is given", op, n, room);
        need(name, want, "file which just fits");
        break;
    }
    }
    mc_on_exit(nullptr);
    return 0;
}
