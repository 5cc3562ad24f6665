// hila::input: every sequence of parameters in every way of writing them is read back on every rank; wrong files are refused;
// -p and -i of the command line; closing, reopening and use of several files
#include "hila.h"
#include "common.h"
#include <unistd.h>
using Strs = std::vector<std::string>;
struct Ent {   // a parameter: how it is written and what it is
    std::string key;
    Strs tok;            // value tokens, "," between the items
    int kind;
    std::vector<double> num;
    Strs str;
};
enum { INT, LONG, DBL, FLT, STR, CPLX, CV, VECI, VECD, LISTI, LISTD, LISTS, LISTC, ITEM, ITEMF, ITEMI, ITEMS, GETSTR, NKIND };
#define name (std::string(mc_rundir()) + "/in")   // of this execution: not to be used before the last choice
static std::vector<Ent> ents;
static void scalar(int kind, const char *key, const char *v) { ents.push_back({key, {v}, kind, {strtod(v, nullptr)}, {}}); }
static void list(int kind, const char *key, Strs v) {
    Ent e{key, {}, kind, {}, {}};
    for (auto &s : v) {
        if (e.tok.size()) e.tok.push_back(",");
        e.tok.push_back(s);
        e.num.push_back(strtod(s.c_str(), nullptr));
        e.str.push_back(s.size() && s[0] == '"' ? s.substr(1, s.size() - 2) : s);
    }
    ents.push_back(e);
}
static void setup_entries() {
    scalar(INT, "a", "5");
    scalar(INT, "number of cats", "-2147483647");
    scalar(LONG, "a b", "123456789012345");
    scalar(DBL, "a", "0.1");
    scalar(DBL, "a  b c", "-1.5e-7");
    scalar(FLT, "beta2", "+2.5");
    list(STR, "file", {"out/run.dat"});
    list(STR, "file name", {"\"two words, # and commas\""});
    list(STR, "empty", {"\"\""});
    list(STR, "name", {"x(1)=[3];'q'"});
    ents.push_back({"phase", {"(", "0.4", ",", "-0.5", ")"}, CPLX, {0.4, -0.5}, {}});
    ents.push_back({"beta", {"(", "1", ",", "2e3", ")"}, CPLX, {1, 2e3}, {}});
    list(CV, "lattice size", NDIM == 2 ? Strs{"8", "12"} : Strs{"8", "12", "6"});
    list(VECI, "v", {"1", "-2", "3"});
    list(VECD, "v d", {"0.25", "1e30"});
    list(LISTI, "l", {"7"});
    list(LISTI, "l", {"7", "8", "-9", "10"});
    list(LISTD, "beta 2", {"0.1", ".5", "-3"});
    list(LISTS, "names", {"x", "\"y z\"", "w"});
    ents.push_back({"lc", {"(", "1", ",", "-2", ")", ",", "(", "3", ",", "4.5", ")"}, LISTC, {1, -2, 3, 4.5}, {}});
    ents.push_back({"colour", {"green"}, ITEM, {1}, {}});
    ents.push_back({"colour", {"red"}, ITEM, {0}, {}});
    ents.push_back({"colour", {"dark", " ", "red"}, ITEM, {2}, {}});
    ents.push_back({"c_sw", {"1.343"}, ITEMF, {1.343}, {}});
    ents.push_back({"c_sw", {"tree"}, ITEMF, {0}, {"x"}});
    ents.push_back({"steps", {"-17"}, ITEMI, {-17}, {}});
    ents.push_back({"other", {"any#"}, ITEMS, {2}, {"any"}});
    ents.back().tok[0] = "any";
    list(STR, "", {"bare"});
    scalar(INT, "", "42");
}
// ways of writing a parameter
static std::string text(const Ent &e, int f, bool last) {
    std::string s, sp, key = e.key;
    bool nl = false;   // line ended
    switch (f) {
    case 0: s = key + " "; for (auto &t : e.tok) s += t; return s + "\n";
    case 1:   // spaces around everything, other spaces in the key, comment
        for (char c : key) s += c == ' ' ? "   " : std::string(1, c);
        s = "  " + s + "\t\t ";
        for (auto &t : e.tok) s += " " + t + "  ";
        return s + "# comment, 3 \"\n";
    case 2:   // comments and empty lines before, every item on a new line
        s = "# " + key + " 77\n\n   #x\n \t\n" + key + "   ";
        for (auto &t : e.tok) s += t + (t == "," ? "\n  # 4,\n\t " : "");
        return s + "\n\n";
    case 3:   // tabs, documented way of writing pairs and lists, no newline at the end of the file
        for (char c : key) s += c == ' ' ? "\t" : std::string(1, c);
        s += "\t";
        for (auto &t : e.tok) s += t == "," ? ", " : t;
        return s + (last ? "" : " \n");
    case 4:   // comment directly after the value
        s = key + " ";
        for (auto &t : e.tok) s += t == "," ? " ," : t;
        return s + "#c\n";
    }
    return s;
}
static const int NF = 5;
static std::string g_what;
static std::string show(std::string s) {
    std::string o;
    for (char c : s) o += c == '\n' ? std::string("\\n") : c == '\t' ? std::string("\\t") : std::string(1, c);
    return o;
}
#define BAD(...) do { char b_[300]; snprintf(b_, sizeof b_, __VA_ARGS__); mc_fail("%s: %s", show(g_what).c_str(), b_); } while (0)
template <typename A>
static void num(const std::vector<double> &want, const A &got, size_t n, const Ent &e) {
    if (n != want.size()) BAD("'%s' has %zu values instead of %zu", e.key.c_str(), n, want.size());
    for (size_t i = 0; i < n; i++) {
        using V = std::decay_t<decltype(got[i])>;
        if (got[i] != (V)want[i]) BAD("'%s' item %zu is %.17g, the file has %.17g", e.key.c_str(), i, (double)got[i], want[i]);
    }
    mc_compared(n);
}
template <typename A>
static A one(hila::input &f, const std::string &key, bool getv) {
    if (!getv) { A v = f.get(key); return v; }
    A v;
    if (!f.get_value(v, key)) BAD("get_value('%s') failed", key.c_str());
    return v;
}
static void str(const std::string &got, const std::string &want, const Ent &e) {
    if (got != want) BAD("'%s' is \"%s\", the file has \"%s\"", e.key.c_str(), got.c_str(), want.c_str());
    mc_compared(1);
}
static void read(hila::input &f, const Ent &e, bool gv, const std::string &key) {
    std::vector<double> x;
    switch (e.kind) {
    case INT: { int v[1] = {one<int>(f, key, gv)}; num(e.num, v, 1, e); break; }
    case LONG: {
        long v = one<long>(f, key, gv);
        if (v != strtol(e.tok[0].c_str(), nullptr, 10)) BAD("'%s' is %ld", e.key.c_str(), v);
        break;
    }
    case DBL: { double v[1] = {one<double>(f, key, gv)}; num(e.num, v, 1, e); break; }
    case FLT: { float v[1] = {one<float>(f, key, gv)}; num(e.num, v, 1, e); break; }
    case STR: str(one<std::string>(f, key, gv), e.str[0], e); break;
    case CPLX: { auto z = one<Complex<double>>(f, key, gv); double v[2] = {z.re, z.im}; num(e.num, v, 2, e); break; }
    case CV: { auto c = one<CoordinateVector>(f, key, gv); int v[NDIM]; foralldir(d) v[d] = c[d]; num(e.num, v, NDIM, e); break; }
    case VECI: { auto c = one<Vector<3, int>>(f, key, gv); int v[3] = {c[0], c[1], c[2]}; num(e.num, v, 3, e); break; }
    case VECD: { auto c = one<Vector<2, double>>(f, key, gv); double v[2] = {c[0], c[1]}; num(e.num, v, 2, e); break; }
    case LISTI: { auto v = one<std::vector<int>>(f, key, gv); num(e.num, v, v.size(), e); break; }
    case LISTD: { auto v = one<std::vector<double>>(f, key, gv); num(e.num, v, v.size(), e); break; }
    case LISTC: {
        auto v = one<std::vector<Complex<double>>>(f, key, gv);
        for (auto &z : v) { x.push_back(z.re); x.push_back(z.im); }
        num(e.num, x, x.size(), e);
        break;
    }
    case LISTS: {
        auto v = one<Strs>(f, key, gv);
        if (v.size() != e.str.size()) BAD("'%s' has %zu strings", e.key.c_str(), v.size());
        for (size_t i = 0; i < v.size(); i++) str(v[i], e.str[i], e);
        break;
    }
    case ITEM: { double v[1] = {(double)f.get_item(key, {"red", "green", "dark red", "r"})}; num(e.num, v, 1, e); break; }
    case ITEMF: {
        int i = f.get_item(key, {"tree", "perturbative", "%f"});
        if (e.str.size()) { if (i != 0) BAD("item of '%s' is %d", key.c_str(), i); break; }
        if (i != 2) BAD("item of '%s' is %d, not 2", key.c_str(), i);
        double v[1] = {one<double>(f, "", gv)};
        num(e.num, v, 1, e);
        break;
    }
    case ITEMI: {
        int i = f.get_item(key, {"off", "%i", "%f"});
        if (i != 1) BAD("item of '%s' is %d, not 1", key.c_str(), i);
        int v[1] = {one<int>(f, "", gv)};
        num(e.num, v, 1, e);
        break;
    }
    case ITEMS: {
        int i = f.get_item(key, {"%f", "tree", "%s"});
        if (i != 2) BAD("item of '%s' is %d, not 2", key.c_str(), i);
        str(one<std::string>(f, "", gv), e.str[0], e);
        break;
    }
    }
}
static void write(const std::string &txt, const std::string &nm = name) {
    mc_barrier();
    if (hila::myrank() == 0) {
        FILE *f = fopen(nm.c_str(), "w");
        fwrite(txt.data(), 1, txt.size(), f);
        fclose(f);
    }
    mc_barrier();
}
// keys may be asked for with other whitespace
static std::string ask(const std::string &k, int i) { return i % 3 == 1 ? " " + k : i % 3 == 2 ? k + " " : k; }

static void sequences(int depth) {
    int n = ents.size() * NF;
    long total = 1;
    for (int i = 1; i < depth; i++) total *= n;
    int first = mc_global_choose(n, "first parameter");
    int part = depth > 2 ? mc_global_choose(n, "second") : 0;
    if (depth > 2) total /= n;
    for (long c = 0; c < total; c++) {
        long k = c;
        std::vector<int> q{first};
        if (depth > 2) q.push_back(part);
        while ((int)q.size() < depth) { q.push_back(k % n); k /= n; }
        std::string t;
        for (int i = 0; i < depth; i++) t += text(ents[q[i] / NF], q[i] % NF, i == depth - 1);
        g_what = t;
        write(t);
        hila::input f;
        if (mc_param("talk", 0)) hila::out0 << "FILE " << show(t) << '\n';
        f.quiet(!mc_param("talk", 0));
        if (!f.open(name)) BAD("open failed");
        for (int i = 0; i < depth; i++) {
            auto &e = ents[q[i] / NF];
            // parameters the file does not have here: refused, and the line can be read with its own key
            if (c % 4 == 1 && e.key.size()) {
                int v = 0;
                for (const char *other : {"zz", "num", "a b d", "lattice sizes", "beta 3"}) {
                    if (f.get_value(v, other) != false) BAD("get_value(\"%s\") succeeded where the file has '%s'", other, e.key.c_str());
                }
            }
            read(f, e, (c + i) & 1, e.key.size() ? ask(e.key, c + i) : e.key);
        }
        int v;
        if (f.get_value(v, "end")) BAD("value after the end of the file");
        if (c % 3 == 0) f.close();
    }
}

// files with a mistake: get() ends the program on every rank, get_value() returns false on every rank
struct Wrong { const char *txt; int kind; };
static const Wrong WRONG[] = {
    {"", INT}, {"\n# k 5\n", INT}, {"k\n", INT}, {"k", INT}, {"k x", INT}, {"k \"5\"", INT}, {"k ,5", INT}, {"kk 5", INT}, {"k2 5", INT}, {"k_ 5", INT}, {"k= 5", INT},
    {"j 5\nk 5", INT}, {"K 5", INT}, {"k # 5\n", INT}, {"k 5.5", INT}, {"k 1e3", INT}, {"k 5x", INT}, {"k 99999999999", INT}, {"k 5;", LONG}, {"k abc", DBL}, {"k 1.5abc", DBL}, {"k 1,5", CPLX},
    {"k (1,2", CPLX}, {"k 1,2)", CPLX}, {"k (1 2)", CPLX}, {"k (1)", CPLX}, {"k (x,1)", CPLX}, {"k (1,)", CPLX}, {"k 1", CPLX}, {"k 3", CV}, {"k 3,", CV}, {"k 3 4", CV}, {"k 3,x", CV}, {"k 1,2", VECI},
    {"k 1,,2", VECI}, {"k 1,2,3.5", VECI}, {"k 1,2,\nx 3", VECI}, {"k 1", VECD}, {"k 1,x", LISTI}, {"k 1,", LISTI}, {"k 1,2,\nm 3", LISTI}, {"k x,2", LISTD}, {"k 1,,2", LISTD}, {"k 1;2", LISTD},
    {"k blue", ITEM}, {"k redd", ITEM}, {"k gree", ITEM}, {"k Red", ITEM}, {"k", ITEM}, {"k 3.0", ITEM}, {"k abcd", ITEMF}, {"k 1.5x", ITEMF}, {"j tree", ITEMF}, {"k x", ITEMI}, {"", STR}, {"k", STR}, {"j x", STR}, {"k", LISTS},
};
static void wrong() {
    int n = sizeof WRONG / sizeof *WRONG;
    int w = mc_global_choose(n, "file"), how = mc_global_choose(2, "get or get_value"), pre = mc_global_choose(2, "parameter before");
    Ent e;
    for (auto &x : ents) if (x.kind == WRONG[w].kind) e = x;
    if (e.kind == ITEMF) e.str.clear();
    e.key = "k";
    g_what = std::string(pre ? "first 1\n" : "") + WRONG[w].txt;
    write(g_what);
    hila::input f(name);
    if (pre && one<int>(f, "first", false) != 1) BAD("first value");
    if (how == 0 || e.kind >= ITEM) {
        mc_expect_exit(2);
        read(f, e, false, "k");
        mc_fail("%s: was accepted", show(g_what).c_str());
    } else {
        bool ok = true;
        if (e.kind == INT) { int v; ok = f.get_value(v, "k"); }
        if (e.kind == LONG) { long v; ok = f.get_value(v, "k"); }
        if (e.kind == DBL) { double v; ok = f.get_value(v, "k"); }
        if (e.kind == STR) { std::string v; ok = f.get_value(v, "k"); }
        if (e.kind == CPLX) { Complex<double> v; ok = f.get_value(v, "k"); }
        if (e.kind == CV) { CoordinateVector v; ok = f.get_value(v, "k"); }
        if (e.kind == VECI) { Vector<3, int> v; ok = f.get_value(v, "k"); }
        if (e.kind == VECD) { Vector<2, double> v; ok = f.get_value(v, "k"); }
        if (e.kind == LISTI) { std::vector<int> v; ok = f.get_value(v, "k"); }
        if (e.kind == LISTD) { std::vector<double> v; ok = f.get_value(v, "k"); }
        if (e.kind == LISTS) { Strs v; ok = f.get_value(v, "k"); }
        if (ok) BAD("get_value() returned true");
        mc_compared(1);
    }
}

static void args(Strs a) {
    static std::vector<std::string> keep;
    static std::vector<char *> p;
    keep = a;
    keep.insert(keep.begin(), "prog");
    p.clear();
    for (auto &s : keep) p.push_back(&s[0]);
    p.push_back(nullptr);
    hila::cmdline.initialise_args(keep.size(), p.data());
}
// -p key value: every subset of parameters overridden, in every order, for three files read one after another
static void overrides() {
    struct { const char *key, *file, *arg; double fv, av; } par[] = {
        {"a", "1", "10", 1, 10}, {"a b", "2", "-20", 2, -20}, {"v", "3, 4", "30 , 40", 3, 30}, {"s", "x", "\"y, z\"", 5, 50}, {"a", "6", "60.5", 6, 60.5}};
    int np = 5, perm = mc_global_choose(6, "order"), sub = mc_global_choose(1 << np, "overridden"), ifile = mc_global_choose(2, "-i"), extra = mc_global_choose(3, "unused");
    Strs av;
    std::string file1 = name;
    if (ifile) { av.push_back("-i"); av.push_back(name + "i"); }
    int order[6][5] = {{0, 1, 2, 3, 4}, {4, 3, 2, 1, 0}, {2, 0, 4, 1, 3}, {1, 2, 0, 4, 3}, {3, 4, 2, 0, 1}, {0, 4, 3, 1, 2}};
    bool used[5] = {};
    std::vector<double> a_args;   // the values given for key a, in the order of the command line
    for (int i : order[perm]) if (sub >> i & 1) {
        av.push_back("-p"); av.push_back(par[i].key); av.push_back(par[i].arg);
        used[i] = true;
        if (i == 0 || i == 4) a_args.push_back(par[i].av);
    }
    if (extra == 1) { av.push_back("-p"); av.push_back("nokey"); av.push_back("1"); }
    args(av);
    std::string t;
    for (int i = 0; i < np; i++) t += std::string(par[i].key) + "  " + par[i].file + "  # c\n";
    write(t + "end 7\n");
    write(t + "end 8\n", name + "i");
    g_what = t;
    for (auto &s : av) g_what += " " + s;
    if (extra == 2) {   // override of a parameter which the file does not have: no effect on the error
        mc_expect_exit(2);
        hila::input f(name);
        int v = f.get("nokey");
        BAD("get of a missing key gave %d", v);
    }
    for (int file = 0; file < 2; file++) {
        hila::input f;
        f.quiet(file);
        f.open(name);
        size_t na = 0;
        auto want = [&](int i) { return file == 0 && used[i] ? par[i].av : par[i].fv; };
        double a = f.get("a");
        double wa = file == 0 && a_args.size() ? a_args[na++] : 1;
        if (a != wa) BAD("a is %g instead of %g in file %d", a, wa, file);
        int ab = f.get("a b");
        if (ab != want(1)) BAD("a b is %d instead of %g in file %d", ab, want(1), file);
        std::vector<double> v = f.get("v");
        if (v.size() != 2 || v[0] != want(2) || v[1] != (want(2) == 3 ? 4 : 40)) BAD("v is %g in file %d", v[0], file);
        std::string s = f.get("s");
        if (s != (want(3) == 5 ? "x" : "y, z")) BAD("s is %s in file %d", s.c_str(), file);
        double a2 = f.get("a");
        double wa2 = file == 0 && na < a_args.size() ? a_args[na++] : 6;
        if (a2 != wa2) BAD("second a is %g instead of %g in file %d", a2, wa2, file);
        int e = f.get("end");
        if (e != (ifile && file == 0 ? 8 : 7)) BAD("read the wrong file (end %d)", e);
        mc_compared(6);
        if (extra == 1 && file == 0) {
            mc_expect_exit(2);
            f.close();
            BAD("unused -p was accepted");
        }
        f.close();
    }
}
// two input variables and two files: every sequence of operations, against a list of the remaining lines
static void histories() {
    int depth = mc_param("depth", 5), first = mc_global_choose(14, "first operation");
    const std::string f1 = name, f2 = name + "2", f3 = name + "none";
    write("a 1\nb 2\nc 3, 4\n", f1);
    write("c 30, 40\na 10\nb 20", f2);
    struct Ref { bool open = false; int file = 0, pos = 0; };
    static const char *keys[2][3] = {{"a", "b", "c"}, {"c", "a", "b"}};
    static const int vals[2][3] = {{1, 2, 3}, {30, 10, 20}};
    long total = 1;
    for (int i = 1; i < depth; i++) total *= 14;
    for (long c = 0; c < total; c++) {
        Ref r[2];
        hila::input f[2];
        f[0].quiet();
        f[1].quiet();
        long k = c;
        g_what.clear();
        for (int st = 0; st < depth; st++) {
            int q = st ? k % 14 : first, i = q / 7, op = q % 7;
            if (st) k /= 14;
            auto &R = r[i];
            g_what += std::string(1, '0' + i) + ":" + std::string(1, '0' + op) + " ";
            if (op < 2) {
                bool ok = f[i].open(op ? f2 : f1, false, false);
                if (ok == R.open) BAD("open() returned %d", ok);
                if (!R.open) { R.open = true; R.file = op; R.pos = 0; }
            } else if (op == 2) {
                if (f[i].open(f3, false, false)) BAD("open() of a file which is not there");
            } else if (op == 3) {
                f[i].close();
                R.open = false;
            } else if (R.open) {
                std::string key(1, 'a' + op - 4);
                bool want = R.pos < 3 && key == keys[R.file][R.pos], ok;
                int got;
                if (key == "c") {
                    Vector<2, int> v;
                    ok = f[i].get_value(v, key);
                    got = v[0];
                    if (ok && v[1] != (R.file ? 40 : 4)) BAD("second item %d", v[1]);
                } else ok = f[i].get_value(got, key);
                if (ok != want) BAD("get_value('%s') returned %d", key.c_str(), ok);
                if (ok) {
                    if (got != vals[R.file][R.pos]) BAD("'%s' is %d instead of %d", key.c_str(), got, vals[R.file][R.pos]);
                    R.pos++;
                }
            } else break;
            mc_compared(1);
            unsigned long s = 0;
            for (auto &x : r) s = mc_hash(s, (x.open * 2 + x.file) * 4 + x.pos);
            mc_state(s);
        }
    }
}
HARNESS_MAIN {
    int mode = mc_param("mode", 0);
    hila::initialize(argc, argv);
    setup_entries();
    if (mode == 0) sequences(mc_param("depth", 2));
    if (mode == 1) wrong();
    if (mode == 2) overrides();
    if (mode == 3) histories();
    return 0;
}
