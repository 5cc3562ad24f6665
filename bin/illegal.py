"""Enumerates site loops hilapp has to refuse (and their neighbours it has to accept) for H02.  A case is built from a rule,
a place in which the offending statement stands, and variants of the statement; whether it is legal follows from the way it is built."""
import itertools, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcbuild

GLOBALS = r'''
#include "hila.h"
using Vec2 = Vector<2, double>;
inline void addto(double &t, double s) { t += s; }
inline void setto(out_only double &t, double s) { t = s; }
inline double cref(const double &t) { return t + 1; }
template <typename A, typename B> inline void tadd(A &t, const B &s) { t += s; }
inline void noconst2(double s, double &t) { t = s; }
double glob = 1; int globi = 1; extern double globe; constexpr int gconst = 3; Field<double> globf;
struct Obj { double g; double get() const { return g; } void set(double t) { g = t; } };
'''
ARGS = ("Field<double> &a, Field<double> &b, Field<double> &c, Field<int> &n, Field<Vec2> &v, Field<Vec2> &u, Field<Complex<double>> &z, Field<double> (&w)[NDIM], "
        "Direction d1, CoordinateVector off, int k, double x, Parity par, double (&arr)[8], std::vector<double> vec, std::array<double, 8> sarr, Obj o, Vec2 vv")

CASES, THOROUGH = [], False


def C(rule, body, legal):
    CASES.append((rule, body, legal))


PLACE = [   # how the offending statement stands in the loop
    "onsites(%P) %S", "onsites(%P) { %S }", "onsites(%P) { c[X] = 1; %S }", "onsites(%P) { %S c[X] += 2; }", "onsites(%P) { if (k > 0) { %S } }",
    "onsites(%P) { if (n[X] > 0) c[X] = 2; else { %S } }", "onsites(%P) { for (int i = 0; i < 2; i++) { %S } }", "onsites(%P) { { { %S } } }",
    "for (int i = 0; i < 2; i++) { onsites(%P) { %S } }", "onsites(%P) { int j = 0; while (j < 2) { j++; %S } }",
    "onsites(%P) { switch (k) { case 1: c[X] = 1; break; default: %S } }", "onsites(%P) { do { %S } while (k < 0); }",
    "auto lam = [&]() { onsites(%P) { %S } }; lam();", "foralldir(d) { onsites(%P) { %S } }",
]


def placed(rule, stmt, legal, par="ALL", places=PLACE):
    if THOROUGH:
        places = PLACE if places[0] == PLACE[0] else PLACE[1:]
        if legal and "double y_" in stmt:
            places = PLACE[1:]
    for p in places:
        C(rule, p.replace("%P", par).replace("%S", stmt), legal)


def build(thorough=False):
    global THOROUGH
    THOROUGH = thorough
    CASES.clear()
    # 1. a field written and read at a neighbour in a loop over all sites
    writes = ["a[X] = %E;", "a[X] += %E;", "a[X] *= 2 + %E;", "addto(a[X], %E);", "setto(a[X], %E);", "tadd(a[X], %E);", "a[X] = b[X] = %E;", "if (%E > 0) a[X] = 1;",
              "double t_ = %E; a[X] = t_;", "a[X] = (k > 0 ? %E : b[X]);", "a[X] -= cref(%E);"]
    reads = ["a[X + e_x]", "a[X - e_y]", "a[X + d1]", "a[X - d1]", "a[X + opp_dir(d1)]", "a[X + -e_x]", "(a[X + e_x] + b[X])", "b[X] * a[X - e_x]"]
    ok = ["u[X + e_x].e(1)", "a[X]", "w[0][X - d1] + a[X]", "a[X + off]", "c[X + d1]"]
    for w in writes:
        for par in ("ALL", "EVEN", "ODD", "par"):
            for r in reads:
                C("neighbour", "onsites(%s) { %s }" % (par, w.replace("%E", r)), par != "ALL")
            for r in ok:
                C("neighbour", "onsites(%s) { %s }" % (par, w.replace("%E", r)), True)
    for par in ("ALL", "EVEN"):
        for f in ("a[%s] = a[X + e_x];", "a[%s] += b[X] - a[X - d1];", "a[%s] = b[X + d1] + a[X + d1];"):
            C("neighbour", f % par, par != "ALL")
        for x, y in (("a[X] = 1;", "b[X] = a[X + e_x];"), ("a[X] += b[X];", "if (a[X + d1] > 0) c[X] = 1;"), ("addto(a[X], 1);", "c[X] = cref(a[X - e_y]);")):
            for p in PLACE[1:]:
                for s in (x + " " + y, y + " " + x):
                    C("neighbour", p.replace("%P", par).replace("%S", s.replace("c[X] = 1", "b[X] = 1").replace("c[X] =", "b[X] =")), par != "ALL")
        C("neighbour", "onsites(%s) { v[X].c[0] = v[X + e_x].c[1]; }" % par, par != "ALL")
        C("neighbour", "onsites(%s) { v[X].e(0) = v[X + e_x].e(1); }" % par, par != "ALL")
        C("neighbour", "onsites(%s) { v[X] += u[X]; u[X] = v[X - e_y]; }" % par, par != "ALL")
        C("neighbour", "onsites(%s) { z[X].re = z[X + e_x].im; }" % par, par != "ALL")
        C("neighbour", "foralldir(d) { onsites(%s) { w[d][X] = w[d][X + d]; } }" % par, par != "ALL")
        C("neighbour", "onsites(%s) { w[e_x][X] = w[e_x][X + e_y]; }" % par, par != "ALL")
        C("neighbour", "onsites(%s) { w[0][X] = w[0][X + e_y]; }" % par, par != "ALL")
        C("neighbour", "onsites(%s) { n[X]++; c[X] = n[X + e_x]; }" % par, par != "ALL")
        C("neighbour", "onsites(%s) { n[X] -= 1; if (n[X + e_x] > 0) c[X] = 1; }" % par, par != "ALL")
    # 2. writing to neighbours
    for t in ("a[X + e_x]", "a[X - e_y]", "a[X + d1]", "a[X + off]", "w[e_x][X + e_y]"):
        for s in ("%s = 1;", "%s += b[X];", "addto(%s, 1);", "setto(%s, b[X]);", "tadd(%s, 2);", "noconst2(b[X], %s);"):
            placed("write neighbour", s % t, False, places=PLACE[:4])
        placed("write neighbour", "double q_ = cref(%s);" % t, True, places=PLACE[1:4])
        C("write neighbour", "onsites(EVEN) %s = 1;" % t, False)
    for s in ("v[X + d1].c[0] = 2;", "z[X + e_x].re = 1;", "n[X + e_x]++;", "v[X + e_x] *= 2;"):
        placed("write neighbour", s, False, places=PLACE[:6])
    # 3. variables from outside the loop are changed
    for s in ("x = b[X];", "x = 1;", "k = n[X];", "k = 1;", "x -= b[X];", "x /= 2;", "k %= 2;", "k++;", "--k;", "k |= 1;", "vv = v[X];", "vv.e(0) = 1;", "o.g = b[X];", "glob = 1;", "x = x + 1;",
              "k <<= 1;", "addto(x, b[X]);", "setto(x, b[X]);", "tadd(x, b[X]);"):
        placed("external variable", s, False)
    for s in ("x += b[X];", "x *= b[X];", "vv += v[X];", "double y_ = x; y_ = 2; b[X] = y_;", "int k_ = k; k_++; b[X] = k_;", "Obj o_ = o; o_.g = b[X]; b[X] = o_.g;"):
        placed("external variable", s, True, places=PLACE[1:8])
    # 4. elements of arrays with an index which is not constant
    for s in ("arr[X.coordinate(e_x)] += b[X];", "arr[n[X]] += 1;", "vec[X.coordinate(e_y)] += 1;", "vec[n[X]] = 2;", "sarr[n[X]] += b[X];", "arr[n[X]] = 1;", "int m_ = n[X]; arr[m_] += 1;"):
        placed("array element", s, False, places=PLACE[:8])
    for s in ("b[X] = arr[X.coordinate(e_x)];", "b[X] = vec[n[X]];", "b[X] = sarr[k];", "arr[k] += b[X];"):
        placed("array element", s, True, places=PLACE[1:4])
    for s in ("arr[k] = b[X];", "arr[2] = 1;", "vec[k] = b[X];", "sarr[k] = 1;"):
        placed("array element", s, False, places=PLACE[:6])
    # 5. fields without [X]
    for s in ("b[X] = c;", "a[X] = 2 * c;", "a = 1;", "a = b;", "b[X] = cref(c);", "if (a == b) c[X] = 1;", "b[X] = a[ALL];", "a[ALL] = 1;", "a[EVEN] = b[X];", "x += a.sum();", "b[X] = a.get_element({0, 0});", "a.set_boundary_condition(e_x, hila::bc::PERIODIC);"):
        if "sum" in s or "get_element" in s or "boundary" in s:
            continue
        placed("field without X", s, False, places=PLACE[1:8])
    # 6. loops in loops
    for p1 in ("ALL", "EVEN", "par"):
        for p2 in ("ALL", "ODD", "par"):
            C("nested", "onsites(%s) { onsites(%s) { a[X] = 1; } }" % (p1, p2), False)
            C("nested", "onsites(%s) { b[X] = 1; if (k > 0) { onsites(%s) a[X] = b[X]; } }" % (p1, p2), False)
            C("nested", "onsites(%s) { b[X] = 1; } onsites(%s) { a[X] = 1; }" % (p1, p2), True)
    # 7. field references depending on variables of the loop or on random numbers
    for s in ("int j_ = 0; b[X] = w[j_][X];", "int j_ = k; w[j_][X] = 1;", "Direction d_ = e_x; b[X] = w[d_][X + e_y];", "b[X] = w[(int)(hila::random() * NDIM)][X];",
              "CoordinateVector o_ = off; b[X] = c[X + o_];", "for (int j_ = 0; j_ < NDIM; j_++) b[X] = w[j_][X];", "CoordinateVector o_(1); b[X] = c[X - o_];"):
        placed("field reference", s, False, places=PLACE[1:8])
    for s in ("b[X] = w[k][X];", "b[X] = w[d1][X + e_y];", "Direction d_ = e_x; b[X] = a[X + d_];", "foralldir(d_) b[X] += a[X + d_];", "b[X] = c[X + off];"):
        placed("field reference", s, True, places=PLACE[1:8])
    # 8. declarations not possible in a loop
    for s in ("static double t_ = 1; b[X] = t_;", "extern double globe; b[X] = globe;", "std::vector<double> t_(3); t_[1] = b[X];", "std::array<double, 3> t_; t_[0] = 1; b[X] = t_[0];", "Field<double> t_; t_[X] = 1;",
              "static int t_; b[X] = 1;"):
        placed("declaration", s, False, places=PLACE[1:8])
    for s in ("double t_ = 1; b[X] = t_;", "double t_[3]; t_[0] = 1; t_[1] = 2; b[X] = t_[k];", "Vec2 t_; t_ = v[X]; u[X] = t_;", "const int t_ = 1; b[X] = t_;", "auto t_ = b[X]; b[X] = 2 * t_;"):
        placed("declaration", s, True, places=PLACE[1:8])
    # 9. reductions
    R = "Reduction<double> r = 0; "
    V = "ReductionVector<double> r(8); r = 0; "
    for s in ("b[X] = r.value();", "r = b[X];", "r -= b[X];", "b[X] = r;"):
        for p in PLACE[1:8]:
            C("reduction", R + p.replace("%P", "ALL").replace("%S", s), False)
    for s in ("r += b[X];", "r += b[X] * c[X];"):
        for p in PLACE[1:8]:
            C("reduction", R + p.replace("%P", "ALL").replace("%S", s), True)
    for p in PLACE[1:8]:
        for a, b in itertools.permutations(("x += b[X];", "x *= b[X];")):
            C("reduction", p.replace("%P", "ALL").replace("%S", a + " " + b), False)
        for a, b in itertools.permutations(("x += b[X];", "b[X] = x;")):
            C("reduction", p.replace("%P", "ALL").replace("%S", a + " " + b), False)
        for a, b in itertools.permutations(("r[n[X]] += b[X];", "r[n[X]] *= b[X];")):
            C("reduction", V + p.replace("%P", "ALL").replace("%S", a + " " + b), False)
        C("reduction", V + p.replace("%P", "ALL").replace("%S", "r[n[X]] += b[X]; b[X] = r[n[X]];"), False)
        for a, b in itertools.permutations(("x += b[X];", "x = 1;")):
            C("reduction", p.replace("%P", "ALL").replace("%S", a + " " + b), False)
        for a in ("r[n[X]] = b[X];", "r[n[X]] -= b[X];", "r[n[X]]++;", "r[1] = b[X];", "r[k] -= 2;", "r[n[X]] /= 2;"):
            C("reduction", V + p.replace("%P", "ALL").replace("%S", a), False)
        for a in ("r[n[X]] += b[X];", "r[k] += b[X];", "r[X.coordinate(e_x)] += 1;", "r[n[X]] += b[X]; r[k] += c[X];"):
            C("reduction", V + p.replace("%P", "ALL").replace("%S", a), True)
    # 10. functions called in loops; every case has functions of its own
    for f, ok_ in (("inline double fn@(double t) { return t + glob; }", False), ("inline double fn@(double t) { glob = t; return t; }", False),
                   ("inline double fi@(double t) { return t + glob; } inline double fn@(double t) { return 2 * fi@(t); }", False),
                   ("inline double fn@(double t) { static double s = 0; s += t; return s; }", False),
                   ("inline double fn@(double t) { return t + globf.get_element({0, 0}); }", False),
                   ("template <typename T> inline T fn@(T t) { return t + glob; }", False),
                   ("template <typename T> inline T fi@(T t) { return t + globi; } template <typename T> inline T fn@(T t) { return 2 * fi@(t); }", False),
                   ("inline double fn@(double t) { for (int i = 0; i < globi; i++) t += i; return t; }", False),
                   ("inline double fn@(double t) { if (t > glob) t += 1; return t; }", False),
                   ("inline double fn@(double t) { globi++; return t; }", False),
                   ("struct S@ { double g; double h(double t) const { return t * glob; } }; inline double fn@(double t) { S@ s; s.g = 1; return s.h(t); }", False),
                   ("inline double fn@(double t) { double s = 2 * t; s += gconst; return s; }", True), ("template <typename T> inline T fn@(T t) { return t + t; }", True),
                   ("inline double fi@(double t) { return t + 2; } template <typename T> inline T fn@(T t) { return fi@(t + t); }", True),
                   ("inline double fn@(const double &t) { double glob = t; glob += 1; return glob; }", True),
                   ("struct S@ { double g; double h(double t) const { return t * g; } }; inline double fn@(double t) { S@ s; s.g = 1; return s.h(t); }", True)):
        for s in ("a[X] = %s;", "if (%s > 0) a[X] = 1;", "x += %s;", "a[X] = cref(%s);", "double t_ = %s; a[X] = t_;", "addto(a[X], %s);"):
            for p in PLACE[1:7]:
                C("function", p.replace("%P", "ALL").replace("%S", s % "fn@(b[X])"), ok_)
                CASES[-1] += (f,)
    # 11. addresses and references
    for s in ("double *p_ = &a[X]; b[X] = *p_;", "double *p_ = &x; b[X] = *p_;", "double &p_ = x; p_ = b[X];", "double &p_ = a[X + e_x]; b[X] = p_;", "auto *p_ = &a[X]; *p_ = 1;", "Obj &p_ = o; b[X] = p_.g;"):
        placed("address", s, False, places=PLACE[1:8])
    for s in ("double &p_ = a[X]; p_ = b[X];", "const double &p_ = x; b[X] = p_;", "const double &p_ = a[X + e_x]; b[X] = p_;", "double t_ = x; double *p_ = &t_; b[X] = *p_;", "const Obj &p_ = o; b[X] = p_.g;"):
        placed("address", s, True, places=PLACE[1:8])
    # 12. lattice and X methods
    for s in ("b[X] = lattice.mynode.volume();", "b[X] = X.foo();"):
        pass
    # 13. selections
    S = "SiteSelect s; "
    for s in ("s = X;", "a[X] = s.size();"):
        C("select", S + "onsites(ALL) { %s }" % s, False)
    for s in ("if (a[X] > 0) s.select(X);", "s.select(X);"):
        C("select", S + "onsites(ALL) { %s }" % s, True)
    seen, out = set(), []
    for c in CASES:
        k = c[1] + c[3] if len(c) > 3 else c[1]
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def text(cases):
    """returns the text of the translation unit and for each case its line"""
    out, where = [GLOBALS.strip()], []
    line = out[0].count("\n") + 1
    for i, c in enumerate(cases):
        s = "%s void f%d(%s) { %s }" % (c[3] if len(c) > 3 else "", i, ARGS, c[1])
        s = s.replace("@", str(i))
        out.append(s)
        line += 1
        where.append(line)
    return "\n".join(out) + "\n", where


def translate(cases, v, d, name):
    """runs hilapp on the cases; returns (exit code, output written?, {case index: first error}, log)"""
    t, where = text(cases)
    f = os.path.join(d, name + ".cpp")
    open(f, "w").write(t)
    cmd = [mcbuild.hilapp()] + v["hopts"] + ["-std=c++17"] + v["defs"] + ["-I" + mcbuild.LIB + x for x in mcbuild.INC] + ["-I" + mcbuild.MC + "/include", f, "-o", f + "t", "--", "-ferror-limit=0"]
    if os.path.exists(f + "t"):
        os.remove(f + "t")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = r.stdout.decode("utf-8", "replace")
    err, at = {}, {w: i for i, w in enumerate(where)}
    for m in re.finditer(r"^(\S+):(\d+):\d+: (?:fatal )?error: (.*)", o, re.M):
        if os.path.basename(m.group(1)) == name + ".cpp":
            w = int(m.group(2))
            err.setdefault(at.get(w, -w), m.group(3))
    return r.returncode, os.path.exists(f + "t"), err, o


def survey(cases, v, d, ex, per):
    """list of (case, accepted?, message): chunks of cases; a chunk that hilapp does not survive is split"""
    todo, res, runs, no = [cases[i:i + per] for i in range(0, len(cases), per)], [], 0, 0
    while todo:
        rs = list(ex.map(lambda c: translate(c[1], v, d, "ill%d" % c[0]), [(no + i, c) for i, c in enumerate(todo)]))
        no += len(todo)
        runs += len(todo)
        nxt = []
        for c, (rc, out, err, log) in zip(todo, rs):
            if rc not in (0, 1) and len(c) > 1:   # the translator died
                k = (len(c) + 7) // 8
                nxt += [c[i:i + k] for i in range(0, len(c), k)]
                continue
            for i, x in enumerate(c):
                if rc not in (0, 1):
                    res.append((x, out and rc == 0, "hilapp fails: " + (re.search(r"Assertion.*", log) or re.match("(?s).*", log[-200:])).group(0)))
                else:
                    res.append((x, i not in err and (rc == 0) == out, err.get(i, "")))
        todo = nxt
    return res, runs


if __name__ == "__main__":
    v = mcbuild.variant(sys.argv[1] if len(sys.argv) > 1 else "v2")
    cs = build(True)
    d = "/tmp/ill"
    os.makedirs(d, exist_ok=True)
    with ThreadPoolExecutor(mcbuild.JOBS) as ex:
        for legal in (False, True):
            res, runs = survey([c for c in cs if c[2] == legal], v, d, ex, 60 if legal else 60)
            print("LEGAL" if legal else "ILLEGAL", len(res), runs)
            for c, acc, msg in res:
                if acc != legal or msg.startswith("hilapp"):
                    print("  ", c[0], "|", c[1], "|", msg[:150])
