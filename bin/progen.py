"""Enumerates the site-loop programs of H01.  Every program is written once and emitted twice: as it is for hilapp, and
with Field, onsites(), Reduction ... replaced by the plain classes and loops of prog.h as the reference."""
import hashlib, itertools, os, re, sys, threading

DECL = [  # name, declaration in terms of F (fields) and A (arguments)
    ("a", "Field<double> &a = F.a;"), ("b", "Field<double> &b = F.b;"), ("c", "Field<double> &c = F.c;"),
    ("n", "Field<int> &n = F.n;"), ("m", "Field<int> &m = F.m;"), ("p", "Field<float> &p = F.p;"), ("q", "Field<float> &q = F.q;"),
    ("z", "Field<Complex<double>> &z = F.z;"), ("y", "Field<Complex<double>> &y = F.y;"),
    ("v", "Field<Vec2> &v = F.v;"), ("u", "Field<Vec2> &u = F.u;"), ("r", "Field<Mat2> &r = F.r;"),
    ("w", "Field<double> (&w)[NDIM] = F.w;"), ("gf", "GaugeField<double> &gf = F.gf;"),
    ("par", "const Parity par = A.par;"), ("opp", "const Parity opp = A.opp;"), ("dv", "Direction dv = A.dv;"), ("du", "Direction du = A.du;"),
    ("off", "CoordinateVector off = A.off;"), ("k", "int k = A.k;"), ("x", "double x = A.x;"), ("v2", "Vec2 v2 = A.v2;"), ("zc", "Complex<double> zc = A.zc;"),
    ("arr", "double arr[8]; for (int _i = 0; _i < 8; _i++) arr[_i] = A.arr[_i];"),
    ("iarr", "int iarr[4][2]; for (int _i = 0; _i < 8; _i++) iarr[_i / 2][_i % 2] = A.iarr[_i / 2][_i % 2];"),
    ("vec", "std::vector<double> vec = A.vec;"), ("sarr", "std::array<double, 8> sarr = A.sarr;"), ("cfg", "auto cfg = A.cfg;"),
]

HELPERS = r'''
inline double @dbl(double t) { return 2 * t; }
inline double @cref(const double &t) { return t + 3; }
inline void @addto(double &t, double s) { t += s; }
inline void @setto(out_only double &t, double s) { t = s; }
inline int @add2(int i, int j) { return 2 * i + j; }
inline double @lin(double s, double t) { double r = s; r += 2 * t; return r; }
inline double @nest(double t) { return @dbl(t) + @cref(t); }
template <typename A> inline A @tdbl(const A &t) { return t + t; }
template <typename A, typename B> inline void @tadd(A &t, const B &s) { t += s; }
inline double @cond(double t) { if (t > 0) return t; else return -2 * t; }
inline double @loop(double t, int n) { double s = 0; for (int i = 0; i < n; i++) s += t + i; return s; }
inline double @early(double t, int kk) { for (int i = 0; i < 5; i++) { if (i == kk) return t * i; } return -t; }
inline void @swap2(double &s, double &t) { double h = s; s = t; t = h; }
inline Vector<2, double> @turn(const Vector<2, double> &s) { Vector<2, double> t; t.e(0) = -s.e(1); t.e(1) = s.e(0); return t; }
inline double @vsum(const Vector<2, double> &s) { double t = 0; for (int i = 0; i < 2; i++) t += s.e(i); return t; }
struct @Obj { double g; int h; Direction d; double t[2]; double get() const { return g + h; } double scale(double s) const { return g * s; } };
static const double @gconst = 3;
constexpr int @gint = 2;
'''

PROGS = []
LOCK = threading.Lock()      # harnesses are built in parallel threads


def P(group, body, decl=""):
    PROGS.append(dict(group=group, body=body, decl=decl))


PARS = ["ALL", "EVEN", "ODD", "par"]
# ---------------------------------------------------------------- single loops: every statement form with every expression
EXPR = [
    "b[X]", "b[X + e_x]", "b[X - e_y]", "b[X + dv]", "b[X - dv]", "b[X + off]", "b[X - off]", "b[X + e_x + e_y]", "b[X + e_x - dv]", "b[X + 2 * e_x]",
    "b[X] * c[X]", "b[X + e_x] - c[X - e_x]", "b[X + e_x] + b[X - e_x]", "b[X] + b[X + e_y]", "c[X + e_x] + c[X + dv]", "n[X]", "n[X + e_y] + b[X]",
    "p[X + e_y]", "p[X] + n[X - e_x]", "z[X].re", "z[X + e_x].im + b[X]", "v[X + e_x].e(1)", "w[e_x][X]", "w[du][X + e_y]", "w[0][X] + w[1][X - dv]",
    "gf[e_y][X + e_x]", "gf[du][X] - gf[e_x][X + dv]",
    "X.coordinate(e_x)", "X.coordinates().dot(off)", "X.y() + b[X]", "k", "x * b[X] + k", "arr[k]", "arr[X.coordinate(e_y)]", "iarr[k][1] + b[X]",
    "vec[k] * b[X]", "vec[X.coordinate(e_x)]", "sarr[k] + b[X + e_x]", "sarr[X.x()] - b[X]", "cfg.g * b[X]", "cfg.h + cfg.t[1]", "cfg.t[k - 1] * b[X - e_x]",
    "@dbl(b[X])", "@cref(b[X + e_x])", "@nest(b[X]) + @tdbl(c[X - e_y])", "@cond(b[X])", "@loop(b[X], k)", "@early(b[X], k)", "@lin(b[X], X.x())", "@add2(n[X], k)",
    "(b[X] > 0 ? c[X] : n[X])", "(k == 1 ? b[X] : c[X + e_x])", "(X.parity() == EVEN ? 1 : -b[X])", "fabs(b[X])", "squarenorm(v[X])", "real(z[X] * y[X + e_x])",
    "@vsum(v[X + dv])", "@vsum(@turn(v[X]))", "v[X].dot(u[X - e_y])", "(r[X] * v[X]).e(1)", "trace(r[X + e_x])", "r[X].e(0,1)", "b[X + (CoordinateVector)off]",
    "b[X + k * e_y]", "b[X + opp_dir(dv)]", "b[X + -dv]", "@gconst * b[X] + @gint", "(int)b[X] % 3", "b[X] + lattice.size(e_x)", "(double)(X.coordinates() == off)", "v2.e(1) * b[X]", "v2[k % 2] - b[X]",
    "zc.re + b[X]", "A.cfg.g + b[X]", "A.arr[2] * b[X]", "v[X][k % 2]",
]
FORM = [   # %E expression
    "a[%P] = %E;", "a[%P] += %E;", "onsites(%P) a[X] = %E;", "onsites(%P) { a[X] -= %E; }", "onsites(%P) { double t = %E; a[X] = t + 1; }",
    "onsites(%P) { if (c[X] > 0) a[X] = %E; }", "double s = 2; onsites(%P) s += %E; A.o(s);", "double s = 0; onsites(%P) { s += %E; a[X] = 2 * s_; }",
    "onsites(%P) { double t[2]; for (int i = 0; i < 2; i++) t[i] = i + %E; a[X] = t[0] * t[1]; }",
    "onsites(%P) { a[X] = 0; for (int i = 0; i < 3; i++) { a[X] += i * (%E); } }",
    "onsites(%P) { if (%E > 0) a[X] = 1; else a[X] = -1; }", "onsites(%P) { @addto(a[X], %E); }", "onsites(%P) { @setto(a[X], %E); }",
    "onsites(%P) { v[X].e(1) = %E; }", "onsites(%P) { z[X] = Complex<double>(%E, 1); }", "long s = 0; onsites(%P) if (%E > 0) s += 1; A.o(s);",
    "onsites(%P) { auto t = %E; t += 1; a[X] += t; }",
    "for (int i = 0; i < 2; i++) onsites(%P) a[X] += i + %E;", "foralldir(d) { onsites(%P) { w[d][X] = (int)d + %E; } }",
]
FORM[7] = "double s = 0; onsites(%P) { s += %E; a[X] = 2 * c[X]; } A.o(s);"


def ok_single(form, e, par):
    reads_nb = lambda f: re.search(r"\b%s(\[[^X\]]*\])?\[X [+-]" % f, e)
    wr = {0: "a"}
    for f in ("a", "v", "z", "w"):
        if re.search(r"\b%s(\[\w\])?\[(X|%%P)\](\.e\(1\))? [-+]?=" % f, form) and re.search(r"\b%s(\[[^X\]]*\])?\[X [+-]" % f, e):
            return False   # neighbour of a field that is written: not used here
    if "v[X]" in form and re.search(r"\bv\[", e) and "e(1)" in form:
        return True
    return True


def singles(thorough):
    for i, f in enumerate(FORM):
        for j, e in enumerate(EXPR):
            if not ok_single(f, e, "ALL"):
                continue
            for q, par in enumerate(PARS):
                if not thorough and q != (i + j) % 4:
                    continue
                P("single", f.replace("%E", e).replace("%P", par))


# ---------------------------------------------------------------- pairs of statements in one loop
STMT = [
    "a[X] = b[X];", "b[X] = a[X];", "a[X] += 2;", "if (b[X] > 0) a[X] = 3;", "if (k == 1) b[X] = a[X] + c[X];", "s += a[X];", "s += b[X] * a[X];", "if (a[X] > 0) s += 1;",
    "double t% = a[X] + b[X]; b[X] = t%;", "a[X] = c[X + e_x];", "b[X] -= c[X - dv];", "for (int i = 0; i < 2; i++) a[X] += i * b[X];", "n[X] = (int)a[X];", "a[X] = n[X];",
    "@addto(a[X], b[X]);", "@setto(b[X], 7);", "@swap2(a[X], b[X]);", "{ a[X] = 1; b[X] = 2; }", "p[X] = a[X];", "v[X].e(0) = a[X];", "a[X] = v[X].e(1);", "s2 += v[X];",
    "if (X.coordinate(e_x) == 1) { a[X] = 0; } else { b[X] = 0; }", "a[X] = b[X] = 4;", "int i% = 0; while (i% < 2) { a[X] += 1; i%++; }", "switch (n[X] % 2) { case 0: a[X] = 1; break; default: b[X] = 5; }",
    "if (a[X] > 0 && b[X] > 0) a[X] = -1;", "a[X] *= (b[X] > 0) ? 2 : 1;", "a[X] = -a[X];", "b[X] = w[1][X] + w[0][X + e_y];",
]


def pairs(thorough):
    for i, s1 in enumerate(STMT):
        for j, s2 in enumerate(STMT):
            for q, par in enumerate(["ALL", "EVEN", "par"]):
                if not thorough and q != (i + j) % 3:
                    continue
                P("pair", "double s = 1; Vec2 s2 = 0; onsites(%s) { %s %s } A.o(s); A.o(s2);" % (par, s1.replace("%", "1") if "%1" in s1 or "t%" in s1 or "i%" in s1 else s1,
                                                                                    s2.replace("t%", "t2").replace("i%", "i2")))


# ---------------------------------------------------------------- two loops one after another
LOOP = [
    "a[ALL] = b[X + e_x];", "b[ALL] = a[X - e_x];", "a[EVEN] = b[X + e_y];", "a[ODD] = a[X + e_x];", "b[par] += a[X - dv];", "onsites(par) { b[X] = b[X + e_x] + b[X - e_y]; }",
    "onsites(ALL) { s += a[X + e_x] * b[X]; }", "a[ALL] = a[X] + 1;", "onsites(EVEN) { if (a[X] > 0) b[X] = a[X + dv]; }", "b[ALL] = a[X + off];", "a = b;", "b = a + c;", "foralldir(d) a[ALL] += b[X + d];",
    "a[EVEN] = 3;", "onsites(ODD) { a[X] = 0; b[X] = c[X + e_x]; }",
]


def chains(thorough):
    for l in itertools.product(range(len(LOOP)), repeat=3 if thorough else 2):
        P("chain", "double s = 0; " + " ".join(LOOP[i] for i in l) + " A.o(s);")


# ---------------------------------------------------------------- contexts
BODY = [
    "f[par] = g[X + e_x];", "onsites(ALL) { f[X] += g[X - e_y] * fac; }", "onsites(par) { T t = g[X]; if (t > 0) f[X] = t + X.x(); }", "T s = 0; onsites(ALL) s += f[X] * g[X + d]; A.o(s);",
    "f[ALL] = g[X + cv] - fac;", "onsites(EVEN) { f[X] = f[X + d] + f[X - d]; }", "onsites(par) { for (int i = 0; i < cnt; i++) f[X] += i * g[X + e_y]; }",
    "onsites(ALL) { f[X] = @tdbl(g[X]); @tadd(f[X], fac); }",
]
PARAMS = "Field<T> &f, const Field<T> &g, T fac, Direction d, const CoordinateVector &cv, Parity par, int cnt, Args &A"
CALL = "(F.%s, F.%s, (%s)3, A.dv, A.off, A.par, A.k, A);"
TYPES = [("double", "a", "b"), ("float", "p", "q"), ("int", "n", "m")]


def contexts(thorough):
    for i, body in enumerate(BODY):
        nm = "ctx%d" % i
        for t, f, g in TYPES:
            u = nm + t
            P("context", "@%s%s" % (u, CALL % (f, g, t)), decl="void @%s(%s) { %s }" % (u, PARAMS.replace("T", t, 2).replace("T fac", t + " fac"), re.sub(r"\bT\b", t, body)))
        # template function, two or three instances called from one program
        d = "template <typename T> void @t%s(%s) { %s }" % (nm, PARAMS, body)
        for tys in ([TYPES[0]], [TYPES[2]], TYPES[:2], TYPES):
            P("context", " ".join("@t%s%s" % (nm, CALL % (f, g, t)) for t, f, g in tys), decl=d)
        # template called by template
        d2 = d + "\ntemplate <typename T> void @tt%s(%s) { @t%s<T>(f, g, fac, d, cv, par, cnt, A); }" % (nm, PARAMS, nm)
        P("context", " ".join("@tt%s%s" % (nm, CALL % (f, g, t)) for t, f, g in TYPES[:2]), decl=d2)
        # template with a non-type argument
        d = "template <int cnt, typename T> void @n%s(%s) { %s }" % (nm, PARAMS.replace("int cnt, ", ""), body)
        P("context", "@n%s<1>(F.a, F.b, 3., A.dv, A.off, A.par, A);" % nm + "@n%s<2>(F.p, F.q, 3.f, A.dv, A.off, A.par, A);" % nm + " @n%s<2>(F.a, F.b, 2., A.du, A.off, A.opp, A);" % nm, decl=d)
        # members
        d = "template <typename T> class @C%s { public: Field<T> &f; const Field<T> &g; T fac; Direction d; CoordinateVector cv; int cnt; @C%s(Field<T> &f_, const Field<T> &g_) : f(f_), g(g_) {} void go(Parity par, Args &A) { %s } };" % (nm, nm, body)
        P("context", " ".join("{ @C%s<%s> o(F.%s, F.%s); o.fac = 3; o.d = A.dv; o.cv = A.off; o.cnt = A.k; o.go(A.par, A); }" % (nm, t, f, g) for t, f, g in TYPES), decl=d)
        d = "struct @S%s { Field<double> &f; Field<double> &g; double fac; Direction d; CoordinateVector cv; int cnt; void go(Parity par, Args &A) { using T = double; %s } };" % (nm, body)
        P("context", "@S%s o{F.a, F.b, 2, A.dv, A.off, A.k}; o.go(A.par, A); o.fac = 5; o.d = A.du; o.go(A.opp, A);" % nm, decl=d)
        d = "struct @M%s { Field<double> f, g; double fac; Direction d; CoordinateVector cv; int cnt; void go(Parity par, Args &A); };\nvoid @M%s::go(Parity par, Args &A) { using T = double; %s }" % (nm, nm, body)
        P("context", "@M%s o; o.f = F.a; o.g = F.b; o.fac = 3; o.d = A.dv; o.cv = A.off; o.cnt = A.k; o.go(A.par, A); F.a = o.f; F.b = o.g;" % nm, decl=d)
        # derived class
        d = "struct @B%s { Field<double> &f; Field<double> &g; double fac; Direction d; CoordinateVector cv; int cnt; };\nstruct @D%s : @B%s { @D%s(@B%s o) : @B%s(o) {} void go(Parity par, Args &A) { using T = double; %s } };" % (nm, nm, nm, nm, nm, nm, body)
        P("context", "@D%s o(@B%s{F.a, F.b, 2, A.dv, A.off, A.k}); o.go(A.par, A);" % (nm, nm), decl=d)
        # lambda, local aliases, pointers, nested blocks, conditional loops
        pre = "using T = double; Field<T> &f = F.a; Field<T> &g = F.b; T fac = 3; Direction d = A.dv; CoordinateVector cv = A.off; int cnt = A.k;"
        P("context", pre + " auto go = [&](Parity par) { %s }; go(A.par); go(A.opp);" % body)
        P("context", pre + " Parity par = A.par; if (A.k > 0) { %s } else { f[ALL] = 0; }" % body)
        P("context", pre + " for (Parity par : {EVEN, ODD}) { %s fac += 1; }" % body)
        P("context", pre + " Parity par = A.par; do { %s cnt--; } while (cnt > 0);" % body)
        P("context", pre + " Parity par = A.par; if (cnt == 77) f = 0; else { %s }" % body)
        P("context", pre + " Parity par = A.par; { T fac = 5; { %s } } %s" % (body, body.replace("T s", "T s_").replace("s +=", "s_ +=").replace("A.o(s)", "A.o(s_)") if "T s" in body else body))
        P("context", "using T = double; Field<T> *pf = &F.a, *pg = &F.b; T fac = 3; Direction d = A.dv; CoordinateVector cv = A.off; int cnt = A.k; Parity par = A.par; "
          + re.sub(r"\bf\[", "(*pf)[", re.sub(r"\bg\[", "(*pg)[", body)))
        P("context", "using T = double; std::vector<Field<T>> h(3); h[0] = F.a; h[2] = F.b; T fac = 3; Direction d = A.dv; CoordinateVector cv = A.off; int cnt = A.k; Parity par = A.par; int i = 0; "
          + re.sub(r"\bf\[", "h[i][", re.sub(r"\bg\[", "h[i + 2][", body)) .replace("int i = 0; i < cnt; i++", "int l = 0; l < cnt; l++").replace("+= i *", "+= l *") + " F.a = h[0];")
        P("context", "struct G { Field<double> f, g; }; G q; q.f = F.a; q.g = F.b; using T = double; T fac = 3; Direction d = A.dv; CoordinateVector cv = A.off; int cnt = A.k; Parity par = A.par; "
          + re.sub(r"\bf\[", "q.f[", re.sub(r"\bg\[", "q.g[", body)) + " F.a = q.f;")


# ---------------------------------------------------------------- single features
FEATURE = r'''
double s = 1; onsites(ALL) s *= (b[X] > 0) ? 1 : -1; A.o(s);
double s = 1; onsites(EVEN) { s *= 1 - 2 * (n[X] % 2 == 0); } A.o(s);
double s = 0; int i = 5; onsites(ALL) { s += b[X]; i += n[X]; a[X] = c[X + e_x]; } A.o(s); A.o(i);
long s = 0; onsites(par) s += n[X]; onsites(opp) s += 2 * n[X]; A.o(s);
float s = 0; onsites(ALL) s += p[X]; A.o(s);
float s = 0; double t = 0; onsites(ALL) { s += p[X]; t += p[X] * b[X]; } A.o(s); A.o(t);
Complex<double> s = 0; onsites(ALL) s += z[X] * y[X + e_x]; A.o(s);
Vec2 s = 0; onsites(ODD) s += v[X] + u[X - e_y]; A.o(s);
Vec2 s = 0; onsites(ODD) s.e(1) += b[X]; A.o(s);
Mat2 s = 0; onsites(ALL) s += r[X] * r[X + e_x]; A.o(s);
double s = 0; onsites(ALL) { s += b[X]; s -= 0; } A.o(s);
double s = 0; onsites(ALL) { s += b[X]; s += c[X]; if (n[X] > 0) s += 1; } A.o(s);
double s = 0; onsites(ALL) { if (b[X] > 0) { s += b[X]; } else if (c[X] > 0) { s += c[X]; } else { s += 100; } } A.o(s);
double s = 0; onsites(ALL) { foralldir(d) s += b[X + d] * b[X]; } A.o(s);
double s = 0; foralldir(d) onsites(ALL) { s += w[d][X] * w[1][X + d]; } A.o(s);
double s = 0, t = 0; onsites(EVEN) { s += b[X]; t += b[X + e_x]; } A.o(s); A.o(t); A.o(s + t);
double t[2] = {0, 1}; onsites(ALL) { t[0] += b[X]; t[1] += c[X]; } A.o(t[0]); A.o(t[1]);
Vector<4, int> h = 0; onsites(ALL) { h[(n[X] + 100) % 4] += 1; } A.o(h);
Vector<4, double> h = 0; onsites(ALL) { h[X.coordinate(e_x) % 4] += b[X]; } A.o(h);
Reduction<double> s(0); onsites(ALL) s += b[X] * c[X]; A.o(s.value());
Reduction<double> s; s = 4; s.delayed(); onsites(EVEN) s += b[X]; onsites(ODD) s += c[X]; A.o(s.value());
Reduction<Complex<double>> s(0); s.nonblocking(); onsites(ALL) s += z[X]; a[ALL] = b[X + e_x]; A.o(s.value());
Reduction<Vec2> s; s = Vec2(0); s.delayed().nonblocking(); foralldir(d) onsites(ALL) s += v[X + d] * (1.0 + d); s.start_reduce(); a[ALL] = 1; A.o(s.value());
Reduction<int> s(0), t(3); onsites(ALL) { s += n[X]; t += m[X]; } A.o(s.value()); A.o(t.value());
ReductionVector<double> s(8); s = 0; onsites(ALL) s[X.coordinate(e_x)] += b[X]; for (int i = 0; i < 8; i++) A.o(s[i]);
ReductionVector<int> s(5); s = 1; onsites(par) { s[(n[X] + 100) % 5] += 1; s[0] += n[X]; } for (int i = 0; i < 5; i++) A.o(s[i]);
ReductionVector<Complex<double>> s(4); s = 0; s.delayed(); foralldir(d) onsites(ALL) s[(int)d] += z[X + d]; s.reduce(); for (int i = 0; i < 4; i++) A.o(s[i]);
ReductionVector<double> s(8); s = 0; onsites(ALL) { if (b[X] > 0) { s[X.y()] += 1; a[X] = 5; } } for (int i = 0; i < 8; i++) A.o(s[i]);
ReductionVector<double> s(8), t(8); s = 0; t = 2; onsites(ALL) { s[X.x()] += 1; t[X.y()] += c[X]; } for (int i = 0; i < 8; i++) { A.o(s[i]); A.o(t[i]); }
onsites(ALL) { a[X] = 0; foralldir(d) a[X] += b[X + d] - b[X - d]; }
onsites(ALL) { a[X] = 0; foralldir(d) if (d != e_y) a[X] += b[X + d]; }
onsites(EVEN) { foralldir(d) a[X] += a[X + d] + a[X - d]; }
onsites(par) { double t = 0; for (Direction d = e_x; d < NDIRS; ++d) t += b[X + d]; a[X] = t; }
foralldir(d) { foralldir(e) if (d != e) onsites(ALL) { a[X] += w[d][X] * w[e][X + d] - w[d][X + e] * w[e][X]; } }
foralldir(d) { w[d][ALL] = b[X + d] * c[X]; }
foralldir(d) gf[d][ALL] = gf[opp_dir(opp_dir(d))][X] + b[X - d];
foralldir(d) { onsites(ALL) { gf[d][X] = w[d][X]; w[d][X] = 2 + b[X + d]; } }
onsites(ALL) { w[0][X] = w[1][X]; w[1][X] = 1; n[X] = 3; } w[0][ALL] = w[1][X - e_y];
onsites(ALL) { auto t = v[X]; t.e(0) = b[X]; u[X] = t + v[X + e_x]; }
onsites(ALL) { const auto &t = v[X]; u[X] = t * 2; }
onsites(ALL) { auto &t = a[X]; t = b[X] + 1; t += 2; }
onsites(ALL) { double &t = a[X]; t = b[X] + 1; t += 2; }
onsites(par) { Vec2 &t = v[X]; t.e(1) = 4; }
onsites(ALL) { v[X] = @turn(v[X]); u[X] = @tdbl(v[X]); }
onsites(ALL) { u[X] = @tdbl(v[X]); }
onsites(ALL) { v[X] = 0; v[X].e(0) += b[X + e_x]; v[X].e(1) -= 1; }
onsites(ALL) { r[X] = 1; r[X].e(0, 1) = b[X]; v[X] = r[X] * u[X - dv]; }
onsites(ODD) { r[X] = r[X].transpose() * r[X + e_x]; a[X] = trace(r[X]); }
onsites(ALL) { z[X].re = b[X]; z[X].im = b[X + e_x]; y[X] = z[X].conj() * zc; }
onsites(ALL) { z[X] *= y[X]; z[X] += 1; z[X] -= zc; }
onsites(ALL) { z[X] = conj(y[X + dv]); a[X] = abs(real(z[X])); }
onsites(ALL) { v[X] *= 2; u[X] -= v[X]; v[X] += v2; }
v[ALL] = v2; u[EVEN] = v[X + e_x] + u[X]; 
v[ALL] = 0; u[ODD] = {1, 2};
v[ALL] = {b[X], c[X + e_x]};
a[ALL] = 0; b[EVEN] = k; c[ODD] = x;
n[ALL] = X.x() + 10 * X.y(); a[ALL] = n[X] + n[X + e_x];
n[ALL] = (int)X.parity(); m[ALL] = (X.parity() == ODD);
onsites(ALL) { auto cv = X.coordinates(); a[X] = cv[e_x] - cv[e_y]; n[X] = cv.dot(off); }
onsites(ALL) { CoordinateVector cv = X.coordinates() + off; cv = cv.mod(lattice.size()); n[X] = cv[e_x]; m[X] = cv[du]; }
onsites(par) { foralldir(d) n[X] += X.coordinate(d) * (1 + (int)d); }
onsites(ALL) { int i = X.coordinate(e_x); while (i > 0) { a[X] += i; i -= 2; } }
onsites(ALL) { int i = 0; do { a[X] = a[X] + b[X]; i++; } while (i < k); }
onsites(ALL) { for (int i = 0, j = 1; i < 3; i++, j *= 2) a[X] += j * b[X]; }
onsites(ALL) { int i = 0; for (;;) { if (i > 1) break; a[X] += 1; i++; } }
onsites(ALL) { for (int i = 0; i < 4; i++) { if (i == k) continue; a[X] += i; } }
onsites(ALL) { for (int i = 0; i < 4; i++) { if (n[X] > i) break; a[X] += 1; } }
onsites(ALL) { for (int i = 0; i < n[X] % 3; i++) a[X] += b[X]; }
onsites(ALL) { switch (n[X] % 3) { case 0: a[X] = 1; break; case 1: a[X] = 2; case 2: b[X] = 3; break; default: c[X] = 4; } }
onsites(ALL) { if (n[X] > 0) { if (b[X] > 0) a[X] = 1; else a[X] = 2; } else { if (c[X] > 0) { b[X] = 7; } } }
onsites(ALL) { if (n[X] > 0) a[X] = 1; b[X] = a[X]; }
onsites(ALL) { if (n[X] > 0) a[X] = 1; else a[X] = 2; b[X] = a[X] + c[X + e_x]; }
onsites(ALL) { if (double t = b[X]) { a[X] = t; } }
onsites(ALL) { bool t = b[X] > 0; if (t) a[X] = 1; if (!t) a[X] = -1; }
onsites(ALL) { bool t = b[X] > 0; a[X] = t ? c[X] : n[X]; m[X] = !t; }
onsites(ALL) { int t = (n[X] > 0) + (m[X] > 0); a[X] = t; }
onsites(ALL) { n[X] > 0 && (a[X] = 5); }
onsites(ALL) { n[X] > 0 ? a[X] = 5 : b[X] = 6; }
onsites(ALL) { if (k > 100) a[X] = 5; }
onsites(EVEN) { if (k > 100) { a[X] = b[X + e_x]; } c[X] = 2; }
onsites(ALL) { a[X] = (b[X], c[X]); }
onsites(ALL) { a[X]++; ++b[X]; n[X]--; --m[X]; c[X] = n[X]++ + 1; }
onsites(ALL) { n[X] <<= 1; m[X] &= 3; n[X] ^= m[X]; m[X] |= 4; }
onsites(ALL) { n[X] %= 7; }
onsites(ALL) { n[X] = ~m[X] + (n[X] & 5) - (m[X] << 2); }
onsites(ALL) { n[X] += m[X + e_x] * k; a[X] = n[X] / 2; }
onsites(ALL) { p[X] = a[X]; q[X] = n[X]; b[X] = p[X] + q[X]; }
onsites(ALL) { a[X] = p[X + e_x]; q[X] = b[X - e_x]; n[X] = q[X]; }
onsites(ALL) { n[X] = p[X]; p[X] = m[X] + 1; }
onsites(ALL) { float t = b[X]; double s_ = t; int i = s_; a[X] = t + s_ + i; }
onsites(ALL) { const double t = b[X]; const int i = 3; a[X] = t * i; }
onsites(ALL) { double t[3] = {b[X], c[X], 1}; for (int i = 0; i < 3; i++) a[X] += t[i]; }
onsites(ALL) { double t[2][2]; t[0][0] = b[X]; t[0][1] = 1; t[1][0] = c[X + e_x]; t[1][1] = 2; a[X] = t[0][0] * t[1][1] - t[0][1] * t[1][0]; }
onsites(ALL) { Vec2 t[2]; t[0] = v[X]; t[1] = u[X + e_y]; a[X] = t[0].dot(t[1]); }
onsites(ALL) { int i = 1; { int i = 2; a[X] = i; } b[X] = i; }
onsites(ALL) { double k = b[X]; a[X] = k; } A.o(k);
onsites(ALL) { @swap2(a[X], b[X]); @swap2(b[X], c[X]); }
onsites(ALL) { double t = b[X]; @addto(t, 3); @addto(a[X], t); @setto(c[X], t); }
onsites(ALL) { if (n[X] > 0) @setto(a[X], 9); }
onsites(ALL) { for (int i = 0; i < n[X] % 2; i++) @setto(a[X], 9); }
onsites(ALL) { @tadd(a[X], b[X + e_x]); @tadd(v[X], u[X]); @tadd(z[X], 2); }
onsites(ALL) { v[X] = @tdbl(@tdbl(u[X + dv])); a[X] = @dbl(@dbl(@dbl(b[X]))); }
@Obj o{2, 3, e_x, {4, 5}}; onsites(ALL) { a[X] = o.g * b[X] + o.h + o.t[1]; }
@Obj o{2, 3, e_y, {4, 5}}; onsites(ALL) { a[X] = b[X + o.d] * o.t[0]; }
const @Obj o{2, 3, e_y, {4, 5}}; a[ALL] = o.get() * b[X]; c[ALL] = o.scale(b[X]);
@Obj o[2] = {{2, 3, e_x, {4, 5}}, {6, 7, e_y, {8, 9}}}; for (int i = 0; i < 2; i++) onsites(ALL) { a[X] += o[i].g * b[X - o[i].d] + o[1 - i].h; }
@Obj o{2, 3, e_x, {4, 5}}, *po = &o; onsites(ALL) { a[X] = po->g * b[X] + po->t[1]; }
double o[3] = {1, 2, 3}; for (int i = 0; i < 3; i++) { a[ALL] += o[i] * b[X]; o[i] = 7; }
std::vector<int> o = {1, 2, 3, 4}; a[ALL] = o[(n[X] + 100) % 4]; o[1] = 9; b[ALL] = o[(n[X] + 100) % 4] + o[1];
std::vector<double> o(8); for (int i = 0; i < 8; i++) o[i] = i * i; onsites(ALL) { a[X] = o[X.x()]; for (int i = 0; i < 3; i++) a[X] += o[i]; }
CoordinateVector cv = off; cv[e_x] += 1; a[ALL] = b[X + cv]; cv = -cv; c[ALL] = b[X + cv] + b[X - cv];
Direction d = dv; a[ALL] = b[X + d]; d = du; c[ALL] = b[X + d]; d = opp_dir(d); b[ALL] = a[X + d];
Direction d = e_x; d = -d; a[ALL] = b[X + d] + b[X - d];
a[ALL] = b[X + e_x_down] + c[X - e_y_down];
a[ALL] = b[X + off + e_x] - b[X + off - e_x];
a[ALL] = c[X + e_x + e_x] + b[X];
a[ALL] = b[X + e_x - e_x] + b[X + dv - dv];
a[ALL] = b[X + 3 * e_x - 2 * e_y];
onsites(EVEN) { a[X] = b[X + e_x + e_y] + b[X + e_x] + b[X]; }
onsites(par) { a[X] = b[X + off] + b[X + dv] + c[X + off]; b[X] = 3; }
onsites(par) { a[X] = v[X + off].e(0) * b[X + e_x - e_y]; }
onsites(par) { a[X] += a[X + e_x] + a[X - e_x]; }
onsites(opp) a[X] = a[X + dv]; onsites(par) a[X] = a[X - dv];
for (Parity pp : {EVEN, ODD}) onsites(pp) { a[X] = a[X] + a[X + e_x] - a[X - e_y]; }
for (Parity pp : {EVEN, ODD, ALL}) { b[pp] = c[X + e_x]; c[opp_parity(pp)] = 1; a[pp] += b[X - e_x]; }
onsites(opp_parity(par)) a[X] = 2;
Parity pp = (k > 0) ? EVEN : ODD; a[pp] = b[X + e_x];
onsites(par) ;
onsites(ALL) { }
onsites(ALL) { double t = b[X]; }
onsites(ALL) foralldir(d) a[X] += b[X + d];
onsites(ALL) if (b[X] > 0) a[X] = 1;
onsites(ALL) if (b[X] > 0) a[X] = 1; else a[X] = 2;
onsites(ALL) for (int i = 0; i < 3; i++) a[X] += b[X];
if (k > 0) onsites(ALL) a[X] = 1; else onsites(ALL) a[X] = 2;
if (k > 5) a[ALL] = 1; else a[EVEN] = b[X + e_x];
for (int i = 0; i < 3; i++) a[ALL] = a[X] + b[X + e_x] * i;
a[ALL] = b[X]; { a[ALL] += 1; } { int a_ = 3; a[ALL] += a_; }
Field<double> t; t[ALL] = b[X + e_x]; a[ALL] = t[X - e_y];
Field<double> t, t2; t = b; onsites(ALL) { t2[X] = t[X]; t[X] = 0; } a[ALL] = t2[X + e_x] + t[X + e_y];
Field<Vec2> t; t[ALL] = v[X] * 2; onsites(ALL) { u[X] = t[X + e_x] + t[X - e_x]; }
Field<double> t = b; a[ALL] = t[X + dv]; t = 3; b[ALL] = t[X + dv];
Field<double> t[2]; t[0] = b; t[1] = c; a[ALL] = t[0][X + e_x] - t[1][X - e_x]; for (int i = 0; i < 2; i++) t[i][ALL] += t[1 - i][X + e_y]; b = t[0];
const Field<double> &cb = b; a[ALL] = cb[X + e_x]; Field<double> &ra = a; ra[EVEN] = cb[X]; 
a[ALL] = b[X] /* comment ; with { */ + 1; // another } ;
onsites(ALL) /* first */ { // open {
a[X] = b[X]; /* a[X] = 0; */ } 
onsites(ALL) { const char *t = "a[X] = b[X];"; a[X] = (t[0] == 'a') ? b[X] : 0; }
onsites (ALL) { a [X] = b [ X + e_x ] + b[X+e_x]+b[X  +  e_x]; }
onsites(ALL) { a[X] = b[(X)] + c[X + e_x]; }
onsites(ALL) { (a[X]) = (b[X + (e_x)]); }
onsites(ALL) { a[X] = ((b)[X]) + (w[(0)])[X]; }
foralldir(dd) a[ALL] = b[X + dd] + b[X - dd];
onsites(ALL) { a[X] = std::max(b[X], 1.0) + fabs(c[X]); }
onsites(ALL) { v[X] = u[X]; v[X].e(0) = u[X].e(1); a[X] = v[X].squarenorm(); }
onsites(ALL) { a[X] = u[X].e(0) * u[X + e_x].e(1) - u[X].e(1) * u[X + e_x].e(0); }
onsites(ALL) { auto f = r[X]; f *= 2; r[X] = f - r[X] * r[X]; v[X] = r[X] * u[X - e_y]; }
onsites(ALL) { r[X] = v[X].outer_product(u[X]); v[X] = r[X].row(1).transpose(); }
onsites(ALL) { u[X] = r[X].column(0); r[X].set_column(1, v[X]); }
onsites(ALL) { a[X] = det(r[X]) + r[X].trace(); }
onsites(ALL) { a[X] = b[X] < 0 ? -b[X] : b[X]; c[X] = (b[X] >= 0) - (b[X] <= 0); n[X] = b[X] == c[X]; }
onsites(ALL) { a[X] = sqr(b[X]) + squarenorm(z[X]); }
'''


def features(thorough):
    txt = FEATURE.strip("\n").split("\n")
    i = 0
    while i < len(txt):
        l = txt[i]
        if l.startswith("#define"):
            l = "\n".join(txt[i:i + 3]) + "\n#undef FLD\n#undef NBR"
            i += 2
        elif l.startswith("onsites(ALL) /* first"):
            l = l + "\n" + txt[i + 1]
            i += 1
        P("feature", l)
        i += 1


def to_ref(t):
    t = re.sub(r"\bonsites ?\(", "RLOOP(", t)
    t = re.sub(r"(\*?\(?[\w.>\-]+\)?(?:\[(?!X|ALL|EVEN|ODD|par\b|opp\b|pp\b)[^\]]*\])?|\(\*p[fg]\)) ?\[(ALL|EVEN|ODD|par|opp|pp|opp_parity\(pp\))\] *([-+*/]?=)", r"RLOOP(\2) \1[X] \3", t)
    t = re.sub(r"\bRLOOP\(\(?(.*?)\)\) ?\(", r"RLOOP(\1)) (", t) if False else t
    t = re.sub(r"\bField<", "RField<", t)
    t = re.sub(r"\bReduction<", "RReduction<", t)
    t = re.sub(r"\bReductionVector<", "RReductionVector<", t)
    t = re.sub(r"\bGaugeField<", "RGaugeField<", t)
    # whole-field statements
    t = re.sub(r"\bb = a \+ c;", "RLOOP(ALL) b[X] = a[X] + c[X];", t)
    t = re.sub(r"\bf = 0;", "RLOOP(ALL) f[X] = 0;", t)
    t = re.sub(r"\bt = 3;", "RLOOP(ALL) t[X] = 3;", t)
    return t.replace("@", "r_")


def emit(p, i):
    name = "%s%04d" % (p["group"], i)
    body = p["body"]
    used = set(re.findall(r"\b\w+\b", body))
    decl = "\n".join("    " + d for n, d in DECL if n in used)
    decl = re.sub(r"^    (const Parity par.*|Direction dv.*)$", r"    \1", decl, flags=re.M)
    if p["group"] == "context":
        decl = ""
    text = "%s\nvoid @%s(HF &F, Args &A) {\n%s\n    %s\n}\n" % (p["decl"], name, decl, body.replace("\n", "\n    "))
    return name, text


def all_ok(p):
    """bit 0: the parity given at run time may be ALL, bit 1: lattices with odd sides are possible"""
    t = p["decl"] + p["body"]
    if not nb_written(p):
        return 3 if re.search(r"\b(par|opp)\b", t) else 2
    return 0


def nb_written(p):
    """a field is written and read at a neighbour: on lattices with an odd side the neighbour may have the same parity"""
    t = p["decl"] + p["body"]
    for f in "abcnmpqzyvurwfgh":
        if re.search(r"\b%s\)?(\[[^X\]]*\])* ?\[X ?[+-]" % f, t) and (re.search(r"\b%s\)?(\[[^X\]]*\])* ?\[(X|par|opp|pp)\](\.\w+(\([^)]*\))?)? *([-+*/]?=[^=]|\+\+|--)" % f, t) or re.search(r"(addto|setto|swap2|tadd)\(", t)):
            return True
    return False


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def key(p):
    return hashlib.sha256((p["decl"] + "\n" + p["body"]).encode()).hexdigest()[:12]


def unsupported(target):
    """programs hilapp or the compiler does not accept for this target (a limit of the translator, found at build time)"""
    f = os.path.join(HERE, "harness", "prog", "unsupported.txt")
    return {l.split()[1] for l in open(f) if l.startswith(target + " ")} if os.path.exists(f) else set()


def programs(groups, thorough, target):
    with LOCK:
        PROGS.clear()
        for g in groups:
            {"single": singles, "pair": pairs, "chain": chains, "context": contexts, "feature": features}[g](thorough)
        skip, seen, progs = unsupported(target), set(), []
        for p in PROGS:
            k = key(p)
            if k not in seen and k not in skip:
                seen.add(k)
                progs.append(p)
    return progs


def generate(d, groups, thorough, per, target="v", progs=None):
    if progs is None:
        progs = programs(groups, thorough, target)
    os.makedirs(d, exist_ok=True)
    files = []
    chunks = [progs[i:i + per] for i in range(0, len(progs), per)]
    n = 0
    for ci, ch in enumerate(chunks):
        out = ['#include "prog.h"', HELPERS.replace("@", "h_")]
        ref = ['#include "prog.h"', HELPERS.replace("@", "r_")]
        tab, declared = [], set()
        for p in ch:
            name, text = emit(p, n)
            n += 1
            if p["decl"]:
                ds = p["decl"].split("\n")
                text = "\n".join(l for l in ds if l not in declared) + text[len(p["decl"]):]
                declared.update(ds)
            out.append(text.replace("@", "h_"))
            ref.append(to_ref(text).replace("HF &F", "RF &F"))
            out.append("void r_%s(RF &, Args &);" % name)
            q = p["decl"] + ("\n" if p["decl"] else "") + p["body"]
            tab.append('{"%s", R"TXT(%s)TXT", h_%s, r_%s, %d}' % (name, q, name, name, all_ok(p)))
        out.append("void programs_%d(Table &t) {\n    Table mine = {\n%s};\n    t.insert(t.end(), mine.begin(), mine.end());\n}" % (ci, ",\n".join(tab)))
        for suf, o in (("", out), ("_ref", ref)):
            f = os.path.join(d, "%s_%03d%s.cpp" % ("".join(g[0] for g in groups), ci, suf))
            txt = "\n".join(o) + "\n"
            if not os.path.exists(f) or open(f).read() != txt:
                open(f, "w").write(txt)
            files.append(f)
    m = '#include "prog.h"\n' + "\n".join("void programs_%d(Table &);" % i for i in range(len(chunks))) + "\nvoid programs(Table &t) {\n" + "\n".join("    programs_%d(t);" % i for i in range(len(chunks))) + "\n}\n"
    f = os.path.join(d, "%s_all.cpp" % "".join(g[0] for g in groups))
    if not os.path.exists(f) or open(f).read() != m:
        open(f, "w").write(m)
    return files + [f], n


def find_unsupported(groups, thorough, target):
    """prints the programs which do not compile for the target: files of 40, then single programs"""
    import mcbuild
    from concurrent.futures import ThreadPoolExecutor
    happ, v = mcbuild.hilapp(), mcbuild.variant(target + "2")
    inc = (mcbuild.VERIF + "/harness", mcbuild.VERIF + "/harness/prog")
    tmp = os.path.join(mcbuild.BUILD, "unsup")

    def bad(ps):
        d = os.path.join(tmp, hashlib.sha256("".join(key(p) for p in ps).encode()).hexdigest()[:12])
        fs, _ = generate(d, groups, thorough, 10 ** 6, target, ps)
        try:
            mcbuild.compile_one(fs[0], v, happ, inc)
            return None
        except mcbuild.BuildError as e:
            return str(e)
    progs = programs(groups, thorough, target)
    with ThreadPoolExecutor(mcbuild.JOBS) as ex:
        chunks = [progs[i:i + 40] for i in range(0, len(progs), 40)]
        while chunks:
            nxt = []
            for c, e in zip(chunks, ex.map(bad, chunks)):
                if e and len(c) == 1:
                    m = re.search(r"error: (.*)", e) or re.search(r"(.*Assert.*)", e)
                    print(target, key(c[0]), c[0]["body"].replace("\n", " ")[:150], "##", (m.group(1) if m else e[-100:])[:120].replace("\n", " "), flush=True)
                elif e:
                    k = max(1, len(c) // 5)
                    nxt += [c[i:i + k] for i in range(0, len(c), k)]
            chunks = nxt


if __name__ == "__main__":
    if sys.argv[1] == "unsupported":
        find_unsupported(sys.argv[3].split(","), "thorough" in sys.argv, sys.argv[2])
        sys.exit(0)
    fs, n = generate(sys.argv[1], sys.argv[2].split(","), len(sys.argv) > 4 and sys.argv[4] == "thorough", int(sys.argv[3]))
    print(n, "programs", len(fs), "files")
