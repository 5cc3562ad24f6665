// reference matrices in complex long double
#pragma once
#include <complex>
#include <algorithm>
typedef long double ld;
typedef std::complex<ld> cld;
struct RM {
    int r = 0, c = 0;
    std::vector<cld> v;
    RM() {}
    RM(int a, int b) : r(a), c(b), v(a * b) {}
    cld &operator()(int i, int j) { return v[i * c + j]; }
    const cld &operator()(int i, int j) const { return v[i * c + j]; }
};
template <class T> cld up(const T &x) {
    if constexpr (hila::is_complex<T>::value) return cld((ld)x.re, (ld)x.im);
    else return cld((ld)x, 0);
}
template <int n, int m, class T, class M> RM R(const Matrix_t<n, m, T, M> &a) {
    RM r(n, m);
    for (int i = 0; i < n * m; i++) r.v[i] = up(a.c[i]);
    return r;
}
template <int n, int m, class T> RM R(const Array<n, m, T> &a) {
    RM r(n, m);
    for (int i = 0; i < n * m; i++) r.v[i] = up(a.c[i]);
    return r;
}
template <int n, class T> RM R(const DiagonalMatrix<n, T> &a) {
    RM r(n, n);
    for (int i = 0; i < n; i++) r(i, i) = up(a.c[i]);
    return r;
}
template <class T, std::enable_if_t<hila::is_complex_or_arithmetic<T>::value, int> = 0> RM R(const T &a) {
    RM r(1, 1);
    r.v[0] = up(a);
    return r;
}
static RM R(const cld &a) { RM r(1, 1); r.v[0] = a; return r; }
template <class F> RM each(const RM &a, F f) { RM r(a.r, a.c); for (size_t i = 0; i < a.v.size(); i++) r.v[i] = f(a.v[i]); return r; }
template <class F> RM each2(const RM &a, const RM &b, F f) { RM r(a.r, a.c); for (size_t i = 0; i < a.v.size(); i++) r.v[i] = f(a.v[i], b.v[i]); return r; }
static RM add(const RM &a, const RM &b) { return each2(a, b, [](cld x, cld y) { return x + y; }); }
static RM sub(const RM &a, const RM &b) { return each2(a, b, [](cld x, cld y) { return x - y; }); }
static RM mul(const RM &a, const RM &b) {
    RM r(a.r, b.c);
    for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) for (int k = 0; k < a.c; k++) r(i, j) += a(i, k) * b(k, j);
    return r;
}
static RM scale(const RM &a, cld s) { return each(a, [&](cld x) { return x * s; }); }
static RM diag(int n, cld s) { RM r(n, n); for (int i = 0; i < n; i++) r(i, i) = s; return r; }
static RM trans(const RM &a) { RM r(a.c, a.r); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) r(j, i) = a(i, j); return r; }
static RM cc(const RM &a) { return each(a, [](cld x) { return std::conj(x); }); }
static cld tr(const RM &a) { cld s = 0; for (int i = 0; i < a.r; i++) s += a(i, i); return s; }
static std::string show(const RM &a) {
    std::stringstream s;
    s << "[";
    for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) s << (j ? " " : i ? "; " : "") << (double)a(i, j).real() << (a(i, j).imag() != 0 ? (a(i, j).imag() > 0 ? "+" : "") + std::to_string((double)a(i, j).imag()) + "i" : std::string());
    return s.str() + "]";
}
static RM ga, gb;
static std::string args_();
#define args args_()
static std::string args_() { return show(ga) + ", " + show(gb); }
static ld tol;
template <class G> void is(const char *what, const G &got, const RM &want) {
    RM g = R(got);
    mc_compared(1);
    if (g.r * g.c != want.r * want.c || g.v.size() != want.v.size()) mc_fail("%s has shape %dx%d, not %dx%d: %s", what, g.r, g.c, want.r, want.c, args.c_str());
    ld s = 1;
    for (auto &x : want.v) s = std::max(s, std::abs(x));
    for (size_t i = 0; i < want.v.size(); i++)
        if (!(std::abs(g.v[i] - want.v[i]) <= tol * s)) mc_fail("%s gives %s, should be %s; operands %s", what, show(g).c_str(), show(want).c_str(), args.c_str());
}
static void truth(const char *what, bool got, bool want) {
    mc_compared(1);
    if (got != want) mc_fail("%s is %d: %s", what, got, args.c_str());
}
#define IS(e, w) is(#e, e, w)
#define DO(st, w) do { auto C = A; st; is(#st, C, w); } while (0)

