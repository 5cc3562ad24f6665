// linear algebra of square matrices: determinants, LU, eigenvalues, SVD, exponentials and their derivatives
#include "hila.h"
#include "common.h"
#include "rm.h"
typedef MC_T T;
using B = hila::arithmetic_type<T>;
constexpr bool CX = hila::is_complex<T>::value;
constexpr bool INT = std::is_integral<B>::value;
constexpr ld EPS = INT ? 0 : std::is_same<B, float>::value ? 6e-8L : 1.2e-16L;
static ld fro(const RM &a) { ld s = 0; for (auto &x : a.v) s += std::norm(x); return std::sqrt(s); }
static RM adj(const RM &a) { return cc(trans(a)); }
static void close_(const char *what, const RM &got, const RM &want, ld bound) {
    mc_compared(1);
    if (got.r != want.r || got.c != want.c) mc_fail("%s has shape %dx%d, not %dx%d: %s", what, got.r, got.c, want.r, want.c, show(ga).c_str());
    for (size_t i = 0; i < want.v.size(); i++)
        if (!(std::abs(got.v[i] - want.v[i]) <= bound)) mc_fail("%s: is %s, should be %s (limit %Lg); operands %s", what, show(got).c_str(), show(want).c_str(), bound, args.c_str());
}
static cld refdet(const RM &a) {   // sum over permutations
    int n = a.r;
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    cld d = 0;
    do {
        cld t = 1;
        for (int i = 0; i < n; i++) t *= a(i, p[i]);
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (p[i] > p[j]) t = -t;
        d += t;
    } while (std::next_permutation(p.begin(), p.end()));
    return d;
}
static ld rowprod(const RM &a) {
    ld p = 1;
    for (int i = 0; i < a.r; i++) { ld s = 0; for (int j = 0; j < a.c; j++) s += std::abs(a(i, j)); p *= s; }
    return p;
}
static RM refexp(const RM &a) {
    ld f = fro(a), s = 1;
    int nb = 0;
    while (f * s > 0.5L) s /= 2, nb++;
    RM x = scale(a, s), r = diag(a.r, 1), t = r;
    for (int k = 1; k < 30; k++) t = scale(mul(t, x), 1.0L / k), r = add(r, t);
    while (nb--) r = mul(r, r);
    return r;
}
// sum_k 1/k! sum_l A^l M A^(k-1-l): upper right block of exp([[A, M], [0, A]])
static RM refdexp(const RM &a, const RM &m) {
    int n = a.r;
    RM b(2 * n, 2 * n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b(i, j) = b(n + i, n + j) = a(i, j), b(i, n + j) = m(i, j);
    RM e = refexp(b), r(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r(i, j) = e(i, n + j);
    return r;
}
template <int n> using SM = SquareMatrix<n, T>;
template <int n> void determinant(const SM<n> &A) {
    RM a = R(A);
    cld d = refdet(a);
    ld lim = 30 * n * EPS * rowprod(a) + 0;
    auto one = [&](const char *w, T g) { RM x(1, 1); x.v[0] = d; close_(w, R(g), x, lim); };
    one("det()", A.det());
    one("det(A)", det(A));
    one("det_laplace()", A.det_laplace());
    one("det_laplace(A)", det_laplace(A));
    if constexpr (!INT) {
        ld lu = lim * (1 << n);
        lim = lu;
        one("det_lu()", A.det_lu());
        one("det_lu(A)", det_lu(A));
    }
}
template <int n> void lu(const SM<n> &A) {
    if constexpr (!INT) {
        RM a = R(A);
        if (std::abs(refdet(a)) <= 1e-6L * rowprod(a)) return;   // singular
        auto f = A.LU_decompose();
        RM L = diag(n, 1), U(n, n), P(n, n), lu = R(f.LU);
        std::vector<int> seen(n);
        for (int i = 0; i < n; i++) {
            int p = f.P.c[i];
            if (p < 0 || p >= n || seen[p]++) mc_fail("P of LU_decompose() is no permutation: %s", show(ga).c_str());
            P(i, p) = 1;
            for (int j = 0; j < n; j++) {
                if (j < i) L(i, j) = lu(i, j); else U(i, j) = lu(i, j);
                if (j < i && std::abs(lu(i, j)) > 1 + 1e-9) mc_fail("LU_decompose() did not pivot: %s", show(ga).c_str());
            }
        }
        ld fa = fro(a), e = 40 * n * 1.2e-16L;
        close_("L U = P A", mul(L, U), mul(P, a), e * fa);
        e = 40 * n * EPS;
        Vector<n, T> b;
        for (int k = 0; k <= n; k++) {
            for (int i = 0; i < n; i++) b.c[i] = k == n ? T((B)(i + 1)) : T((B)(i == k));
            for (int w = 0; w < 3; w++) {
                auto x = w == 0 ? f.solve(b) : w == 1 ? A.LU_solve(b) : A.invert_mul(b);
                RM rx = R(x);
                close_("A solve(b) = b", mul(a, rx), R(b), e * (fa * fro(rx)));
            }
        }
        RM x = R(f.invert());
        close_("A invert() = 1", mul(a, x), diag(n, 1), e * fa * fro(x));
        x = R(A.LU_invert());
        close_("A LU_invert() = 1", mul(a, x), diag(n, 1), e * fa * fro(x));
        Matrix<n, 3, T> M;
        for (int i = 0; i < n * 3; i++) M.c[i] = T((B)(i % 4 - 1));
        x = R(A.LU_solve(M));
        close_("A LU_solve(M) = M", mul(a, x), R(M), e * fa * fro(x));
        x = R(A.invert_mul(M));
        close_("A invert_mul(M) = M", mul(a, x), R(M), e * fa * fro(x));
    }
}
static bool sorted(const RM &e, hila::sort s) {
    for (int i = 1; i < e.r; i++) {
        ld x = e(i - 1, i - 1).real(), y = e(i, i).real();
        if (s == hila::sort::ascending && x > y) return false;
        if (s == hila::sort::descending && x < y) return false;
    }
    return true;
}
static const hila::sort SORTS[] = {hila::sort::unsorted, hila::sort::ascending, hila::sort::descending};
template <int n> void eigen(const SM<n> &A) {
    if constexpr (!INT) {
        SM<n> H = A + A.dagger();
        RM h = R(H);
        ga = h;
        ld f = fro(h), e = 100 * n * EPS;
        auto chk = [&](const RM &E, const RM &U, hila::sort s) {
            close_("U^+ U of eigen_hermitean()", mul(adj(U), U), diag(n, 1), e);
            close_("H U = U E of eigen_hermitean()", mul(h, U), mul(U, E), e * f);
            if (!sorted(E, s)) mc_fail("eigenvalues are not sorted: %s", show(E).c_str());
        };
        for (auto s : SORTS) {
            auto r = H.eigen_hermitean(s);
            chk(R(r.eigenvalues), R(r.eigenvectors), s);
            DiagonalMatrix<n, double> E;
            SquareMatrix<n, std::conditional_t<CX, Complex<double>, double>> U;
            if (H.eigen_hermitean(E, U, s) >= 100 * n * n) mc_fail("eigen_hermitean() does not converge for %s", show(ga).c_str());
            chk(R(E), R(U), s);
            Vector<n, double> ev;
            H.eigen_jacobi(ev, U, s);
            RM D(n, n);
            for (int i = 0; i < n; i++) D(i, i) = ev[i];
            chk(D, R(U), s);
        }
    }
}
template <int n> void svd(const SM<n> &A) {
    if constexpr (!INT) {
        RM a = R(A);
        ld f = fro(a), e = 100 * n * EPS;
        auto chk = [&](const char *w, const RM &U, const RM &S, const RM &V, hila::sort s) {
            close_((std::string(w) + ": V^+ V").c_str(), mul(adj(V), V), diag(n, 1), e);
            for (int i = 0; i < n; i++) if (!(S(i, i).real() >= 0)) mc_fail("%s: negative singular value %s", w, show(S).c_str());
            close_((std::string(w) + ": A V = U S").c_str(), mul(a, V), mul(U, S), e * f);
            close_((std::string(w) + ": U^+ U").c_str(), mul(adj(U), U), diag(n, 1), e);
            if (!sorted(S, s)) mc_fail("singular values are not sorted: %s", show(S).c_str());
        };
        for (auto s : SORTS) {
            auto r = A.svd(s);
            chk("svd()", R(r.U), R(r.singularvalues), R(r.V), s);
            auto q = A.svd_pivot(s);
            chk("svd_pivot()", R(q.U), R(q.singularvalues), R(q.V), s);
            DiagonalMatrix<n, double> S;
            SquareMatrix<n, std::conditional_t<CX, Complex<double>, double>> U, V;
            A.svd(U, S, V, s);
            chk("svd(U,S,V)", R(U), R(S), R(V), s);
            A.svd_pivot(U, S, V, s);
            chk("svd_pivot(U,S,V)", R(U), R(S), R(V), s);
        }
    }
}
template <int n> void exponential(const SM<n> &A0, ld len) {
    if constexpr (!INT) {
        // scaled to the given norm
        ld f = fro(R(A0));
        if (f == 0 && len != 1) return;
        SM<n> A = A0;
        if (f > 0) A *= (B)(len / f);
        RM a = R(A), x = refexp(a);
        ga = a, gb = RM();
        ld g = std::exp(len), e = 100 * n * EPS * g;
        if (len <= 1) {
            close_("exp(A)", R(exp(A)), x, e);
            if (len <= 0.25) for (int k = 0; k < 8; k++) close_("exp(A, order)", R(exp(A, k)), x, e + 2 * std::pow(len, k + 1));
            ld lim = e;
            close_("altexp(A)", R(altexp(A)), x, lim);
            int k;
            close_("altexp(A, k)", R(altexp(A, k)), x, lim);
        }
        if constexpr (n > 1) {
            close_("chexp(A)", R(chexp(A)), x, e);
            SM<n> o, pl[n];
            int k;
            chexp(A, o);
            close_("chexp(A, r)", R(o), x, e);
            close_("chexp(A, k)", R(chexp(A, k)), x, e);
            chexp(A, o, pl);
            close_("chexp(A, r, pl)", R(o), x, e);
            close_("chexp(A, pl)", R(chexp(A, pl)), x, e);
            close_("chexp(A, k, pl)", R(chexp(A, k, pl)), x, e);
            if (len <= 4) close_("chsexp(A)", R(chsexp(A)), x, e * (1 + len * len));
        }
    }
}
template <int n> void derivatives(const SM<n> &A0, const SM<n> &M, ld len) {
    if constexpr (!INT) {
        ld f = fro(R(A0)), fm = fro(R(M));
        if (f == 0 && len != 1) return;
        SM<n> A = A0, o, d, k;
        if (f > 0) A *= (B)(len / f);
        RM a = R(A), m = R(M), x = refexp(a);
        ga = a, gb = m;
        ld e = 200 * n * EPS * std::exp(len) * (1 + fm) * (1 + len);
        if (len <= 1) {
            mult_exp(A, M, o, d);
            close_("mult_exp: M exp(A)", R(o), mul(m, x), e);
            close_("mult_exp: derivative", R(d), refdexp(a, m), e);
        }
        if constexpr (n > 1) {
            RM t = mul(adj(x), m), w = mul(t, x), dw = refdexp(a, t);
            e *= std::exp(len);
            mult_chexp(A, M, o, d);
            close_("mult_chexp: exp^+ M exp", R(o), w, e);
            close_("mult_chexp: derivative", R(d), dw, e);
            SM<n> ex;
            chexpk(A, ex, k);
            close_("chexpk: exp", R(ex), x, e);
            mult_chexpk_fast(A, ex, k, M, o, d);
            close_("mult_chexpk_fast: exp^+ M exp", R(o), w, e);
            close_("mult_chexpk_fast: derivative", R(d), dw, e);
            close_("chexpk(A, k)", R(chexpk(A, k)), x, e);
            SM<n> dm[n][n];
            chexp(A, ex, dm);
            close_("chexp with derivatives: exp", R(ex), x, e);
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {   // d exp / d A_ji
                RM E(n, n);
                E(j, i) = 1;
                close_("chexp: derivative matrix", R(dm[i][j]), refdexp(a, E), e);
            }
        }
    }
}
template <int n> void sherman(const SM<n> &A) {
    if constexpr (!INT) {
        DiagonalMatrix<n, T> D;
        RM d(n, n);
        for (int i = 0; i < n; i++) { D.e(i) = A.c[i] + T((B)2.5); if (squarenorm(D.e(i)) < 0.1) D.e(i) = (B)1; d(i, i) = up(D.e(i)); }
        for (double c : {0.0, 0.5, -1.0, 3.0}) {
            RM m = d;
            for (auto &x : m.v) x += c;
            if (std::abs(refdet(m)) < 0.05L * std::abs(refdet(d))) continue;
            auto r = hila::invert_diagonal_plus_constant_matrix(D, (B)c);
            close_("invert_diagonal_plus_constant_matrix()", mul(m, R(r)), diag(n, 1), 2000 * n * EPS);
        }
    }
}
template <class U> U letter_(int k) {
    if constexpr (hila::is_complex<U>::value) {
        static const double re[] = {0, 1, -2, 0, 1, 3}, im[] = {0, 0, 1, -1, 2, 0};
        return U(re[k % 6], im[k % 6]);
    } else {
        static const double x[] = {0, 1, -2, 3, -1, 5};
        return (U)x[k % 6];
    }
}
static T letter(int k) { return letter_<T>(k); }
template <int n> std::vector<SM<n>> inputs() {
    std::vector<SM<n>> w;
    constexpr int N = n * n;
    auto put = [&](auto f) { SM<n> a; for (int i = 0; i < N; i++) a.c[i] = f(i / n, i % n); w.push_back(a); };
    int na = N == 1 ? 6 : N == 4 ? (mc_param("full", 0) ? 6 : 5) : N == 9 ? (mc_param("full", 0) ? 3 : 2) : 0;   // every matrix over an alphabet
    if (na) {
        long tot = 1;
        for (int i = 0; i < N; i++) tot *= na;
        for (long k = 0; k < tot; k++) { long q = k; put([&](int, int) { int z = q % na; q /= na; return letter(na <= 3 && z ? z + 1 : z); }); }
    }
    put([](int, int) { return letter(0); });
    for (int s = 1; s < 6; s++) for (int p = 0; p < N; p++) put([&](int i, int j) { return i * n + j == p ? letter(s) : T(0); });
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    int np = 0;
    do {   // permutations with factors
        put([&](int i, int j) { return j == p[i] ? letter(1 + i % 3) : T(0); });
        put([&](int i, int j) { return (j == p[i] ? letter(4) : T(0)) + letter((i + 2 * j) % 3); });
    } while (std::next_permutation(p.begin(), p.end()) && ++np < 200);
    for (int d = 0; d < 12; d++) put([&](int i, int j) { int k = i * n + j; return letter((k * (2 * d + 1) + d + (k * k) % 5 + i * j) % 6); });
    for (int d = 0; d < 4; d++) put([&](int i, int j) { return letter(d + 1) * letter((i + d) % 5 + 1) * letter(j % 4 + 1); });   // rank 1
    if (!INT) {
        put([&](int i, int j) { return T((B)(1.0 / (1 + i + j))); });
        put([&](int i, int j) { return i == j ? letter(3) : T((B)1e-5); });
        put([&](int i, int j) { return letter(i + j + 1) * (B)std::pow(10.0, i - j); });
    }
    for (int d = 0; d < n; d++) put([&](int i, int j) { return j >= i + d ? letter(1 + i + j) : T(0); });   // triangular, nilpotent
    for (int d = 0; d < n; d++) put([&](int i, int j) { return i == d ? T(0) : letter(1 + (i * i + j * 3) % 5); });   // zero row
    for (int d = 0; d < n; d++) put([&](int i, int j) { return j == d ? T(0) : letter(1 + (i * 2 + j * j) % 5); });   // zero column
    return w;
}
template <int n> void run(int what, int part, int parts) {
    auto v = inputs<n>();
    for (size_t i = part; i < v.size(); i += parts) {
        auto &A = v[i];
        ga = R(A), gb = RM();
        if (what == 0) {
            determinant<n>(A);
            lu<n>(A);
            sherman<n>(A);
            if (!INT) for (double s : {1e-3, 1e3}) { SM<n> C = A; C *= (B)s; ga = R(C); determinant<n>(C); lu<n>(C); }
        }
        if (what == 1) { eigen<n>(A); if (!INT) { SM<n> C = A; C *= (B)1e-3; eigen<n>(C); C *= (B)1e7; eigen<n>(C); } }
        if (what == 2) { svd<n>(A); if (!INT) { SM<n> C = A; C *= (B)1e-3; ga = R(C); svd<n>(C); C *= (B)1e7; ga = R(C); svd<n>(C); } }
        if (what == 3) for (ld l : {1.0L, 1e-6L, 0.25L, 2.5L, 4.0L, 8.0L}) exponential<n>(A, l);
        if (what == 4) for (ld l : {1e-6L, 0.7L, 1.0L, 3.0L}) for (int k = 0; k < 3; k++) derivatives<n>(A, v[(i * 7 + k * 31 + 11) % v.size()], l);
    }
}
HARNESS_MAIN {
    hila::initialize(argc, argv);
    int n = 2 + mc_global_choose(mc_param("nmax", INT ? 6 : 5) - 1, "n"), parts = mc_param("parts", 12);
    int what = mc_global_choose(INT ? 1 : 5, "what"), part = mc_global_choose(parts, "part");
    mc_state(n * 10 + what);
    switch (n) {
    case 2: run<2>(what, part, parts); break;
    case 3: run<3>(what, part, parts); break;
    case 4: run<4>(what, part, parts); break;
    case 5: run<5>(what, part, parts); break;
    case 6: run<6>(what, part, parts); break;
    }
    return 0;
}
