// Matrix, Vector, DiagonalMatrix, Array: every operation against sums written out in complex long double
#include "hila.h"
#include "common.h"
#include "rm.h"
template <class T> T letter(int k) {   // alphabet of elements
    if constexpr (hila::is_complex<T>::value) {
        static const double re[] = {0, 1, -2, 0, 1, 3}, im[] = {0, 0, 1, -1, 2, 0};
        return T(re[k % 6], im[k % 6]);
    } else {
        static const double x[] = {0, 1, -2, 3, -1, 5};
        return (T)x[k % 6];
    }
}
template <class M> struct elem_of;
template <int n, int m, class T> struct elem_of<Matrix<n, m, T>> { using type = T; };
template <class M> const std::vector<M> &inputs(int full) {
    using T = typename elem_of<M>::type;
    constexpr int N = M::rows() * M::columns();
    static std::vector<M> v[2];
    auto &w = v[full];
    if (w.size()) return w;
    auto put = [&](auto f) { M a; for (int i = 0; i < N; i++) a.c[i] = letter<T>(f(i)); w.push_back(a); };
    if (full && N <= 9) {   // every matrix over an alphabet
        int na = N <= 2 ? 6 : N <= 4 ? 3 : 2;
        long tot = 1;
        for (int i = 0; i < N; i++) tot *= na;
        for (long k = 0; k < tot; k++) { long q = k; put([&](int) { int z = q % na; q /= na; return na == 3 && z ? z + 1 : z; }); }
    }
    put([](int) { return 0; });
    for (int s = 1; s < 6; s++) for (int j = 0; j < N; j++) put([&](int i) { return i == j ? s : 0; });
    for (int d = 0; d < 4; d++) put([&](int i) { return (i * (2 * d + 1) + d + (i * i) % 5) % 6; });
    put([](int i) { return 1 + i % 5; });
    put([](int i) { return 1 + (3 * i + 2) % 5; });
    return w;
}
template <class M> std::string S(const M &a) { return show(R(a)); }

template <class MA> void unary(const MA &A) {
    using T = typename elem_of<MA>::type;
    constexpr int n = MA::rows(), m = MA::columns();
    RM a = R(A);
    ga = a, gb = RM();
    IS(-A, scale(a, -1));
    IS(+A, a);
    IS(A.transpose(), trans(a));
    IS(transpose(A), trans(a));
    IS(A.conj(), cc(a));
    IS(conj(A), cc(a));
    IS(A.dagger(), cc(trans(a)));
    IS(dagger(A), cc(trans(a)));
    IS(A.adjoint(), cc(trans(a)));
    IS(adjoint(A), cc(trans(a)));
    IS(A.real(), each(a, [](cld x) { return cld(x.real()); }));
    IS(real(A), each(a, [](cld x) { return cld(x.real()); }));
    IS(A.imag(), each(a, [](cld x) { return cld(x.imag()); }));
    IS(imag(A), each(a, [](cld x) { return cld(x.imag()); }));
    IS(A.abs(), each(a, [](cld x) { return cld(std::abs(x)); }));
    IS(abs(A), each(a, [](cld x) { return cld(std::abs(x)); }));
    ld sq = 0, l1 = 0, mx = 0, mn = 1e30;
    cld sum = 0;
    for (auto &x : a.v) { sq += std::norm(x); l1 += std::abs(x); mx = std::max(mx, std::abs(x)); mn = std::min(mn, std::abs(x)); sum += x; }
    IS(A.squarenorm(), R(cld(sq)));
    IS(squarenorm(A), R(cld(sq)));
    IS(A.norm(), R(cld(sqrtl(sq))));
    IS(norm(A), R(cld(sqrtl(sq))));
    IS(A.norm_L1(), R(cld(l1)));
    IS(A.max_abs(), R(cld(mx)));
    IS(A.min_abs(), R(cld(mn)));
    IS(A.sum(), R(sum));
    for (int i = 0; i < n; i++) {
        RM r(1, m);
        for (int j = 0; j < m; j++) { r(0, j) = a(i, j); IS(A.e(i, j), R(a(i, j))); }
        IS(A.row(i), r);
        for (int k = 0; k < n; k++) {
            RM w = a;
            for (int j = 0; j < m; j++) w(k, j) = a(i, j);
            DO(C.set_row(k, A.row(i)), w);
        }
    }
    for (int j = 0; j < m; j++) {
        RM r(n, 1);
        for (int i = 0; i < n; i++) r(i, 0) = a(i, j);
        IS(A.column(j), r);
        for (int k = 0; k < m; k++) {
            RM w = a;
            for (int i = 0; i < n; i++) w(i, k) = a(i, j);
            DO(C.set_column(k, A.column(j)), w);
        }
    }
    IS(A.asArray(), a);
    IS(A.asArray().asMatrix(), a);
    truth("A == A", A == A, true);
    truth("A != A", A != A, false);
    DO(C = 0, RM(n, m));
    DO(C.fill(letter<T>(2)), each(a, [](cld) { return up(letter<T>(2)); }));
    {   // all permutations of rows and columns
        Vector<m, int> p;
        for (int i = 0; i < m; i++) p[i] = i;
        do {
            RM w(n, m);
            for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) w(i, j) = a(i, p[j]);
            IS(A.permute_columns(p), w);
        } while (std::next_permutation(&p[0], &p[0] + m));
        Vector<n, int> q;
        for (int i = 0; i < n; i++) q[i] = i;
        do {
            RM w(n, m);
            for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) w(i, j) = a(q[i], j);
            IS(A.permute_rows(q), w);
        } while (std::next_permutation(&q[0], &q[0] + n));
    }
    if constexpr (n == m && n > 1) {
        IS(A.trace(), R(tr(a)));
        IS(trace(A), R(tr(a)));
        RM d(n, n), dd = a;
        Vector<n, T> dv;
        for (int i = 0; i < n; i++) { d(i, i) = a(i, i); dd(i, i) = up(letter<T>(i + 1)); dv[i] = letter<T>(i + 1); }
        { auto C = A; is("diagonal()", C.diagonal(), d); }
        DO(C.set_diagonal(dv), dd);
        RM pw = diag(n, 1);
        for (int k = 0; k < 6; k++) {
            IS(pow(A, k), pw);
            pw = mul(pw, a);
        }
        DO(C *= C, mul(a, a));
        DO(C += C.e(0, 0), add(a, diag(n, a(0, 0))));
        DO(C -= C.e(0, 0), sub(a, diag(n, a(0, 0))));
        DO(C = C.e(0, 0), diag(n, a(0, 0)));
    }
    DO(C += C, scale(a, 2));
    DO(C -= C, RM(n, m));
    DO(C *= C.e(0, 0), scale(a, a(0, 0)));
    if (a(0, 0) != cld(0) && !std::is_integral<T>::value) DO(C /= C.e(0, 0), scale(a, ld(1) / a(0, 0)));
    if constexpr (n == 1 || m == 1) {
        constexpr int N = n * m;
        for (int i = 0; i < N; i++) { IS(A[i], R(a.v[i])); IS(A.e(i), R(a.v[i])); }
        Vector<N, int> p;
        for (int i = 0; i < N; i++) p[i] = i;
        do {
            RM w = a;
            for (int i = 0; i < N; i++) w.v[i] = a.v[p[i]];
            IS(A.permute(p), w);
        } while (std::next_permutation(&p[0], &p[0] + N));
        if constexpr (hila::is_arithmetic<T>::value) {
            auto v = a.v;
            std::sort(v.begin(), v.end(), [](cld x, cld y) { return x.real() < y.real(); });
            RM w = a, z = a;
            for (int i = 0; i < N; i++) { w.v[i] = v[i]; z.v[i] = v[N - 1 - i]; }
            IS(A.sort(), w);
            IS(A.sort(hila::sort::ascending), w);
            IS(A.sort(hila::sort::descending), z);
            IS(A.sort(hila::sort::unsorted), a);
            for (auto o : {hila::sort::ascending, hila::sort::descending, hila::sort::unsorted}) {
                Vector<N, int> q;
                auto s = A.sort(q, o);
                IS(A.permute(q), R(s));
                is("sort with permutation", s, o == hila::sort::ascending ? w : o == hila::sort::descending ? z : a);
            }
            IS(A.max(), R(v[N - 1]));
            IS(A.min(), R(v[0]));
            int k = -1;
            IS(A.max(k), R(v[N - 1]));
            truth("place of max", k >= 0 && k < N && a.v[k] == v[N - 1], true);
            IS(A.min(k), R(v[0]));
            truth("place of min", k >= 0 && k < N && a.v[k] == v[0], true);
        }
    }
    if constexpr (n != 1 && m != 1 && hila::is_arithmetic<T>::value) {
        ld hi = -1e30, lo = 1e30;
        for (auto &x : a.v) hi = std::max(hi, x.real()), lo = std::min(lo, x.real());
        IS(A.max(), R(cld(hi)));
        IS(A.min(), R(cld(lo)));
    }
    {   // text
        std::stringstream s, t;
        s.precision(17);
        s << A;
        std::vector<double> x;
        for (double d; s >> d;) x.push_back(d);
        size_t k = 0;
        for (auto &z : a.v) {
            truth("text of A", k < x.size() && std::abs(x[k] - (double)z.real()) < 1e-6, true);
            k++;
            if (hila::is_complex<T>::value) { truth("text of A", k < x.size() && std::abs(x[k] - (double)z.imag()) < 1e-6, true); k++; }
        }
        truth("text of A", x.size() == k, true);
        truth("A.str()", A.str() == hila::to_string(A), true);
    }
}
template <class MA, class Sc> void scalars(const MA &A, Sc s) {
    using T = typename elem_of<MA>::type;
    constexpr int n = MA::rows(), m = MA::columns();
    constexpr bool into = hila::is_complex<T>::value || !hila::is_complex<Sc>::value;
    constexpr bool integ = std::is_integral<T>::value;
    RM a = R(A);
    cld t = up(s);
    ga = a, gb = R(s);
    IS(A * s, scale(a, t));
    IS(s * A, scale(a, t));
    bool div = t != cld(0) && (!std::is_integral<T>::value || !std::is_integral<Sc>::value);
    if (div) IS(A / s, scale(a, ld(1) / t));
    IS(A.scalar_add(s), each(a, [&](cld x) { return x + t; }));
    if constexpr (into) IS(A.scalar_sub(s), each(a, [&](cld x) { return x - t; }));
    IS(hila::elem::add(A, s), each(a, [&](cld x) { return x + t; }));
    if constexpr (into) IS(hila::elem::sub(A, s), each(a, [&](cld x) { return x - t; }));
    IS(hila::elem::mul(A, s), each(a, [&](cld x) { return x * t; }));
    if constexpr (into) {
        DO(C *= s, scale(a, t));
        if constexpr (!integ) if (div) DO(C /= s, scale(a, ld(1) / t));
        DO(mult(A, s, C), scale(a, t));
        DO(mult(s, A, C), scale(a, t));
        DO(mult_add(A, s, C), add(a, scale(a, t)));
        DO(mult_add(s, A, C), add(a, scale(a, t)));
        DO(mult_sub(A, s, C), sub(a, scale(a, t)));
        DO(mult_sub(s, A, C), sub(a, scale(a, t)));
    }
    if constexpr (n == m && n > 1) {
        IS(A + s, add(a, diag(n, t)));
        IS(s + A, add(a, diag(n, t)));
        IS(A - s, sub(a, diag(n, t)));
        IS(s - A, sub(diag(n, t), a));
        if constexpr (into) {
            DO(C += s, add(a, diag(n, t)));
            DO(C -= s, sub(a, diag(n, t)));
            DO(C = s, diag(n, t));
            IS(MA(s), diag(n, t));
        }
    }
    // arrays: element by element
    auto B = A.asArray();
    IS(B + s, each(a, [&](cld x) { return x + t; }));
    IS(s + B, each(a, [&](cld x) { return x + t; }));
    if constexpr (into) {   // others do not compile
        IS(B - s, each(a, [&](cld x) { return x - t; }));
        IS(s - B, each(a, [&](cld x) { return t - x; }));
    }
    IS(B * s, scale(a, t));
    IS(s * B, scale(a, t));
    if (div) IS(B / s, scale(a, ld(1) / t));
    bool nz = true;
    for (auto &x : a.v) nz &= x != cld(0);
    if (nz && div) IS(s / B, each(a, [&](cld x) { return t / x; }));
    if constexpr (into) {
        auto A = B;   // for DO
        DO(C += s, each(a, [&](cld x) { return x + t; }));
        DO(C -= s, each(a, [&](cld x) { return x - t; }));
        DO(C *= s, scale(a, t));
        if constexpr (!integ) if (div) DO(C /= s, scale(a, ld(1) / t));
        DO(C = s, each(a, [&](cld) { return t; }));
    }
    // diagonal matrix
    if constexpr (m == 1) {
        DiagonalMatrix<n, T> A;
        for (int i = 0; i < n; i++) A.e(i) = B.e(i);
        RM a = R(A);
        RM e = diag(n, 1);
        IS(A + s, add(a, scale(e, t)));
        IS(s + A, add(a, scale(e, t)));
        IS(A - s, sub(a, scale(e, t)));
        IS(s - A, sub(scale(e, t), a));
        IS(A * s, scale(a, t));
        IS(s * A, scale(a, t));
        if (div) IS(A / s, scale(a, ld(1) / t));
        if (nz && div) { RM w(n, n); for (int i = 0; i < n; i++) w(i, i) = t / a(i, i); IS(s / A, w); }
        if constexpr (into) {
            DO(C += s, add(a, scale(e, t)));
            DO(C -= s, sub(a, scale(e, t)));
            DO(C *= s, scale(a, t));
            if constexpr (!integ) if (div) DO(C /= s, scale(a, ld(1) / t));
            DO(C = s, scale(e, t));
        }
        IS(-A, scale(a, -1));
        IS(+A, a);
        IS(A.trace(), R(tr(a)));
        IS(A.dagger(), cc(a));
        IS(A.conj(), cc(a));
        IS(A.transpose(), a);
        cld d = 1;
        ld sq = 0;
        for (int i = 0; i < n; i++) d *= a(i, i), sq += std::norm(a(i, i));
        IS(A.det(), R(d));
        IS(A.squarenorm(), R(cld(sq)));
        IS(A.real(), each(a, [](cld x) { return cld(x.real()); }));
        IS(A.imag(), each(a, [](cld x) { return cld(x.imag()); }));
        IS(A.toMatrix(), a);
        DO(C *= C.e(0), scale(a, a(0, 0)));
        DO(C += C.e(0), add(a, scale(e, a(0, 0))));
        DO(C -= C.e(0), sub(a, scale(e, a(0, 0))));
        if (a(0, 0) != cld(0) && !integ) DO(C /= C.e(0), scale(a, ld(1) / a(0, 0)));
    }
}
template <class MA, class MB> void same(const MA &A, const MB &B) {
    using T = typename elem_of<MA>::type;
    using U = typename elem_of<MB>::type;
    constexpr int n = MA::rows(), m = MA::columns();
    constexpr bool into = hila::is_complex<T>::value || !hila::is_complex<U>::value;
    RM a = R(A), b = R(B);
    ga = a, gb = b;
    RM p = each2(a, b, [](cld x, cld y) { return x * y; });
    IS(A + B, add(a, b));
    IS(A - B, sub(a, b));
    truth("A == B", A == B, a.v == b.v);
    if constexpr (std::is_same<T, U>::value) truth("A != B", A != B, a.v != b.v);
    IS(A.element_mul(B), p);
    IS(A.asArray() + B.asArray(), add(a, b));
    IS(A.asArray() - B.asArray(), sub(a, b));
    IS(A.asArray() * B.asArray(), p);
    IS(hila::elem::mul(A, B), p);
    IS(A.mul_trace(B.dagger()), R(tr(mul(a, cc(trans(b))))));
    IS(mul_trace(A, B.dagger()), R(tr(mul(a, cc(trans(b))))));
    bool nz = !std::is_integral<T>::value || !std::is_integral<U>::value;
    for (auto &x : b.v) nz &= x != cld(0);
    RM q;
    if (nz) q = each2(a, b, [](cld x, cld y) { return x / y; });
    if (nz) {
        IS(A.element_div(B), q);
        IS(A.asArray() / B.asArray(), q);
    }
    if constexpr (into) {
        DO(C = B, b);
        DO(C += B, add(a, b));
        DO(C -= B, sub(a, b));
        auto A1 = A.asArray();
        auto B1 = B.asArray();
        auto A = A1;   // for DO
        DO(C = B1, b);
        if constexpr (hila::is_complex<T>::value == hila::is_complex<U>::value) {   // others do not compile
            DO(C += B1, add(a, b));
            DO(C -= B1, sub(a, b));
        }
        DO(C *= B1, p);
        if constexpr (!std::is_integral<T>::value) if (nz) DO(C /= B1, q);
    }
    if constexpr (m == 1 && n > 1) {
        IS(A.dot(B), R(tr(mul(cc(trans(a)), b))));
        IS(A.outer_product(B), mul(a, cc(trans(b))));
        IS(A.dagger() * B, R(tr(mul(cc(trans(a)), b))));
        IS(A * B.dagger(), mul(a, cc(trans(b))));
        IS(A.transpose() * B, R(tr(mul(trans(a), b))));
        // as diagonal matrices
        DiagonalMatrix<n, T> D;
        DiagonalMatrix<n, U> E;
        for (int i = 0; i < n; i++) D.e(i) = A.e(i), E.e(i) = B.e(i);
        RM d = R(D), e = R(E), f(n, n);
        if (nz) for (int i = 0; i < n; i++) f(i, i) = d(i, i) / e(i, i);
        IS(D + E, add(d, e));
        IS(D - E, sub(d, e));
        IS(D * E, mul(d, e));
        if (nz) IS(D / E, f);
        truth("D == E", D == E, d.v == e.v);
        if constexpr (into) {
            auto A = D;
            DO(C = E, e);
            DO(C += E, add(d, e));
            DO(C -= E, sub(d, e));
            DO(C *= E, mul(d, e));
            if constexpr (!std::is_integral<T>::value) if (nz) DO(C /= E, f);
        }
        IS(D * B, mul(d, b));
        IS(B.transpose() * D, mul(trans(b), d));
    }
}
template <class MA, class MB> void product(const MA &A, const MB &B) {
    using T = typename elem_of<MA>::type;
    using U = typename elem_of<MB>::type;
    constexpr int n = MA::rows(), p = MB::columns();
    constexpr bool into = hila::is_complex<T>::value || !hila::is_complex<U>::value;
    using Rt = hila::type_mul<T, U>;
    RM a = R(A), b = R(B), ab = mul(a, b);
    ga = a, gb = b;
    IS(A * B, ab);
    Matrix<n, p, Rt> M;
    Matrix<p, n, Rt> N;
    for (int i = 0; i < n * p; i++) M.c[i] = letter<Rt>(i + 1);
    RM m0 = R(M);
    { auto A1 = A; (void)A1; auto C = M; mult(A, B, C); is("mult(A, B, C)", C, ab); }
    { auto C = M; mult_add(A, B, C); is("mult_add(A, B, C)", C, add(m0, ab)); }
    { auto C = M; mult_sub(A, B, C); is("mult_sub(A, B, C)", C, sub(m0, ab)); }
    { mult_aa(A, B, N); is("mult_aa(A, B, C)", N, cc(trans(ab))); }
    if constexpr (n == p) {
        IS(A.mul_trace(B), R(tr(ab)));
        IS(mul_trace(A, B), R(tr(ab)));
    }
    if constexpr (n == p && n == MA::columns() && n > 1) {
        if constexpr (into) DO(C *= B, ab);
        // diagonal of B
        DiagonalMatrix<n, U> D;
        for (int i = 0; i < n; i++) D.e(i) = B.e(i, i);
        RM d = R(D);
        bool nz = !std::is_integral<T>::value || !std::is_integral<U>::value;
        for (int i = 0; i < n; i++) nz &= d(i, i) != cld(0);
        RM inv(n, n);
        if (nz) for (int i = 0; i < n; i++) inv(i, i) = ld(1) / d(i, i);
        IS(A + D, add(a, d));
        IS(D + A, add(a, d));
        IS(A - D, sub(a, d));
        IS(D - A, sub(d, a));
        IS(A * D, mul(a, d));
        IS(D * A, mul(d, a));
        if (nz) IS(A / D, mul(a, inv));
        truth("A == D", A == D, a.v == d.v);
        truth("D == A", D == A, a.v == d.v);
        if constexpr (into) {
            DO(C = D, d);
            DO(C += D, add(a, d));
            DO(C -= D, sub(a, d));
            DO(C *= D, mul(a, d));
            if constexpr (!std::is_integral<T>::value) if (nz) DO(C /= D, mul(a, inv));
        }
        if constexpr (into && n >= 3) {   // 2x2 blocks
            Matrix<2, 2, U> Q;
            for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) Q.e(i, j) = B.e(i, j);
            RM q = R(Q);
            for (int r = 0; r < n; r++) for (int s = 0; s < n; s++) if (r != s) {
                RM E = diag(n, 1);
                E(r, r) = q(0, 0), E(r, s) = q(0, 1), E(s, r) = q(1, 0), E(s, s) = q(1, 1);
                DO(C.mult_by_2x2_left(r, s, Q), mul(E, a));
                DO(C.mult_by_2x2_right(r, s, Q), mul(a, E));
            }
        }
    }
}
template <class M1, class M2, class F> void pairs(int full, int part, int parts, F f) {
    full = full && M1::rows() * M1::columns() <= 4 && M2::rows() * M2::columns() <= 4;
    auto &x = inputs<M1>(full);
    auto &y = inputs<M2>(full);
    for (size_t i = part; i < x.size(); i += parts) for (auto &b : y) f(x[i], b);
}
template <class B> constexpr ld eps() { return std::is_integral<B>::value ? 0 : std::is_same<B, float>::value ? 2e-5L : 2e-14L; }
template <class T, class U> void settol() {
    using A = hila::arithmetic_type<T>;
    using B = hila::arithmetic_type<U>;
    tol = std::max(eps<A>(), eps<B>());
}
static int part, parts, full;
template <class T, class U, int n, int m, int p> void run() {
    settol<T, U>();
    if constexpr (std::is_same<T, U>::value) {
        auto &v = inputs<Matrix<n, m, T>>(full);
        for (size_t i = part; i < v.size(); i += parts) { tol = std::max(tol, (ld)1e-15); unary(v[i]); tol = eps<hila::arithmetic_type<T>>(); }
    }
    auto &v = inputs<Matrix<n, m, T>>(full);
    for (size_t i = part; i < v.size(); i += parts) for (int s = 0; s < 6; s++) { if (std::is_integral<T>::value) tol = 1e-13; scalars(v[i], letter<U>(s)); settol<T, U>(); }
    pairs<Matrix<n, m, T>, Matrix<n, m, U>>(full, part, parts, [](auto &a, auto &b) { if (tol == 0) tol = 1e-13; same(a, b); });
    settol<T, U>();
    if constexpr (p > 0) pairs<Matrix<n, m, T>, Matrix<m, p, U>>(full, part, parts, [](auto &a, auto &b) { product(a, b); });
}
template <class T, class U> void types(int shape) {
    switch (shape) {
    case 0: run<T, U, 2, 2, 2>(); break;
    case 1: run<T, U, 3, 3, 3>(); break;
    case 2: run<T, U, 2, 3, 4>(); break;
    case 3: run<T, U, 3, 2, 1>(); break;
    case 4: run<T, U, 4, 4, 4>(); break;
    case 5: run<T, U, 3, 1, 2>(); break;
    case 6: run<T, U, 1, 3, 2>(); break;
    case 7: run<T, U, 4, 1, 3>(); break;
    case 8: run<T, U, 2, 1, 2>(); break;
    case 9: run<T, U, 1, 4, 1>(); break;
    }
}
// MC_T, MC_U: element types of the two operands
HARNESS_MAIN {
    hila::initialize(argc, argv);
    int s = mc_global_choose(10, "shape");
    parts = mc_param("parts", 4);
    full = mc_param("full", 1);
    part = mc_global_choose(parts, "part");
    types<MC_T, MC_U>(s);
    return 0;
}
