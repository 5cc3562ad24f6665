// SU(N), SU(2) in quaternion form, U(1), their algebras and generators
#include "hila.h"
#include "datatypes/u1.h"
#include "common.h"
#include "rm.h"
typedef MC_T T;
typedef Complex<T> C;
constexpr ld EPS = std::is_same<T, float>::value ? 6e-8L : 1.2e-16L;
constexpr ld PI = 3.141592653589793238462643383279502884L;
static RM adj(const RM &a) { return cc(trans(a)); }
static ld fro(const RM &a) { ld s = 0; for (auto &x : a.v) s += std::norm(x); return std::sqrt(s); }
static RM refexp(const RM &a) {
    ld f = fro(a), s = 1;
    int nb = 0;
    while (f * s > 0.5L) s /= 2, nb++;
    RM x = scale(a, s), r = diag(a.r, 1), t = r;
    for (int k = 1; k < 30; k++) t = scale(mul(t, x), 1.0L / k), r = add(r, t);
    while (nb--) r = mul(r, r);
    return r;
}
static cld refdet(RM a) {
    cld d = 1;
    int n = a.r;
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k; i < n; i++) if (std::abs(a(i, k)) > std::abs(a(p, k))) p = i;
        if (a(p, k) == cld(0)) return 0;
        if (p != k) { d = -d; for (int j = 0; j < n; j++) std::swap(a(p, j), a(k, j)); }
        d *= a(k, k);
        for (int i = k + 1; i < n; i++) { cld f = a(i, k) / a(k, k); for (int j = k; j < n; j++) a(i, j) -= f * a(k, j); }
    }
    return d;
}
// generators: diagonal ones, then for each i<j the antisymmetric and the symmetric one
static std::vector<RM> gens(int N) {
    std::vector<RM> g;
    for (int k = 1; k < N; k++) {
        RM m(N, N);
        ld f = 1 / std::sqrt(2.0L * k * (k + 1));
        for (int j = 0; j < k; j++) m(j, j) = cld(0, f);
        m(k, k) = cld(0, -k * f);
        g.push_back(m);
    }
    for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) {
        RM a(N, N), s(N, N);
        a(i, j) = 0.5L, a(j, i) = -0.5L;
        s(i, j) = s(j, i) = cld(0, 0.5L);
        g.push_back(a), g.push_back(s);
    }
    return g;
}
template <class S> RM R(const SU2<S> &u) {
    RM r(2, 2);
    r(0, 0) = cld(u.d, u.c), r(0, 1) = cld(u.b, u.a), r(1, 0) = cld(-u.b, u.a), r(1, 1) = cld(u.d, -u.c);
    return r;
}
template <class S> RM R(const Algebra<SU2<S>> &u) {
    RM r(2, 2);
    r(0, 0) = cld(0, u.c), r(0, 1) = cld(u.b, u.a), r(1, 0) = cld(-(ld)u.b, u.a), r(1, 1) = cld(0, -(ld)u.c);
    return scale(r, 0.5L);
}
template <class S> RM R(const U1<S> &u) { RM r(1, 1); r.v[0] = std::exp(cld(0, u.phase)); return r; }
template <int N, class S> RM R(const Algebra<SU<N, S>> &a) {
    auto g = gens(N);
    RM r(N, N);
    for (int k = 0; k < N * N - 1; k++) r = add(r, scale(g[k], (ld)a.e(k)));
    return r;
}
static RM rot(int n, cld s) { return diag(n, s); }
static ld bound_;
static void near_(const char *what, const RM &got, const RM &want, ld bound) {
    mc_compared(1);
    if (got.r * got.c != want.r * want.c) mc_fail("%s has shape %dx%d, not %dx%d: %s", what, got.r, got.c, want.r, want.c, args.c_str());
    for (size_t i = 0; i < want.v.size(); i++)
        if (!(std::abs(got.v[i] - want.v[i]) <= bound)) mc_fail("%s: is %s, should be %s (limit %Lg); operands %s", what, show(got).c_str(), show(want).c_str(), bound, args.c_str());
}

// ---------------- SU2
static std::vector<SU2<T>> quaternions(bool unit) {
    std::vector<SU2<T>> v;
    auto put = [&](ld a, ld b, ld c, ld d) {
        if (unit) {
            ld n = std::sqrt(a * a + b * b + c * c + d * d);
            if (n == 0) return;
            a /= n, b /= n, c /= n, d /= n;
        }
        SU2<T> u;
        u.a = a, u.b = b, u.c = c, u.d = d;
        v.push_back(u);
    };
    ld al[] = {0, 1, -0.5L};
    for (ld a : al) for (ld b : al) for (ld c : al) for (ld d : al) put(a, b, c, d);
    put(0.3L, -0.7L, 1.1L, 0.45L), put(-1.3L, 0.21L, 0.6L, -2.2L);
    for (ld e : {1e-2L, 1e-4L, 1e-7L, 1e-10L, 1e-15L, 1e-30L}) for (ld s : {1.0L, -1.0L}) put(e, 0, 0, s), put(e * 0.3L, -e, 2 * e, s), put(0, e, 0, s * (1 - e * e / 2)), put(1, 0, -0.2L, s * e);
    return v;
}
static std::vector<Algebra<SU2<T>>> su2alg() {
    std::vector<Algebra<SU2<T>>> v;
    auto put = [&](ld a, ld b, ld c) { Algebra<SU2<T>> u; u.a = a, u.b = b, u.c = c; v.push_back(u); };
    ld al[] = {0, 1, -0.5L, 3};
    for (ld a : al) for (ld b : al) for (ld c : al) put(a, b, c);
    for (ld e : {1e-2L, 1e-7L, 1e-15L, 1e-30L}) put(e, 0, 0), put(0, 2 * e, -e), put(0, 2 * PI + e, 0), put(0, 0, e - 2 * PI);
    put(20, -7, 5);
    return v;
}
template <class U> void su2_binary(const SU2<T> &A0, const SU2<U> &B0) {
    const SU2<T> A = A0;
    const SU2<U> B = B0;
    RM a = R(A), b = R(B);
    ga = a, gb = b;
    tol = 20 * EPS;
    if (std::is_same<U, float>::value) tol = 20 * 6e-8L;
    IS(A + B, add(a, b));
    IS(A - B, sub(a, b));
    IS(A * B, mul(a, b));
    IS(A * B.dagger(), mul(a, adj(b)));
    IS(mul_trace(A, B), R(tr(mul(a, b))));
    DO(C += B, add(a, b));
    DO(C -= B, sub(a, b));
    DO(C = B, b);
    { SU2<hila::type_mul<T, U>> C; mult(A, B, C); is("mult(A, B, C)", C, mul(a, b)); }
    is("A after the operation", A, a);
    is("B after the operation", B, b);
}
template <class S> void su2_scalar(const SU2<T> &A0, S x0) {
    const SU2<T> A = A0;
    const S x = x0;
    RM a = R(A), i = diag(2, 1);
    ld s = x;
    ga = a, gb = R((double)x);
    tol = 20 * EPS;
    IS(A + x, add(a, scale(i, s)));
    IS(x + A, add(a, scale(i, s)));
    IS(A - x, sub(a, scale(i, s)));
    IS(x - A, sub(scale(i, s), a));
    IS(A * x, scale(a, s));
    IS(x * A, scale(a, s));
    IS(A / x, scale(a, 1 / s));
    DO(C += x, add(a, scale(i, s)));
    DO(C -= x, sub(a, scale(i, s)));
    DO(C *= x, scale(a, s));
    DO(C /= x, scale(a, 1 / s));
    DO(C = x, scale(i, s));
    { SU2<T> C(x); is("SU2(x)", C, scale(i, s)); }
    is("A after the operation", A, a);
}
static void su2_unary(const SU2<T> &A0, bool unit) {
    const SU2<T> A = A0;
    RM a = R(A);
    ga = a, gb = RM();
    tol = 20 * EPS;
    cld d = refdet(a);
    IS(+A, a);
    IS(-A, scale(a, -1));
    IS(A.dagger(), adj(a));
    IS(A.trace(), R(tr(a)));
    IS(trace(A), R(tr(a)));
    IS(A.det(), R(d));
    IS(det(A), R(d));
    IS(A.squarenorm(), R(d));
    IS(squarenorm(A), R(d));
    IS(A.convert_to_2x2_matrix(), a);
    truth("A.size()", A.size() == 2, true);
    DO(C += C, scale(a, 2));
    DO(C -= C, scale(a, 0));
    DO(C *= C.d, scale(a, (ld)A.d));
    if (A.d != 0) DO(C /= C.d, scale(a, 1 / (ld)A.d));
    { SU2<T> C = {A.a, A.b, A.c, A.d}; is("SU2{list}", C, a); }
    { SU2<T> C = 5; auto &D = (C = {A.a, A.b, A.c, A.d}); is("C = {list}", C, a); truth("&(C = {list})", &D == &C, true); }
    { SU2<T> C = 5; auto &D = (C = A); is("C = A", C, a); truth("&(C = A)", &D == &C, true); }
    if (std::abs(d) > 0) {
        ld n = std::sqrt(std::abs(d));
        DO(C.normalize(), scale(a, 1 / n));
        DO(C.reunitarize(), scale(a, 1 / n));
    }
    // algebra
    RM ah = scale(sub(a, adj(a)), 0.5L);
    tol = 40 * EPS;
    IS(A.project_to_algebra(), ah);
    for (double s : {0.0, 1.0, -2.5}) IS(A.project_to_algebra_scaled(s), scale(ah, s));
    RM e = refexp(a);
    tol = 100 * EPS;
    IS(A.exp(), e);
    IS(exp(A), e);
    if (unit) {
        IS(exp(A.log()), a);
        IS(exp(log(A)), a);
        auto l = log(A);
        truth("|log(A)| <= 2 pi", std::sqrt((ld)l.a * l.a + (ld)l.b * l.b + (ld)l.c * l.c) <= 2 * PI * (1 + 20 * EPS), true);
        // small rotations are not lost
        ld r = std::sqrt((ld)A.a * A.a + (ld)A.b * A.b + (ld)A.c * A.c);
        if (r > 1e-16L && r < 0.1L && A.d > 0) near_("log(A)", R(l), scale(ah, std::asin(r) / r), 40 * EPS * r);
    }
    // vectors
    for (int k = 0; k < 3; k++) {
        Vector<2, T> v;
        v.c[0] = k == 1 ? 0 : 1.5, v.c[1] = k == 0 ? 0 : -0.75;
        Vector<2, C> w;
        w.c[0] = C(v.c[0], 0.5), w.c[1] = C(k, v.c[1]);
        RowVector<2, T> rv;
        RowVector<2, C> rw;
        for (int j = 0; j < 2; j++) rv.c[j] = v.c[j], rw.c[j] = w.c[j];
        tol = 20 * EPS;
        IS(A * v, mul(a, R(v)));
        IS(A * w, mul(a, R(w)));
        IS(rv * A, mul(R(rv), a));
        IS(rw * A, mul(R(rw), a));
    }
    std::stringstream st;
    st.precision(20);
    st << A;
    double q[4];
    st >> q[0] >> q[1] >> q[2] >> q[3];
    truth("values printed", (T)q[0] == A.a && (T)q[1] == A.b && (T)q[2] == A.c && (T)q[3] == A.d, true);
    is("A after the operations", A, a);
}
template <class S> void alg2_scalar(const Algebra<SU2<T>> &A, S x) {
    RM a = R(A);
    ld s = x;
    IS(A * x, scale(a, s));
    IS(x * A, scale(a, s));
    IS(A / x, scale(a, 1 / s));
    DO(C *= x, scale(a, s));
    DO(C /= x, scale(a, 1 / s));
}
static void su2_algebra(const Algebra<SU2<T>> &A) {
    RM a = R(A);
    ga = a, gb = RM();
    tol = 20 * EPS;
    ld n2 = -2 * tr(mul(a, a)).real();
    IS(+A, a);
    IS(-A, scale(a, -1));
    near_("A.squarenorm()", R(A.squarenorm()), R((double)0).r ? R(cld(n2)) : RM(), 20 * EPS * n2 + 1e-44L);
    near_("squarenorm(A)", R(squarenorm(A)), R(cld(n2)), 20 * EPS * n2 + 1e-44L);
    near_("A.norm()", R(A.norm()), R(cld(std::sqrt(n2))), 20 * EPS * std::sqrt(n2) + 1e-22L);
    IS(A.expand(), a);
    IS(A.expand().project_to_algebra(), a);
    alg2_scalar(A, (T)2.5);
    alg2_scalar(A, -0.75);
    alg2_scalar(A, 3);
    DO(C += C, scale(a, 2));
    DO(C -= C, scale(a, 0));
    if (A.b != 0) { DO(C *= C.b, scale(a, (ld)A.b)); DO(C /= C.b, scale(a, 1 / (ld)A.b)); }
    { Algebra<SU2<T>> C; C = {A.a, A.b, A.c}; is("C = {list}", C, a); }
    { Algebra<SU2<T>> C = A; C = 0; is("C = 0", C, RM(2, 2)); }
    { Algebra<SU2<T>> C(0); is("C(0)", C, RM(2, 2)); }
    tol = 100 * EPS * std::max<ld>(1, std::sqrt(n2));
    IS(A.exp(), refexp(a));
    IS(exp(A), refexp(a));
    IS(chexp(A), refexp(a));
    if (n2 < 2 * PI * 2 * PI * 0.98L) { tol *= 10; IS(log(exp(A)), a); }
    std::stringstream st;
    st.precision(20);
    st << A;
    double q[3];
    st >> q[0] >> q[1] >> q[2];
    truth("values printed", (T)q[0] == A.a && (T)q[1] == A.b && (T)q[2] == A.c, true);
}
static void su2_algebra_pair(Algebra<SU2<T>> A, Algebra<SU2<T>> B) {
    RM a = R(A), b = R(B);
    ga = a, gb = b;
    tol = 20 * EPS;
    IS(A + B, add(a, b));
    IS(A - B, sub(a, b));
    DO(C += B, add(a, b));
    DO(C -= B, sub(a, b));
    DO(C = B, b);
    cld d = cld(-2) * tr(mul(a, b));
    tol *= std::max<ld>(1, fro(a) * fro(b));
    IS(A.dot(B), R(d));
    IS(su2_algebra_dot(A, B), R(d));
}
static void su2_conjugation(const SU2<T> &U, const Algebra<SU2<T>> &E) {
    RM u = R(U), e = R(E);
    ga = u, gb = e;
    tol = 40 * EPS;
    IS(right_conjugation(U, E), mul(adj(u), mul(e, u)));
    IS(left_conjugation(U, E), mul(u, mul(e, adj(u))));
}
template <int N> void su2_project() {
    Matrix<N, N, C> A;
    SU<N, T> S;
    for (int v = 0; v < 3; v++) {
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) A.e(i, j) = S.e(i, j) = C((i * 7 + j * 3 + v) % 5 - 1.5, (i * 5 + j * 11 + v * 2) % 7 - 2.75);
        ga = R(A), gb = RM();
        for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) {
            RM m(2, 2);
            m(0, 0) = ga(i, i), m(0, 1) = ga(i, j), m(1, 0) = ga(j, i), m(1, 1) = ga(j, j);
            // the part of m of the form d + i sigma: (m + m~) / 2, m~ = adjugate of m dagger
            RM w(2, 2);
            w(0, 0) = (m(0, 0) + std::conj(m(1, 1))) / 2.0L, w(1, 1) = std::conj(w(0, 0));
            w(0, 1) = (m(0, 1) - std::conj(m(1, 0))) / 2.0L, w(1, 0) = -std::conj(w(0, 1));
            tol = 10 * EPS;
            IS(project_from_matrix(A, i, j), w);
            IS(project_from_matrix(S, i, j), w);
        }
    }
}
static void su2(int part, int parts) {
    auto v = quaternions(false), u = quaternions(true);
    auto al = su2alg();
    for (size_t i = part; i < v.size(); i += parts) {
        su2_unary(v[i], false);
        for (auto &B : v) {
            su2_binary(v[i], B);
            SU2<float> F;
            F.a = B.a, F.b = B.b, F.c = B.c, F.d = B.d;
            su2_binary(v[i], F);
        }
        su2_scalar(v[i], (T)1.5);
        su2_scalar(v[i], (T)-0.25);
        su2_scalar(v[i], 3);
        su2_scalar(v[i], -2.0f);
    }
    for (size_t i = part; i < u.size(); i += parts) {
        su2_unary(u[i], true);
        for (auto &e : al) su2_conjugation(u[i], e);
    }
    for (size_t i = part; i < al.size(); i += parts) {
        su2_algebra(al[i]);
        for (auto &b : al) su2_algebra_pair(al[i], b);
    }
    if (part == 0) su2_project<2>(), su2_project<3>(), su2_project<4>();
}

// ---------------- SU(N)
static ld lcg(unsigned long long &s) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return ((s >> 33) & 0xffffff) / (ld)0xffffff * 2 - 1; }
template <int N> std::vector<RM> coefs() {   // algebra elements: on the generators and combinations
    auto g = gens(N);
    std::vector<RM> v;
    v.push_back(RM(N, N));
    for (auto &m : g) for (ld s : {1.0L, -1.0L}) v.push_back(scale(m, s));
    for (size_t i = 0; i < g.size(); i++) for (size_t j = 0; j < i; j++) v.push_back(add(scale(g[i], 0.8L), scale(g[j], -0.6L)));
    unsigned long long s = 5;
    for (int k = 0; k < 20; k++) {
        RM m(N, N);
        for (auto &x : g) m = add(m, scale(x, lcg(s)));
        v.push_back(m);
    }
    return v;
}
template <int N> Algebra<SU<N, T>> toalg(const RM &m) {
    Algebra<SU<N, T>> a;
    auto g = gens(N);
    for (int k = 0; k < N * N - 1; k++) a.e(k) = (T)(2 * tr(mul(adj(g[k]), m)).real());
    return a;
}
template <int N> SU<N, T> tosu(const RM &m) {
    SU<N, T> u;
    for (int i = 0; i < N * N; i++) u.c[i] = C((T)m.v[i].real(), (T)m.v[i].imag());
    return u;
}
template <int N> std::vector<RM> group() {
    std::vector<RM> v;
    for (auto &m : coefs<N>()) for (ld s : {0.0L, 1e-6L, 0.3L, 1.0L, 2.5L}) v.push_back(refexp(scale(m, s)));
    for (int k = 0; k < N; k++) v.push_back(diag(N, std::exp(cld(0, 2 * PI * k / N))));
    std::vector<int> p(N);
    for (int i = 0; i < N; i++) p[i] = i;
    do {   // signed permutations with determinant 1
        RM m(N, N);
        for (int i = 0; i < N; i++) m(i, p[i]) = 1;
        m(0, p[0]) *= 1.0L / refdet(m);
        v.push_back(m);
    } while (std::next_permutation(p.begin(), p.end()));
    return v;
}
template <int N> void unitary(const char *what, const SU<N, T> &u, bool special) {
    RM r = R(u);
    near_(what, mul(r, adj(r)), diag(N, 1), 40 * N * EPS);
    if (special) { RM d(1, 1), one(1, 1); d.v[0] = refdet(r), one.v[0] = 1; near_(what, d, one, 40 * N * EPS); }
}
template <int N> void generators() {
    auto g = gens(N);
    Alg_gen<N, T> l[N * N - 1], p[N * N - 1][N * N - 1];
    tol = 20 * EPS;
    for (int times = 0; times < 3; times++) {   // the lists may be reused
        Algebra<SU<N, T>>::generator_list(l);
        for (int i = 0; i < N * N - 1; i++) ga = g[i], is("generator_list", l[i].to_matrix(), g[i]);
        if (times == 1) Algebra<SU<N, T>>::generator_product_list(p);
        else Algebra<SU<N, T>>::generator_product_list(l, p);
        for (int i = 0; i < N * N - 1; i++) for (int j = 0; j < N * N - 1; j++) {
            ga = g[i], gb = g[j];
            is("generator_product_list", p[i][j].to_matrix(), mul(g[i], g[j]));
            truth("size of the product", p[i][j].size <= N, true);
        }
    }
    gb = RM();
    for (int k = 0; k < N * N - 1; k++) {
        Algebra<SU<N, T>> a = 0;
        a.e(k) = 1;
        ga = g[k];
        is("expand()", a.expand(), g[k]);
        is("expand_scaled()", a.expand_scaled(-2.5), scale(g[k], -2.5L));
        for (int j = 0; j < N * N - 1; j++) {
            Algebra<SU<N, T>> b = 0;
            b.e(j) = 2;
            IS(a.dot(b), R(cld(-2.0L) * tr(mul(g[k], g[j])) * 1.0L));
        }
    }
}
template <int N> void projection(int v) {   // any complex matrix
    SU<N, T> A;
    Matrix<N, N, C> M2, M1;
    auto g = gens(N);
    unsigned long long s = v + 77;
    for (int i = 0; i < N * N; i++) {
        if (v < 2 * N * N) A.c[i] = v / 2 == i ? v % 2 ? C(0, 1) : C(1, 0) : C(0, 0);
        else A.c[i] = C(lcg(s), lcg(s));
        M2.c[i] = C(lcg(s), lcg(s));
        M1.c[i] = A.c[i];
    }
    RM a = R(A), m2 = R(M2);
    ga = a, gb = RM();
    tol = 40 * EPS;
    ld norm = 0;
    RM w(N * N - 1, 1);
    for (int k = 0; k < N * N - 1; k++) w.v[k] = 2 * tr(mul(adj(g[k]), a)).real(), norm += std::abs(w.v[k]);
    auto vec = [&](const Algebra<SU<N, T>> &x) { RM r(N * N - 1, 1); for (int k = 0; k < N * N - 1; k++) r.v[k] = (ld)x.e(k); return r; };
    T on = -1;
    near_("project_to_algebra()", vec(A.project_to_algebra()), w, tol);
    near_("project_to_algebra(onenorm)", vec(A.project_to_algebra(on)), w, tol);
    is("onenorm", on, R(cld(norm)));
    for (ld sc : {0.0L, 1.0L, -2.5L}) near_("project_to_algebra_scaled()", vec(A.project_to_algebra_scaled(sc)), scale(w, sc), tol);
    RM ah = scale(sub(a, adj(a)), 0.5L);
    ah = sub(ah, diag(N, tr(ah) / (ld)N));
    is("project_to_algebra().expand()", A.project_to_algebra().expand(), ah);
    if (v % 5) return;
    Matrix<N * N - 1, N * N - 1, T> om;
    RM w2(N * N - 1, N * N - 1), w1 = w2, w3 = w2;
    Matrix<N, N, C> D[N][N];
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N * N; k++) D[i][j].c[k] = C(lcg(s), lcg(s));
    for (int i = 0; i < N * N - 1; i++) for (int j = 0; j < N * N - 1; j++) {
        w2(i, j) = 2 * tr(mul(mul(adj(g[i]), a), mul(g[j], m2))).real();
        w1(i, j) = 2 * tr(mul(mul(adj(g[i]), a), g[j])).real();
        cld x = 0;
        for (int k = 0; k < N; k++) for (int l = 0; l < N; l++) if (g[j](l, k) != cld(0)) x += tr(mul(adj(g[i]), R(D[k][l]))) * g[j](l, k);
        w3(i, j) = 2 * x.real();
    }
    gb = m2;
    Alg_gen<N, T> l[N * N - 1], p[N * N - 1][N * N - 1];
    Algebra<SU<N, T>>::generator_list(l);
    Algebra<SU<N, T>>::generator_product_list(p);
    tol = 100 * EPS;
    om = 5; project_to_algebra_bilinear(M1, M2, om); is("project_to_algebra_bilinear(w1, w2)", om, w2);
    om = 5; project_to_algebra_bilinear(M1, M2, om, l); is("project_to_algebra_bilinear(w1, w2, list)", om, w2);
    om = 5; project_to_algebra_bilinear(M1, om); is("project_to_algebra_bilinear(w1)", om, w1);
    om = 5; project_to_algebra_bilinear(M1, om, p); is("project_to_algebra_bilinear(w1, products)", om, w1);
    om = 5; project_to_algebra_bilinear(D, om); is("project_to_algebra_bilinear(w[][])", om, w3);
    om = 5; project_to_algebra_bilinear(D, om, l); is("project_to_algebra_bilinear(w[][], list)", om, w3);
}
template <int N> void exponents(const RM &m, ld s) {
    Algebra<SU<N, T>> a = toalg<N>(scale(m, s));
    RM r = R(a);
    ga = r, gb = RM();
    RM e = refexp(r);
    tol = 20 * N * EPS;
    is("expand()", a.expand(), r);
    ld nr = fro(r);
    tol = 100 * N * EPS * std::exp(nr);
    ld tr20 = 1;   // exp() sums 20 terms
    for (int k = 1; k <= 21; k++) tr20 *= nr / k;
    near_("exp(a)", R(exp(a)), e, tol + 2 * tr20);
    is("chexp(a)", chexp(a), e);
    if (nr <= 4) near_("chsexp(a)", R(chsexp(a)), e, tol * (1 + nr * nr));
    if (nr <= 2) unitary<N>("chexp(a) is in the group", chexp(a), true);
    if (fro(r) < 2.8L) {   // eigenvalues inside of the convergence region
        near_("log(exp(a))", R(log(tosu<N>(e))), r, 2000 * N * EPS);
        near_("exp(log(U))", R(exp(log(tosu<N>(e)))), e, 2000 * N * EPS);
    }
}
template <int N> void grp(const RM &m, int v) {
    SU<N, T> U = tosu<N>(m);
    unsigned long long s = v * 13 + 1;
    RM u = R(U);
    ga = u, gb = RM();
    unitary<N>("operand", U, true);
    // close to the group
    for (ld e : {0.0L, 1e-3L, 0.05L}) {
        SU<N, T> A = U;
        for (int i = 0; i < N * N; i++) A.c[i] += C(e * lcg(s), e * lcg(s));
        ga = R(A);
        SU<N, T> B = A;
        B.reunitarize();
        unitary<N>("reunitarize()", B, true);
        near_("reunitarize() stays close", R(B), u, 100 * N * EPS + 8 * N * e);
        B = A;
        B.make_unitary();
        unitary<N>("make_unitary()", B, false);
        // rows: orthonormalized in order
        RM g = R(A);
        for (int r = 0; r < N; r++) {
            for (int q = 0; q < r; q++) {
                cld d = 0;
                for (int i = 0; i < N; i++) d += std::conj(g(q, i)) * g(r, i);
                for (int i = 0; i < N; i++) g(r, i) -= d * g(q, i);
            }
            ld n = 0;
            for (int i = 0; i < N; i++) n += std::norm(g(r, i));
            for (int i = 0; i < N; i++) g(r, i) /= std::sqrt(n);
        }
        near_("make_unitary()", R(B), g, 100 * N * EPS);
        // unitary up to a phase
        for (int k = 0; k < 8; k++) {
            ld ph = -3.0L + k * 0.85L;
            SU<N, T> D = tosu<N>(scale(g, std::exp(cld(0, ph))));
            RM dm = R(D);
            ga = dm;
            cld d = refdet(dm);
            if (std::abs(std::arg(d)) > PI - 1e-3L) continue;
            D.fix_det();
            near_("fix_det()", R(D), scale(dm, std::exp(cld(0, -std::arg(d) / N))), 100 * N * EPS);
        }
    }
    // conjugations
    auto g = gens(N);
    for (int k = 0; k < N * N - 1; k++) {
        Algebra<SU<N, T>> E = 0;
        E.e(k) = 1.5;
        if (k) E.e(k - 1) = -0.5;
        RM e = R(E);
        ga = u, gb = e;
        tol = 100 * N * EPS;
        IS(right_conjugation(U, E), mul(adj(u), mul(e, u)));
        IS(left_conjugation(U, E), mul(u, mul(e, adj(u))));
    }
}
template <int N> void sun(int part, int parts) {
    if (part == 0) generators<N>();
    for (int v = part; v < 2 * N * N + 40; v += parts) projection<N>(v);
    auto c = coefs<N>();
    for (size_t i = part; i < c.size(); i += parts) for (ld s : {1e-8L, 1e-3L, 0.5L, 1.0L, 2.0L, 3.0L, 6.0L}) exponents<N>(c[i], s);
    auto gr = group<N>();
    for (size_t i = part; i < gr.size(); i += parts) grp<N>(gr[i], i);
    // random matrices are in the group, for all numbers of hits
    for (int h = 1 + part; h <= 36; h += parts) {
        hila::seed_random(17 * h + N);
        SU<N, T> U;
        ga = RM(), gb = RM();
        U.random(h);
        unitary<N>("random()", U, true);
    }
    Algebra<SU<N, T>> z = 0;
    is("Algebra 0", z, RM(N, N));
}

// ---------------- U(1)
static void u1(int part, int parts) {
    if (part) return;
    ld ph[] = {0, 0.5L, -0.5L, 1, 2, 3.1L, -3.1L, PI / 2, -PI / 2, PI, 10, -7, 1e-8L};
    for (ld x : ph) for (ld y : ph) {
        U1<T> A0, B0;
        A0.phase = x, B0.phase = y;
        const U1<T> A = A0, B = B0;
        RM a = R(A), b = R(B);
        ga = R(cld(x)), gb = R(cld(y));
        tol = 100 * EPS;
        IS(A * B, mul(a, b));
        DO(C *= B, mul(a, b));
        DO(C *= C, mul(a, a));
        IS(+A, a);
        IS(-A, scale(a, -1));
        IS(A.conj(), cc(a));
        IS(A.dagger(), cc(a));
        IS(conj(A), cc(a));
        IS(A.complex(), a);
        IS(A.real(), R(cld(a.v[0].real())));
        IS(A.imag(), R(cld(a.v[0].imag())));
        IS(real(A), R(cld(a.v[0].real())));
        IS(imag(A), R(cld(a.v[0].imag())));
        { U1<T> D(0); is("U1(0)", D, R(cld(1))); }
        { U1<T> D = A; D.set_phase((T)y); is("set_phase(x)", D, b); }
        { U1<T> D = A; D.set_phase(2); is("set_phase(2)", D, R(std::exp(cld(0, 2)))); }
        { U1<T> D = A; C z((T)(1.7 * std::cos((T)y)), (T)(1.7 * std::sin((T)y))); D.set_phase(z); is("set_phase(z)", D, b); }
        C z(x, y);
        RM zz = R(z);
        tol = 1000 * EPS;
        IS(A * z, mul(a, zz));
        IS(z * A, mul(a, zz));
        { U1<float> D = hila::cast_to<float>(A); ld t = tol; tol = 1e-5; is("cast_to<float>", D, a); tol = t; }
        std::stringstream st;
        st.precision(20);
        st << A;
        double q;
        st >> q;
        truth("phase printed", (T)q == A.phase, true);
    }
    for (int i = 0; i < 50; i++) {
        hila::seed_random(i + 3);
        U1<T> A;
        A.random();
        truth("random() in -pi..pi", std::abs((ld)A.phase) <= PI * (1 + 2 * EPS), true);
    }
}
HARNESS_MAIN {
    hila::initialize(argc, argv);
    lattice.setup({4, 4});
    hila::seed_random(1);
    int what = mc_global_choose(3 + mc_param("nmax", 4) - 1, "what"), parts = mc_param("parts", 8), part = mc_global_choose(parts, "part");
    mc_state(what);
    switch (what) {
    case 0: su2(part, parts); break;
    case 1: u1(part, parts); break;
    case 2: sun<2>(part, parts); break;
    case 3: sun<3>(part, parts); break;
    case 4: sun<4>(part, parts); break;
    case 5: sun<5>(part, parts); break;
    }
    return 0;
}
