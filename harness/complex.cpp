// Complex and Imaginary: all operations on all values and pairs of values of a grid, against complex long double
#include "hila.h"
#include "common.h"
#include <complex>
typedef long double ld;
typedef std::complex<ld> cld;
static cld GX, GY;
static ld tol;
template <class T> cld up(const T &x) {
    if constexpr (hila::is_complex<T>::value) return cld((ld)x.re, (ld)x.im);
    else return cld((ld)x, 0);
}
static void is_(const char *what, cld got, cld want, ld f) {
    mc_compared(1);
    ld s = std::max((ld)1e-3, std::abs(want));
    if (!(std::abs(got - want) <= tol * f * s))
        mc_fail("%s gives (%.12g,%.12g), should be (%.12g,%.12g) with z=(%g,%g) w=(%g,%g)", what, (double)got.real(), (double)got.imag(), (double)want.real(), (double)want.imag(),
                (double)GX.real(), (double)GX.imag(), (double)GY.real(), (double)GY.imag());
}
#define IS(e, w) is_(#e, up(e), w, 1)
#define ROUGH(e, w) is_(#e, up(e), w, 1000)
#define DO(st, w) do { auto c = z; st; is_(#st, up(c), w, 1); } while (0)
static void truth(const char *what, bool got, bool want) {
    mc_compared(1);
    if (got != want) mc_fail("%s is %d with z=(%g,%g) w=(%g,%g)", what, got, (double)GX.real(), (double)GX.imag(), (double)GY.real(), (double)GY.imag());
}
#define TR(e, w) truth(#e, e, w)

template <class T, class U> void two(const Complex<T> &z, const Complex<U> &w) {
    cld x = GX = up(z), y = GY = up(w);
    IS(z + w, x + y);
    IS(z - w, x - y);
    IS(z * w, x * y);
    DO(c += w, x + y);
    DO(c -= w, x - y);
    DO(c *= w, x * y);
    IS(z.conj_mul(w), std::conj(x) * y);
    IS(z.mul_conj(w), x * std::conj(y));
    TR(z == w, x == y);
    TR(z != w, x != y);
    DO(c = w, y);
    IS(Complex<T>(w), y);
    if (y != cld(0)) {
        IS(z / w, x / y);
        DO(c /= w, x / y);
        if (x != cld(0)) ROUGH(pow(z, w), std::exp(y * std::log(x)));
    }
}
template <class T, class S> void scalar(const Complex<T> &z, S s) {
    cld x = GX = up(z);
    ld t = s;
    GY = t;
    IS(z + s, x + t);
    IS(s + z, t + x);
    IS(z - s, x - t);
    IS(s - z, t - x);
    IS(z * s, x * t);
    IS(s * z, x * t);
    DO(c += s, x + t);
    DO(c -= s, x - t);
    DO(c *= s, x * t);
    DO(c = s, cld(t));
    TR(z == s, x == cld(t));
    TR(s == z, x == cld(t));
    TR(z != s, x != cld(t));
    TR(s != z, x != cld(t));
    if (t != 0) {
        IS(z / s, x / t);
        DO(c /= s, x / t);
    }
    if (x != cld(0)) {
        IS(s / z, t / x);
        ROUGH(pow(z, s), std::exp(t * std::log(x)));
    }
    if (t > 0) ROUGH(pow(s, z), std::exp(x * std::log(cld(t))));
}
template <class T> void one(const Complex<T> &z) {
    cld x = GX = up(z);
    GY = 0;
    const cld i(0, 1);
    IS(-z, -x);
    IS(+z, x);
    IS(z.conj(), std::conj(x));
    IS(conj(z), std::conj(x));
    IS(z.dagger(), std::conj(x));
    IS(dagger(z), std::conj(x));
    IS(z.real(), x.real());
    IS(real(z), x.real());
    IS(z.imag(), x.imag());
    IS(imag(z), x.imag());
    IS(z.abs(), std::abs(x));
    IS(abs(z), std::abs(x));
    IS(z.squarenorm(), std::norm(x));
    IS(squarenorm(z), std::norm(x));
    if (x != cld(0)) { IS(z.arg(), std::arg(x)); IS(arg(z), std::arg(x)); }
    DO(c += c, x + x);
    DO(c -= c, cld(0));
    DO(c *= c, x * x);
    DO(c += c.re, x + x.real());
    DO(c -= c.re, x - x.real());
    DO(c += c.im, x + x.imag());
    DO(c *= c.re, x * x.real());
    DO(c *= c.im, x * x.imag());
    if (x != cld(0)) DO(c /= c, cld(1));
    if (x.real() != 0) DO(c /= c.re, x / x.real());
    if (x.imag() != 0) DO(c /= c.im, x / x.imag());
    DO(c = c.im, cld(x.imag()));
    DO(c.real() = 7, cld(7, x.imag()));
    DO(c.imag() = 7, cld(x.real(), 7));
    IS(I * z, i * x);
    IS(z * I, i * x);
    IS(z + I, x + i);
    IS(I + z, x + i);
    IS(z - I, x - i);
    IS(I - z, i - x);
    IS(z / I, x / i);
    IS(2_i * z, ld(2) * i * x);
    IS(z * 2.5_i, ld(2.5) * i * x);
    IS((-I) * z, -i * x);
    IS((3 * I) * z, ld(3) * i * x);
    IS((I * 3) * z, ld(3) * i * x);
    IS((I / 2) * z, i * x / ld(2));
    if (x != cld(0)) IS(I / z, i / x);
    IS(exp(z), std::exp(x));
    IS(expi(z.re), std::exp(i * x.real()));
    IS(polar(z.re, z.im), x.real() * std::exp(i * x.imag()));
    DO(c.polar(z.re, z.im), x.real() * std::exp(i * x.imag()));
    ROUGH(sin(z), std::sin(x));
    ROUGH(cos(z), std::cos(x));
    ROUGH(tan(z), std::tan(x));
    ROUGH(sinh(z), std::sinh(x));
    ROUGH(cosh(z), std::cosh(x));
    ROUGH(tanh(z), std::tanh(x));
    if (x != cld(0)) {
        ROUGH(log(z), std::log(x));
        ROUGH(sqrt(z), std::sqrt(x));
        ROUGH(cbrt(z), std::exp(std::log(x) / ld(3)));
    }
    ROUGH(sin(asin(z)), x);   // inverse functions: any branch
    ROUGH(cos(acos(z)), x);
    ROUGH(sinh(asinh(z)), x);
    ROUGH(cosh(acosh(z)), x);
    if (std::abs(x * x + ld(1)) > 1e-3) ROUGH(tan(atan(z)), x);
    if (std::abs(x * x - ld(1)) > 1e-3) ROUGH(tanh(atanh(z)), x);
    {
        std::stringstream s;
        s << z;
        double a, b;
        TR(bool(s >> a >> b) && std::abs(a - (double)x.real()) < 1e-5 * (1 + std::abs(a)) && std::abs(b - (double)x.imag()) < 1e-5 * (1 + std::abs(b)), true);
        std::string p = hila::prettyprint(z);
        TR(sscanf(p.c_str(), "( %lf, %lf )", &a, &b) == 2 && std::abs(a - (double)x.real()) < 1e-5 * (1 + std::abs(a)) && std::abs(b - (double)x.imag()) < 1e-5 * (1 + std::abs(b)), true);
    }
    IS(hila::cast_to<double>(z), x);
    IS(hila::cast_to<float>(z), cld((float)x.real(), (float)x.imag()));
}
static const double G[] = {0, 1, -1, 0.5, -2, 3, 0.03125, -17};
constexpr int NG = sizeof G / sizeof *G;
HARNESS_MAIN {
    hila::initialize(argc, argv);
    int a = mc_global_choose(NG, "re"), b = mc_global_choose(NG, "im");
    int n2 = mc_param("grid", 5);
    Complex<double> z(G[a], G[b]);
    Complex<float> zf(G[a], G[b]);
    bool small = std::abs(G[a]) < 4 && std::abs(G[b]) < 4;
    if (small) {
        tol = 1e-14;
        one(z);
        tol = 1e-6;
        one(zf);
    }
    // scaled division: no overflow where the result exists
    tol = 1e-13;
    for (int i = 0; i < NG; i++) for (int j = 0; j < NG; j++) {
        Complex<double> w(G[i], G[j]);
        Complex<float> wf(G[i], G[j]);
        tol = 1e-14;
        two(z, w);
        tol = 1e-6;
        two(z, wf);
        two(zf, w);
        two(zf, wf);
        if (small && (i || j)) {   // /= is scaled: no overflow where the result exists
            tol = 1e-13;
            for (double s : {1e-200, 1e200}) {
                GX = up(z), GY = up(w);
                auto c = z;
                c *= s;
                c /= Complex<double>(w * s);
                is_("scaled z /= w", up(c), up(z) / up(w), 1);
            }
        }
    }
    for (int i = 0; i < NG; i++) {
        tol = 1e-14;
        scalar(z, G[i]);
        tol = 1e-6;
        scalar(z, (float)G[i]);
        scalar(z, (int)G[i]);
        scalar(z, (long)G[i]);
        scalar(zf, G[i]);
        scalar(zf, (float)G[i]);
        scalar(zf, (int)G[i]);
    }
    GY = 0;
    IS(I * I, -1);
    IS(I / I, 1);
    IS(exp(I), std::exp(cld(0, 1)));
    mc_state(a * NG + b);
    return 0;
}
