// Fields and loops for the generated programs, and what the reference texts use in their place: ordinary loops over
// all sites of the lattice, every rank having all the values.
#ifndef PROG_H
#define PROG_H
#include "hila.h"
#include "common.h"
#include <functional>

extern CoordinateVector S;
extern long V;

inline long idx(const CoordinateVector &c) {
    long i = 0;
    for (int d = NDIM - 1; d >= 0; d--) {
        int k = c[d] % S[d];
        if (k < 0) k += S[d];
        i = i * S[d] + k;
    }
    return i;
}

struct RSite {
    CoordinateVector c;
    long i;
    const CoordinateVector &coordinates() const { return c; }
    int coordinate(Direction d) const { return c[d]; }
    int x() const { return c[e_x]; }
    int y() const { return c[e_y]; }
    ::Parity parity() const {
        int s = 0;
        for (int d = 0; d < NDIM; d++) s += c[d];
        return s % 2 == 0 ? EVEN : ODD;
    }
    RSite add(int d, int k) const {
        RSite r = *this;
        r.c[d] += k;
        r.i = idx(r.c);
        return r;
    }
};
inline RSite operator+(const RSite &x, Direction d) { return d < NDIM ? x.add(d, 1) : x.add(NDIRS - 1 - d, -1); }
inline RSite operator-(const RSite &x, Direction d) { return d < NDIM ? x.add(d, -1) : x.add(NDIRS - 1 - d, 1); }
inline RSite operator+(RSite x, const CoordinateVector &v) {
    for (int d = 0; d < NDIM; d++) x.c[d] += v[d];
    x.i = idx(x.c);
    return x;
}
inline RSite operator-(RSite x, const CoordinateVector &v) {
    for (int d = 0; d < NDIM; d++) x.c[d] -= v[d];
    x.i = idx(x.c);
    return x;
}

std::vector<RSite> &rsites_all();
inline std::vector<RSite> rsites(::Parity p) {
    std::vector<RSite> r;
    for (auto &s : rsites_all()) if (p == ALL || s.parity() == p) r.push_back(s);
    return r;
}
#define RLOOP(p) for (RSite X : rsites(p))

template <typename T>
struct RField {
    std::vector<T> v;
    RField() : v(V) {}
    T &operator[](const RSite &s) { return v[s.i]; }
    const T &operator[](const RSite &s) const { return v[s.i]; }
};
template <typename T>
struct RReduction {
    T v;
    RReduction() {}
    RReduction(const T &a) : v(a) {}
    template <typename A> RReduction &operator=(const A &a) { v = a; return *this; }
    template <typename A> void operator+=(const A &a) { v += a; }
    RReduction &allreduce(bool) { return *this; }
    RReduction &delayed(bool = true) { return *this; }
    RReduction &nonblocking(bool = true) { return *this; }
    void start_reduce() {}
    void reduce() {}
    T value() { return v; }
};
template <typename T>
struct RReductionVector {
    std::vector<T> v;
    RReductionVector(int n) : v(n) {}
    template <typename A> RReductionVector &operator=(const A &a) { for (auto &x : v) x = a; return *this; }
    T &operator[](int i) { return v[i]; }
    RReductionVector &allreduce(bool) { return *this; }
    RReductionVector &delayed(bool = true) { return *this; }
    RReductionVector &nonblocking(bool = true) { return *this; }
    void reduce() {}
    size_t size() { return v.size(); }
};
template <typename T>
struct RGaugeField {
    RField<T> f[NDIM];
    RField<T> &operator[](Direction d) { return f[d]; }
};

// numbers and vectors a program computes besides its fields
struct Out {
    std::vector<double> v;
    template <typename T> void operator()(const T &x) {
        if constexpr (hila::is_arithmetic<T>::value) {
            v.push_back(x);
        } else {
            for (int i = 0; i < (int)(sizeof(T) / sizeof(hila::arithmetic_type<T>)); i++) v.push_back(((const hila::arithmetic_type<T> *)&x)[i]);
        }
    }
};
struct Args {   // what the program gets besides fields
    Parity par, opp;
    Direction dv, du;
    CoordinateVector off;
    int k;
    double x;
    double arr[8];
    int iarr[4][2];
    std::vector<double> vec;
    std::array<double, 8> sarr;
    Vector<2, double> v2;
    Complex<double> zc;
    struct { double g; int h; double t[3]; } cfg;
    Out o;
};
using Vec2 = Vector<2, double>;
using Mat2 = Matrix<2, 2, double>;
struct HF {
    Field<double> a, b, c, w[NDIM];
    Field<int> n, m;
    Field<float> p, q;
    Field<Complex<double>> z, y;
    Field<Vec2> v, u;
    Field<Mat2> r;
    GaugeField<double> gf;
};
// hilapp makes the functions it needs for Field<T> in a file only if the file has the destructor of Field<T>
inline void instantiate_() { HF h; }
struct RF {
    RField<double> a, b, c, w[NDIM];
    RField<int> n, m;
    RField<float> p, q;
    RField<Complex<double>> z, y;
    RField<Vec2> v, u;
    RField<Mat2> r;
    RGaugeField<double> gf;
};
struct Prog {
    const char *name, *text;
    void (*h)(HF &, Args &);
    void (*r)(RF &, Args &);
    int flags;   // 1: par may be ALL, 2: lattices with odd sides are possible
};
using Table = std::vector<Prog>;
#endif
