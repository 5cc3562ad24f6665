// U05: GaugeField, VectorField and PlaquetteField: assignment, files, blocking
#include "hila.h"
#include "plumbing/plaquettefield.h"
#include "common.h"
#include <fstream>
#include <array>
#include <algorithm>
typedef MC_T E;                       // Matrix<2,2,double> or float
constexpr int NE = sizeof(E) / sizeof(hila::arithmetic_type<E>);
typedef hila::arithmetic_type<E> B_;
typedef std::array<double, NE> RE;
static CoordinateVector S;
static long VOL;
static char trail[500];
typedef std::array<std::vector<RE>, NDIM> RG;
static long ix(const CoordinateVector &c, const CoordinateVector &s) { long i = 0; for (int d = NDIM - 1; d >= 0; d--) i = i * s[d] + c[d]; return i; }
static CoordinateVector co(long i, const CoordinateVector &s) { CoordinateVector c; foralldir(d) { c[d] = i % s[d]; i /= s[d]; } return c; }
static RE from(const E &e) { RE r; const B_ *p = (const B_ *)&e; for (int i = 0; i < NE; i++) r[i] = p[i]; return r; }
static E to(const RE &r) { E e; B_ *p = (B_ *)&e; for (int i = 0; i < NE; i++) p[i] = (B_)r[i]; return e; }
static RE value(long x, int d, int salt) { RE r; for (int i = 0; i < NE; i++) r[i] = (double)((x * 7 + d * 3 + i * 5 + salt * 11 + x * x % 5) % 13 - 6); return r; }
static void fill(GaugeField<E> &U, RG &r, int salt) {
    foralldir(d) {
        r[d].resize(VOL);
        for (long x = 0; x < VOL; x++) r[d][x] = value(x, d, salt);
        U[d].check_alloc();
        for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) U[d].set_value_at(to(r[d][ix(lattice->coordinates(i), S)]), i);
        U[d].mark_changed(ALL);
    }
}
static void cmpf(const Field<E> &f, const std::vector<RE> &r, const CoordinateVector &s, const char *what, int d) {
    for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++)
        if (from(f.get_value_at(i)) != r[ix(lattice->coordinates(i), s)]) mc_fail("%s: %s, direction %d, site %ld: wrong value", trail, what, d, ix(lattice->coordinates(i), s));
    mc_compared(lattice->loop_end(ALL) - lattice->loop_begin(ALL));
}
static void cmp(const GaugeField<E> &U, const RG &r, const char *what) {
    foralldir(d) {
        cmpf(U[d], r[d], S, what, d);
        Field<E> n;
        foralldir(e) {
            n[ALL] = U[d][X - e];
            std::vector<RE> q(VOL);
            for (long x = 0; x < VOL; x++) q[x] = r[d][ix((co(x, S) - e).mod(S), S)];
            cmpf(n, q, S, "neighbours", d);
        }
    }
}
static void bytes(const std::string &fn, std::string want, const char *what) {
    mc_barrier();
    if (mc_rank() == 0) {
        std::ifstream f(fn, std::ios::binary);
        std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        mc_compared(1);
        if (t != want) mc_fail("%s: %s writes a file of %zu bytes which is not as documented (%zu bytes)", trail, what, t.size(), want.size());
    }
    mc_barrier();
}
static std::string header(int dims, long el, const CoordinateVector &s, int64_t id = 394824242) {
    std::string h;
    auto put = [&](int64_t v) { h.append((char *)&v, 8); };
    put(id); put(dims); put(el);
    foralldir(d) put(s[d]);
    return h;
}
static std::string raw(const std::vector<RE> &r) {
    std::string h;
    for (auto &x : r) for (int i = 0; i < NE; i++) { B_ v = (B_)x[i]; h.append((char *)&v, sizeof v); }
    return h;
}
static std::string rawg(const RG &r) { std::string h; foralldir(d) h += raw(r[d]); return h; }
static void put(const std::string &fn, const std::string &s) { mc_barrier(); if (mc_rank() == 0) std::ofstream(fn, std::ios::binary) << s; mc_barrier(); }
static void tile(const RG &in, const CoordinateVector &s, RG &out) { foralldir(d) { out[d].resize(VOL); for (long x = 0; x < VOL; x++) out[d][x] = in[d][ix(co(x, S).mod(s), s)]; } }

static const char *opname[] = {"U=V", "V=U", "U=move(V)", "swap", "U=value", "U=0", "GaugeField W(U)", "GaugeField W(value)", "clear", "U[d]=V[e]", "U[d][EVEN]+=", "PlaquetteField from U", "float/double", "move", "self", "GaugeField W(move(U))", "swap PlaquetteField"};
enum { NOP = 17 };
static void op(int o, int salt, GaugeField<E> &U, GaugeField<E> &V, RG &u, RG &v) {
    switch (o) {
    case 0: U = V; u = v; break;
    case 1: V = U; v = u; break;
    case 2: U = std::move(V); u = v; fill(V, v, salt + 50); break;
    case 3: hila::swap(U, V); std::swap(u, v); break;
    case 4: { E e = to(value(3, 1, salt)); U = e; for (auto &l : u) for (auto &x : l) x = value(3, 1, salt); break; }
    case 5: U = 0; for (auto &l : u) for (auto &x : l) x = RE{}; break;
    case 6: { GaugeField<E> W(U); cmp(W, u, "copy"); W[e_x][ALL] = W[e_x][X] + W[e_x][X]; cmp(U, u, "original after a change of the copy"); GaugeField<E> Q; Q = W; hila::swap(Q, V); v = u; for (auto &x : v[0]) for (auto &y : x) y *= 2; break; }
    case 7: { E e = to(value(5, 0, salt)); GaugeField<E> W(e); V = W; for (auto &l : v) for (auto &x : l) x = value(5, 0, salt); break; }
    case 8: V.clear(); fill(V, v, salt + 20); break;
    case 9: foralldir(d) { Direction e = Direction((d + 1) % NDIM); U[d] = V[e]; u[d] = v[e]; } break;
    case 10: foralldir(d) {
        U[d][EVEN] = U[d][X] + V[d][X + d];
        for (long x = 0; x < VOL; x++) { CoordinateVector c = co(x, S); if (c.parity() == EVEN) for (int i = 0; i < NE; i++) u[d][x][i] += v[d][ix((c + d).mod(S), S)][i]; } } break;
    case 11: {
        PlaquetteField<E> P(U), Q;
        foralldir(d) cmp(P[d], u, "plaquette field");
        foralldir(d) P[d][e_x] = V[d];
        Q = P;
        PlaquetteField<E> R(Q);
        P = 0;
        RG z = u; for (auto &l : z) for (auto &x : l) x = RE{};
        foralldir(d) { RG w = u; w[0] = v[d]; cmp(Q[d], w, "copied plaquette field"); cmp(R[d], w, "plaquette field made of another"); cmp(P[d], z, "plaquette field 0"); }
        E e = to(value(1, 1, salt)); P = e;
        for (auto &l : z) for (auto &x : l) x = value(1, 1, salt);
        foralldir(d) cmp(P[d], z, "plaquette field of a constant");
        break; }
    case 12: {
        VectorField<double> a; VectorField<float> b; int p = salt % 5;
        foralldir(d) a[d][ALL] = (double)(SiteIndex(X.coordinates()).value + 100 * (int)d + p);
        b = a; VectorField<double> c(b);
        foralldir(d) for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) if (c[d].get_value_at(i) != SiteIndex(lattice->coordinates(i)).value + 100 * (int)d + p) mc_fail("%s: conversion of a vector field", trail);
        break; }
    case 13: { GaugeField<E> W; W = U; V = std::move(W); v = u; break; }
    case 14: { GaugeField<E> &W = U; U = W; U = std::move(W); break; }
    case 15: { GaugeField<E> W(std::move(U)); cmp(W, u, "moved"); U = std::move(W); break; }
    case 16: { PlaquetteField<E> P(U), Q(V); hila::swap(P, Q); foralldir(d) { cmp(P[d], v, "swapped"); cmp(Q[d], u, "swapped"); } break; }
    }
}
static void files(GaugeField<E> &U, RG &u) {
    int what = mc_global_choose(12, "file");
    CoordinateVector small = S;
    bool has = false;
    int sd = mc_global_choose(1 << NDIM, "smaller");
    foralldir(d) if (sd >> (int)d & 1) { if (S[d] % 2) mc_skip(); small[d] /= 2; has = true; }
    (void)has;
    mc_state(mc_hash(mc_hash(sd, what), VOL));
    std::string dir = mc_rundir(), fn = dir + "/cfg";
    GaugeField<E> V; RG w, in; long sv = 1; foralldir(d) sv *= small[d];
    foralldir(d) { in[d].resize(sv); for (long x = 0; x < sv; x++) in[d][x] = value(x, d, 77); }
    std::string good = header(NDIM, sizeof(E), small) + rawg(in);
    PlaquetteField<E> P;
    switch (what) {
    case 0: U.write(fn); bytes(fn, rawg(u), "write"); V.read(fn); cmp(V, u, "read"); cmp(U, u, "written"); break;
    case 1: U.config_write(fn); bytes(fn, header(NDIM, sizeof(E), S) + rawg(u), "config_write"); V.config_read(fn); cmp(V, u, "config_read"); break;
    case 2: put(fn, good); V = U; V.config_read(fn); tile(in, small, w); cmp(V, w, "config_read of a smaller lattice"); break;
    case 3: mc_expect_exit(2); V.config_read(fn); mc_fail("%s: missing file accepted", trail);
    case 4: P = U; foralldir(d) P[d][e_x] = U[d]; P.write(fn); { std::string s; RG q; foralldir(d) { q = u; q[0] = u[d]; s += rawg(q); } bytes(fn, s, "PlaquetteField::write"); PlaquetteField<E> Q; Q.read(fn); foralldir(d) { q = u; q[0] = u[d]; cmp(Q[d], q, "PlaquetteField::read"); }
            P.config_write(fn); bytes(fn, header(NDIM, sizeof(E), S) + s, "PlaquetteField::config_write"); Q = 0; Q.config_read(fn); foralldir(d) { q = u; q[0] = u[d]; cmp(Q[d], q, "PlaquetteField::config_read"); } } break;
    case 5: { std::string s = header(NDIM, sizeof(E), small); for (int d = 0; d < NDIM; d++) s += rawg(in); put(fn, s); P.config_read(fn); tile(in, small, w); foralldir(d) cmp(P[d], w, "PlaquetteField::config_read of a smaller lattice"); break; }
    case 6: put(fn, header(NDIM, sizeof(E), small, 394824241) + rawg(in)); mc_expect_exit(2); V.config_read(fn); mc_fail("%s: wrong id accepted", trail);
    case 7: put(fn, header(NDIM + 1, sizeof(E), small) + rawg(in)); mc_expect_exit(2); V.config_read(fn); mc_fail("%s: wrong dimension accepted", trail);
    case 8: put(fn, header(NDIM, sizeof(E) * 2, small) + rawg(in)); mc_expect_exit(2); V.config_read(fn); mc_fail("%s: wrong element size accepted", trail);
    case 9: { CoordinateVector b = S; b[e_x] += 1; put(fn, header(NDIM, sizeof(E), b) + rawg(in) + rawg(in) + rawg(in)); mc_expect_exit(2); V.config_read(fn); mc_fail("%s: wrong size accepted", trail); }
    case 10: put(fn, good.substr(0, good.size() - 1)); mc_expect_exit(2); V.config_read(fn); mc_fail("%s: short file accepted", trail);
    case 11: put(fn, header(NDIM, sizeof(E) * 2, small) + rawg(in)); mc_expect_exit(2); P.config_read(fn); mc_fail("%s: wrong element size accepted by PlaquetteField", trail);
    }
}
static RE mulr(const RE &a, const RE &b) { return from(to(a) * to(b)); }
static void block(GaugeField<E> &U, RG &u) {
    CoordinateVector fac, BS;
    int m = 1 + mc_global_choose((1 << NDIM) - 1, "factors");
    foralldir(d) fac[d] = 1 + (m >> (int)d & 1);
    int how = mc_global_choose(4, "how");
    mc_state(mc_hash(mc_hash(m, how), VOL));
    if (!lattice.can_block(fac)) mc_skip();
    lattice_struct *base = lattice.ptr();
    foralldir(d) BS[d] = S[d] / fac[d];
    long bv = 1; foralldir(d) bv *= BS[d];
    RG b;
    foralldir(d) {
        b[d].resize(bv);
        for (long y = 0; y < bv; y++) {
            CoordinateVector c = co(y, BS); foralldir(e) c[e] *= fac[e];
            RE x = u[d][ix(c, S)];
            if (fac[d] == 2) x = from(to(x) * to(u[d][ix((c + d).mod(S), S)]));
            b[d][y] = x;
        }
    }
    CoordinateVector S0 = S; long V0 = VOL;
    lattice.block(fac);
    lattice_struct *bl = lattice.ptr();
    S = BS; VOL = bv;
    GaugeField<E> W;
    RG junk;
    if (how == 0) {           // from the blocked lattice
        fill(W, junk, 9);
        W.block_gauge(U);
        if (lattice.ptr() != bl) mc_fail("%s: block_gauge changes the lattice", trail);
        cmp(W, b, "block_gauge");
    } else if (how == 1) {    // with the parent active
        fill(W, junk, 9);
        lattice.switch_to(base);
        W.block_gauge(U);
        if (lattice.ptr() != base) mc_fail("%s: block_gauge changes the lattice", trail);
        lattice.switch_to(bl);
        cmp(W, b, "block_gauge with the parent active");
    } else {
        lattice.switch_to(base);
        W = U;
        lattice.switch_to(bl);
        W.block_gauge_to_current_lattice();
        if (lattice.ptr() != bl) mc_fail("%s: block_gauge_to_current_lattice changes the lattice", trail);
        cmp(W, b, "block_gauge_to_current_lattice");
        foralldir(d) if (W[d].mylattice().ptr() != bl) mc_fail("%s: field is not on the blocked lattice", trail);
        W.block_gauge_to_current_lattice();
        cmp(W, b, "second block_gauge_to_current_lattice");
    }
    // change the blocked field, and copy it back
    foralldir(d) { W[d][ODD] = W[d][X] + W[d][X]; for (long y = 0; y < bv; y++) if (co(y, BS).parity() == ODD) for (auto &x : b[d][y]) x *= 2; }
    cmp(W, b, "changed blocked field");
    if (how == 3) lattice.switch_to(base);
    W.unblock_gauge(U);
    if (lattice.ptr() != (how == 3 ? base : bl)) mc_fail("%s: unblock_gauge changes the lattice", trail);
    if (how != 3) cmp(W, b, "blocked field after unblock_gauge");
    lattice.switch_to(base);
    S = S0; VOL = V0;
    foralldir(d) for (long y = 0; y < bv; y++) { CoordinateVector c = co(y, BS); foralldir(e) c[e] *= fac[e]; u[d][ix(c, S)] = b[d][y]; }
    cmp(U, u, "unblock_gauge");
}
HARNESS_MAIN {
    hila::initialize(argc, argv);
    static const int shapes[][4] = {{4, 4, 2, 2}, {2, 6, 4, 2}, {6, 4, 2, 4}, {3, 4, 2, 2}, {8, 8, 2, 2}, {4, 4, 4, 2}};
    int k = mc_param("shape", -1);
    if (k < 0) k = mc_global_choose(mc_param("shapes", 4), "lattice");
    VOL = 1;
    foralldir(d) { S[d] = shapes[k][(int)d]; VOL *= S[d]; }
    mc_expect_exit(1);
    lattice.setup(S);
    mc_expect_exit(0);
    int len = snprintf(trail, sizeof trail, "lattice %d, %d ranks", k, mc_nranks());
    GaugeField<E> U, V;
    RG u, v;
    fill(U, u, 1);
    fill(V, v, 2);
    std::string mode = mc_sparam("mode", "ops");
    unsigned long h = k;
    if (mode == "ops") {
        for (int i = 0; i < mc_param("depth", 2); i++) {
            int o = mc_global_choose(NOP, "operation");
            len += snprintf(trail + len, sizeof trail - len, "; %s", opname[o]);
            op(o, i, U, V, u, v);
            cmp(U, u, "U");
            cmp(V, v, "V");
            mc_state(h = mc_hash(h, o));
        }
    } else if (mode == "block") block(U, u);
    else files(U, u);
    return 0;
}
