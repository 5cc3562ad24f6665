// multicanonical weight iteration: every history of order parameter values up to a depth, with every method, against a reference
#include "hila.h"
#include "tools/multicanonical.h"
#include "common.h"
#include <unistd.h>
#include <limits>
#include <algorithm>
using hila::Muca;
typedef std::vector<double> D;
struct Model {
    std::string method;
    bool walls, ends;
    int N, count = 0;
    D lim, cen, w, noc, can;
    std::vector<long> hits, total, nsum, gsum;
    double C, Cmin, OC;
    int samples, interval, minhits, maxit, updates = 0;
    double weight(double x) const {
        if (x <= cen[0]) return walls ? INFINITY : w[0];
        if (x >= cen[N - 1]) return walls ? INFINITY : w[N - 1];
        int i = 0;
        while (x > cen[i + 1]) i++;
        return w[i] + (w[i + 1] - w[i]) * (x - cen[i]) / (cen[i + 1] - cen[i]);
    }
    int bin(double x) const {
        for (int i = 0; i < N; i++) if (x > lim[i] && (i == N - 1 ? x < lim[i + 1] : x <= lim[i + 1])) return i;
        return -1;
    }
    bool finished() const {
        if (ends) return total[0] && total[N - 1];
        for (auto t : total) if (!t) return false;
        return true;
    }
    void reduce() {
        if (finished()) { for (auto &t : total) t = 0; C /= 1.5; }
    }
    bool iterate(double x, bool &written) {
        int b = bin(x);
        count++;
        written = false;
        if (method == "canonical") {
            if (b >= 0) hits[b]++, can[b] += std::exp(weight(x));
            if (count >= samples) {
                count = 0;
                written = true;
                D wp = noc;
                w = noc;
                for (int i = 0; i < N; i++) can[i] /= lim[i + 1] - lim[i], nsum[i] += hits[i];
                for (int i = 1; i < N; i++) {
                    if (hits[i] >= minhits && hits[i - 1] >= minhits) {
                        double g = hits[i] + hits[i - 1];
                        w[i] = w[i - 1] + ((wp[i] - wp[i - 1]) * gsum[i] + g * std::log(can[i] / can[i - 1])) / (gsum[i] + g);
                        gsum[i] += g;
                    } else w[i] = w[i - 1] + wp[i] - wp[i - 1];
                }
                for (int i = 0; i < N; i++) can[i] = hits[i] = 0;
                noc = w;
                for (int i = 0; i < N; i++) w[i] += OC * std::log((lim[1] - lim[0]) / (lim[i + 1] - lim[i]) * nsum[i] / nsum[0]);
                updates++;
                return updates < maxit;
            }
            return true;
        }
        if (method == "direct_smooth") {
            int k[] = {1, 3, 5, 3, 1};
            if (b >= 0) for (int d = -2; d <= 2; d++) if (b + d >= 0 && b + d < N) hits[b + d] += k[d + 2];
            if (count >= samples) {
                long h0 = hits[0];
                for (int i = 0; i < N; i++) w[i] += C * (hits[i] - h0) / N, total[i] += hits[i], hits[i] = 0;
                count = 0, written = true;
                reduce();
            }
        } else if (samples > 1) {
            if (b >= 0) hits[b]++;
            if (count >= samples) {
                for (int i = 0; i < N; i++) w[i] += C * hits[i] * N / samples, total[i] += hits[i], hits[i] = 0;
                double m = *std::min_element(w.begin(), w.end());
                for (auto &x : w) x -= m;
                count = 0, written = true;
                reduce();
            }
        } else {
            if (b >= 0) w[b] += C, total[b]++;
            if (count % interval == 0) {
                double m = *std::min_element(w.begin(), w.end());
                for (auto &x : w) x -= m;
                written = true;
                reduce();
            }
        }
        return C >= Cmin;
    }
};
static std::string hist;
static double EPSW = 1e-10;
static bool near_(double a, double b, double e) { return a == b || std::abs(a - b) <= e * (1 + std::abs(b)); }
static void same(const char *what, const D &a, const D &b, double e = EPSW) {
    mc_compared(1);
    bool ok = a.size() == b.size();
    for (size_t i = 0; ok && i < a.size(); i++) ok = near_(a[i], b[i], e);
    if (ok) return;
    std::stringstream s;
    for (auto x : a) s << x << " ";
    s << "not ";
    for (auto x : b) s << x << " ";
    mc_fail("%s: %s after %s", what, s.str().c_str(), hist.c_str());
}
static std::string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void file_is(const char *f, const Model &m) {
    std::stringstream s(slurp(f));
    std::string h;
    std::getline(s, h);
    D l, c, w;
    double a;
    for (int i = 0; i < m.N; i++) { s >> a; l.push_back(a); s >> a; c.push_back(a); s >> a; w.push_back(a); }
    s >> a;
    l.push_back(a);
    if (!s) mc_fail("weight file %s is not complete after %s: %s", f, hist.c_str(), s.str().c_str());
    s >> a;
    if (s) mc_fail("weight file %s too long after %s", f, hist.c_str());
    same("limits in the file", l, m.lim, 2e-6), same("centers in the file", c, m.cen, 2e-6), same("weights in the file", w, m.w, 2e-6);
}
static D probes;
static void check(Muca &u, const Model &m, bool written) {
    if (hila::myrank() == 0) {
        same("weights", u.weights, m.w);
        if (m.method == "canonical") same("weights before overcorrection", u.CI.noc_weights, m.noc);
        else if (!near_(u.DI.C, m.C, EPSW)) mc_fail("C is %g, not %g after %s", u.DI.C, m.C, hist.c_str());
        for (double x : probes) {
            double g = u.weight_function(x), r = m.weight(x);
            if (!near_(g, r, EPSW)) mc_fail("weight_function(%g) is %g, not %g after %s", x, g, r, hist.c_str());
        }
        mc_compared(probes.size());
        if (written) file_is("intermediate_weight.dat", m);
    }
}
static long nodes;
static void dfs(const Muca &u0, const Model &m0, const D &al, int depth) {
    for (double x : al) {
        Muca u = u0;
        Model m = m0;
        std::string h0 = hist;
        std::stringstream s;
        s << " " << x;
        hist += s.str();
        bool wr;
        // a fresh value on the stack below: the result may not depend on it
        bool got = u.iterate_weights(u, x), want = m.iterate(x, wr);
        if (got != want) mc_fail("iterate_weights returned %d on rank %d, should be %d, after %s", got, mc_rank(), want, hist.c_str());
        check(u, m, wr);
        nodes++;
        if (depth > 1) dfs(u, m, al, depth - 1);
        hist = h0;
    }
}
static std::string method;
static int walls, ends, source, samples, maxit = 3;
static double C0 = 0.5, Cmin = 0.3;
static void parameters(const std::string &weights) {
    if (hila::myrank() == 0) {
        std::ofstream f("muca_parameters");
        f << "weight_file_location " << weights << "\niteration_method " << (method == "single" ? "direct" : method) << "\nhard_walls " << (walls ? "YES" : "NO")
          << "\nmax_OP 0.6\nmin_OP -0.4\nnumber_of_bins 5\niteration_visuals NO\nDI_finish_condition " << (ends ? "ends_visited" : "all_visited")
          << "\nDI_sample_size " << samples << "\nDI_single_check_interval 2\nDI_C_init " << C0 << "\nDI_C_min " << Cmin
          << "\nCI_sample_size " << samples << "\nCI_initial_bin_hits 2\nCI_min_bin_hits 1\nCI_max_iters " << maxit
          << "\nCI_overcorrect_factor 2.0\nCI_overcorrect_max_iter -1\nCI_overcorrect_frequency 0\n";
    }
    mc_barrier();
}
static Model model() {
    Model m;
    m.method = method, m.walls = walls, m.ends = ends, m.C = C0, m.Cmin = Cmin, m.OC = 2, m.samples = samples, m.interval = 2, m.minhits = 1, m.maxit = maxit;
    if (source == 0) {
        m.N = 5;
        for (int i = 0; i <= 5; i++) m.lim.push_back(-0.525 + 0.25 * i);
        m.w = D(5, 0.0);
    } else {
        m.lim = {-1, -0.75, -0.25, 0.5, 2};
        m.w = {0.5, -1.25, 3, 0};
        m.N = 4;
    }
    for (int i = 0; i < m.N; i++) m.cen.push_back((m.lim[i] + m.lim[i + 1]) / 2);
    m.noc = m.w, m.can = D(m.N, 0.0);
    m.hits = m.total = std::vector<long>(m.N, 0);
    m.nsum = std::vector<long>(m.N, 1), m.gsum = std::vector<long>(m.N, 2);
    return m;
}
static void weightfile(const char *f, const Model &m, int kind = 0) {
    if (hila::myrank() == 0) {
        std::ofstream o(f);
        if (kind != 1) o << "# made by hand\n# 1 2 3\n";
        if (kind != 2) o << "OP_bin_limit\tOP_value\tWeight\n";
        if (kind != 3) for (int i = 0; i < m.N; i++) o << m.lim[i] << "\t" << m.cen[i] << "\t" << (kind == 4 && i == 2 ? "x" : std::to_string(m.w[i])) << "\n";
        if (kind != 3) o << (kind == 5 ? "end" : std::to_string(m.lim[m.N])) << "\n";
    }
    mc_barrier();
}
HARNESS_MAIN {
    hila::initialize(argc, argv);
    CoordinateVector s;
    foralldir(d) s[d] = 4;
    lattice.setup(s);
    int mode = mc_global_choose(3, "mode"), depth = mc_param("depth", 5);
    const char *ms[] = {"direct", "single", "direct_smooth", "canonical"};
    if (mode == 0) {   // histories
        method = ms[mc_global_choose(4, "method")];
        source = mc_global_choose(2, "source"), walls = mc_global_choose(2, "walls");
        ends = method == "canonical" ? 0 : mc_global_choose(2, "finish condition");
        samples = method == "single" ? 1 : 2 + mc_global_choose(2, "samples");
        int first = mc_global_choose(5, "first value");
        if (chdir(mc_rundir())) mc_fail("chdir");
        mc_barrier();
        Model m = model();
        weightfile("w0", m);
        parameters(source ? "w0" : "NONE");
        Muca u;
        if (!u.initialise("muca_parameters")) mc_fail("initialise failed");
        probes = {m.lim[0] - 1, m.cen[0] - 0.01, m.cen[0] + 1e-4, m.lim[1], m.cen[1], 0.05, 0.3, m.lim[m.N - 1] - 0.02, m.cen[m.N - 1] - 1e-4, m.cen[m.N - 1] + 0.01, 5};
        hist = method + ":";
        check(u, m, false);
        D al = {m.cen[0] + 0.01, m.lim[1] + 0.01, m.lim[2], m.cen[m.N - 1] - 0.01, m.lim[m.N] + 0.5};
        if (m.N == 5) al.push_back(m.cen[2]);
        if (method != "canonical") al.push_back(m.lim[0]), al.push_back(m.lim[m.N]), al.push_back(m.lim[0] + 0.001);
        else if (!walls) al.push_back(m.lim[0] + 0.001);
        // the first value is chosen by the explorer, the others here
        double x = al[first];
        std::stringstream ss;
        ss << " " << x;
        hist += ss.str();
        bool wr, got = u.iterate_weights(u, x), want = m.iterate(x, wr);
        if (got != want) mc_fail("iterate_weights returned %d on rank %d, should be %d, after %s", got, mc_rank(), want, hist.c_str());
        check(u, m, wr);
        if (method != "single" && depth > 4 && al.size() > 6) depth--;
        dfs(u, m, al, depth);
        // a long run: until the iteration ends
        for (int i = 0; i < 60; i++) {
            double y = al[(i * 5 + first) % al.size()];
            hist += " .";
            got = u.iterate_weights(u, y), want = m.iterate(y, wr);
            if (got != want) mc_fail("iterate_weights returned %d on rank %d, should be %d, step %d of a long run, %s", got, mc_rank(), want, i, hist.c_str());
            check(u, m, wr);
        }
        // every rank has the weights; written files are read back
        for (double p : probes) { double g = u.weight(p), r = m.weight(p); if (!near_(g, r, EPSW)) mc_fail("weight(%g) is %g, not %g on rank %d after %s", p, g, r, mc_rank(), hist.c_str()); }
        if (hila::myrank() == 0) {
            if (!u.write_weight_function("w1")) mc_fail("write_weight_function failed");
            file_is("w1", m);
        }
        mc_barrier();
        parameters("w1");
        Muca v;
        if (!v.initialise("muca_parameters")) mc_fail("initialise from a written file failed");
        EPSW = 3e-6;
        if (hila::myrank() == 0) {
            same("weights read back", v.weights, m.w), same("limits read back", v.OP_bin_limits, m.lim), same("centers read back", v.OP_bin_centers, m.cen);
            if (v.OP_bin_hits.size() != (size_t)m.N || v.OP_bin_hits_total.size() != (size_t)m.N) mc_fail("histograms have wrong size");
        }
        mc_compared(nodes);
        mc_state(first + 10 * samples + 100 * ends + 1000 * source + 10000 * walls + 100000 * method.size());
    } else if (mode == 1) {   // accept / reject
        method = ms[mc_global_choose(2, "method")];
        source = 1, walls = mc_global_choose(2, "walls"), ends = 0, samples = method == "single" ? 1 : 2;
        int cont = mc_global_choose(2, "continuous"), seed = mc_global_choose(mc_param("seeds", 24), "seed");
        if (chdir(mc_rundir())) mc_fail("chdir");
        mc_barrier();
        Model m = model();
        weightfile("w0", m);
        parameters("w0");
        Muca u0;
        if (!u0.initialise("muca_parameters")) mc_fail("initialise failed");
        D al = {m.cen[0] + 0.01, m.lim[1], m.cen[1], m.cen[2], m.cen[3] - 0.01, m.lim[4] + 1, m.lim[0] - 1};
        for (double a : al) for (double b : al) {
            Muca u = u0;
            Model k = m;
            if (cont) u.set_continuous_iteration(true);
            hila::seed_random(seed + 11);
            double r = hila::random();
            hila::seed_random(seed + 11);
            double x = a, y = b;
            for (int step = 0; step < 3; step++) {   // the same proposal and the reverse
                if (step) { hila::seed_random(seed + 100 * step); r = hila::random(); hila::seed_random(seed + 100 * step); }
                double lp = k.weight(x) - k.weight(y);
                bool want = std::log(r) < lp;   // false also if both are outside of the walls
                double shared = want;
                hila::broadcast(shared);   // the random number is the one of rank 0
                want = shared != 0;
                bool got = u.accept_reject(x, y);
                std::stringstream s;
                s << "proposal " << x << " -> " << y << " step " << step << " random " << r;
                hist = s.str();
                mc_compared(1);
                if (got != want) mc_fail("accept_reject is %d on rank %d, should be %d: %s", got, mc_rank(), want, hist.c_str());
                if (cont) {
                    bool wr, c = k.iterate(got ? y : x, wr);
                    check(u, k, wr);
                    if (u.check_weight_iter_flag() != c) mc_fail("weight iteration flag is %d, should be %d: %s", !c, c, hist.c_str());
                } else check(u, k, false);
                if (got) std::swap(x, y);
            }
            u.set_continuous_iteration(false);
        }
    } else {   // parameter and weight files
        int kind = mc_global_choose(7, "kind");
        if (chdir(mc_rundir())) mc_fail("chdir");
        mc_barrier();
        method = "direct", samples = 2, source = 1;
        Model m = model();
        if (kind < 6) weightfile("w0", m, kind);
        parameters("w0");
        Muca u;
        bool ok = u.initialise("muca_parameters");
        if (ok != (kind < 2)) mc_fail("initialise returned %d on rank %d for weight file %d", ok, mc_rank(), kind);
        if (ok && hila::myrank() == 0) same("weights read", u.weights, m.w, 1e-6), same("limits read", u.OP_bin_limits, m.lim, 1e-6);
        // may be initialised again
        weightfile("w0", m, 0);
        if (!u.initialise("muca_parameters")) mc_fail("second initialise failed");
        hist = "initialised again";
        EPSW = 1e-6;
        check(u, m, false);
    }
    return 0;
}
