// Checkpoints: saved and restored exactly; runs interrupted at every file operation are restarted.
#include <fstream>
#include <cstring>
#include "hila.h"
#include "common.h"
#include "gauge/staples.h"
#include "tools/checkpoint.h"

#ifndef MC_GROUP
#define MC_GROUP SU<2,double>
#endif
using G = MC_GROUP;
static CoordinateVector S;
static long idx(const CoordinateVector &c) {
    long i = 0;
    for (int d = NDIM - 1; d >= 0; d--) i = i * S[d] + c[d];
    return i;
}
// contents of configuration k at site x direction d: any bits will do
static G value(int k, long x, int d) {
    G u;
    auto *p = (hila::arithmetic_type<G> *)&u;
    for (size_t i = 0; i < sizeof(G) / sizeof(*p); i++) p[i] = (hila::arithmetic_type<G>)(1 + k * 1000 + x * 64 + d * 16 + i) / 3;
    return u;
}
static void set(GaugeField<G> &U, int k) {
    foralldir(d) {
        U[d].check_alloc();
        for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) U[d].set_value_at(value(k, idx(lattice->coordinates(i)), d), i);
        U[d].mark_changed(ALL);
    }
}
static bool is(GaugeField<G> &U, int k) {
    int ok = 1;
    foralldir(d) for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
        G u = U[d].get_value_at(i), v = value(k, idx(lattice->coordinates(i)), d);
        if (memcmp(&u, &v, sizeof(G))) ok = 0;
    }
    mc_compared(1);
    int *all = (int *)mc_shared(256);
    all[mc_rank()] = ok;
    mc_barrier();
    for (int r = 0; r < mc_nranks(); r++) ok &= all[r];
    mc_barrier();
    return ok;
}
static void setup(int l) {
    foralldir(d) S[d] = l;

    lattice.setup(S);
}
static std::string slurp(const std::string &f) {
    std::ifstream in(f, std::ios::binary);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
static bool exists(const std::string &f) { std::ifstream in(f); return (bool)in; }
struct Log { long started, done, traj[32], ntraj, initial; };   // checkpoint k saved trajectory traj[k]

static void agree(long v, const char *what) {
    long *all = (long *)mc_shared(64 * sizeof(long) + 64) + 8;
    all[mc_rank()] = v;
    mc_barrier();
    for (int r = 0; r < mc_nranks(); r++) if (all[r] != v) mc_fail("%s differs between ranks: %ld and %ld", what, v, all[r]);
    mc_barrier();
}

// restore and compare with what may be there; returns the number of the checkpoint found (0: none)
static int restore(GaugeField<G> &U, Log *log, const std::string &file, int &ntraj, int &traj) {
    set(U, 900);
    ntraj = 100;
    traj = 7;
    bool ok = restore_checkpoint(U, file, ntraj, traj);
    agree(ok, "result of restore_checkpoint()");
    agree(traj, "trajectory");
    agree(ntraj, "number of trajectories");
    int k = 0;
    for (int j = 1; j <= log->started; j++) if (ok && is(U, j)) k = j;
    if (!ok) {
        if (log->done > 0) mc_fail("after %ld checkpoints, restore_checkpoint() finds none", log->done);
        if (log->initial) mc_fail("restore_checkpoint() does not find the initial configuration");
        if (!is(U, 900) || traj != 7 || ntraj != 100) mc_fail("restore_checkpoint() found nothing but changed something");
        if (hila::is_rng_seeded()) mc_fail("nothing restored but the random numbers are seeded");
        return 0;
    }
    if (k == 0) {
        if (log->initial && log->done == 0 && is(U, 500)) {
            if (traj != 7 || ntraj != 100) mc_fail("initial configuration read, but trajectory %d of %d", traj, ntraj);
            return 0;
        }
        mc_fail("the restored configuration is none of those saved");
    }
    if (traj != log->traj[k] + 1) mc_fail("configuration saved after trajectory %ld is restored as the start of trajectory %d", log->traj[k], traj);
    if (k < log->done) mc_fail("%ld checkpoints were completed but number %d is restored", log->done, k);
    if (ntraj != log->ntraj) mc_fail("number of trajectories is %d after restoring, should be %ld", ntraj, log->ntraj);
    if (!hila::is_rng_seeded()) mc_fail("random numbers not seeded by restore_checkpoint()");
    return k;
}

HARNESS_MAIN {
    hila::initialize(argc, argv);
    int mode = mc_param("mode", 0), phase = mc_param("phase", 0), phases = mc_param("phases", 2);
    std::string file = "config";
    if (mode == 0) {                 // interrupted runs
        setup(mc_param("size", 4));
        int scenario = mc_param("scenario", 0), saves = mc_param("saves", 3);
        Log *log = (Log *)mc_persist();
        GaugeField<G> U;
        int ntraj, traj;
        if (phase == 0 && mc_rank() == 0) log->ntraj = 100;
        mc_barrier();
        if (phase == 0 && (scenario & 2)) {      // an initial configuration
            set(U, 500);
            U.config_write("start");
            if (mc_rank() == 0) { rename("start", "config"); log->initial = 1; }
            mc_barrier();
        }
        int k = 0;
        k = restore(U, log, file, ntraj, traj);
        if (phase == phases - 1) {
            // a second restart finds the same
            int k2 = restore(U, log, file, ntraj, traj);
            if (k2 != k) mc_fail("restored checkpoint %d, and then %d", k, k2);
            mc_state(mc_hash(mc_hash(log->started, log->done), k));
            mc_outcome(mc_hash(log->started - k, log->done - k));
        }
        // go on
        if (!hila::is_rng_seeded()) hila::seed_random(3);
        if (k == 0) traj = 0;
        int more = phase == phases - 1 ? 1 : saves;
        for (int s = 0; s < more; s++) {
            traj += 3 + 97 * s;
            int n = (phase == 0 ? 0 : (int)log->started) + 1;
            if (phase > 0 || s > 0) n = log->started + 1;
            agree(n, "n");
            mc_barrier();
            set(U, n);
            if (mc_rank() == 0) { log->started = n; log->traj[n] = traj; }
            mc_barrier();
            if (scenario & 1) checkpoint(U, file, ntraj, traj, false);
            else checkpoint(U, file, ntraj, traj);
            if (mc_rank() == 0) log->done = n;
            mc_barrier();
            if (!is(U, n)) mc_fail("checkpoint() changed the configuration");
            if (!(scenario & 1) && n > 1 && phase == 0) {
                GaugeField<G> O;
                O.config_read(file + ".prev");
                if (!is(O, n - 1)) mc_fail("the configuration before is not in %s.prev", file.c_str());
            }
        }
        if (phase == phases - 1) {
            int last = log->started;
            if (restore(U, log, file, ntraj, traj) != last) mc_fail("a checkpoint after the restart is not found");
        }
    } else if (mode == 2) {          // files that do not fit are refused, smaller lattices are repeated
        setup(mc_param("size", 4));
        GaugeField<G> U;
        set(U, 1);
        U.config_write(file);
        mc_barrier();
        std::string t = slurp(file);
        size_t head = (3 + NDIM) * 8, V = lattice.volume();
        if (t.size() != head + NDIM * V * sizeof(G)) mc_fail("size of configuration file is %ld", (long)t.size());
        mc_compared(1);
        int64_t h[3 + NDIM];
        memcpy(h, t.data(), head);
        if (h[1] != NDIM || h[2] != (long)sizeof(G)) mc_fail("header of configuration file");
        foralldir(d) if (h[3 + (int)d] != lattice.size(d)) mc_fail("size in header");
        foralldir(d) for (size_t x = 0; x < V; x++) {
            G v = value(1, x, d);
            if (memcmp(&v, t.data() + head + ((int)d * V + x) * sizeof(G), sizeof(G))) mc_fail("configuration file: link %d of site %ld", (int)d, (long)x);
        }
        int what = mc_global_choose(3, "defect");
        bool bad = true;
        if (what == 0) {             // one word of the header is another
            int w = mc_global_choose(3 + NDIM, "word"), v = mc_global_choose(6, "value");
            const int64_t other[6] = {h[w] + 1, h[w] - 1, 0, h[w] * 2, h[w] ^ (1l << 40), h[w] * 3 - 5};
            if (other[v] == h[w]) mc_skip();
            if (w >= 3 && other[v] > 0 && h[w] % other[v] == 0) bad = false;
            h[w] = other[v];
            memcpy(&t[0], h, head);
            if (!bad) mc_skip();
        } else if (what == 1) {      // cut off
            size_t cut = mc_global_choose(head + 40, "cut");
            if (cut >= head) cut = head + (t.size() - head) * (cut - head) / 40;
            if (cut == t.size()) mc_skip();
            t.resize(cut);
        } else {                     // a smaller lattice
            long n = 1, k[NDIM];
            foralldir(d) { k[d] = 1 + mc_global_choose(lattice.size(d), "side"); h[3 + (int)d] = k[d]; n *= k[d]; if (lattice.size(d) % k[d] == 0) {} }
            bad = false;
            foralldir(d) if (lattice.size(d) % k[d]) bad = true;
            t.resize(head);
            memcpy(&t[0], h, head);
            foralldir(d) for (long x = 0; x < n; x++) { G v = value(2, x, d); t += std::string((char *)&v, sizeof v); }
            if (!bad) {
                if (mc_rank() == 0) { std::ofstream o("other", std::ios::binary); o << t; }
                mc_barrier();
                U.config_read("other");
                foralldir(d) for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
                    long x = 0;
                    for (int e = NDIM - 1; e >= 0; e--) x = x * k[e] + lattice->coordinates(i)[e] % k[e];
                    G a = U[d].get_value_at(i), b = value(2, x, d);
                    if (memcmp(&a, &b, sizeof a)) mc_fail("link %d of a repeated smaller lattice is wrong", (int)d);
                }
                // boundaries are fetched anew
                GaugeField<G> W;
                foralldir(d) onsites(ALL) W[d][X] = U[d][X + e_x];
                foralldir(d) for (unsigned i = lattice->loop_begin(ALL); i < lattice->loop_end(ALL); i++) {
                    long x = 0;
                    for (int e = NDIM - 1; e >= 0; e--) x = x * k[e] + (lattice->coordinates(i)[e] + (e == 0)) % k[e];
                    G a = W[d].get_value_at(i), b = value(2, x, d);
                    if (memcmp(&a, &b, sizeof a)) mc_fail("neighbour of a link read from a file is wrong");
                }
                mc_compared(V);
            }
        }
        if (bad) {
            if (mc_rank() == 0) { std::ofstream o("other", std::ios::binary); o << t; }
            mc_barrier();
            mc_expect_exit(2);
            U.config_read("other");
            mc_expect_exit(0);
            mc_fail("a file that is damaged or of another lattice was accepted");
        }
    } else {                         // whole histories of checkpoints, edits of run_status and restarts
        setup(mc_param("size", 4));
        static Log mylog;
        Log *log = &mylog;
        memset(log, 0, sizeof *log);
        log->ntraj = 100;
        GaugeField<G> U;
        int ntraj = 100, traj = 0, depth = mc_param("depth", 4);
        hila::seed_random(5);
        uint64_t prevseed = 0;
        for (int s = 0; s < depth; s++) {
            int o = mc_global_choose(5, "step");
            if (o <= 1) {            // checkpoint, with and without keeping the old
                int n = log->started + 1;
                set(U, n);
                bool had = exists(file), hadp = exists(file + ".prev");
                std::string old = slurp(file), oldp = slurp(file + ".prev");
                mc_barrier();
                log->started = log->done = n;
                log->traj[n] = traj + s;
                if (o == 0) checkpoint(U, file, ntraj, traj + s);
                else checkpoint(U, file, ntraj, traj + s, false);
                mc_barrier();
                agree(ntraj, "number of trajectories");
                if (ntraj != log->ntraj) mc_fail("the changed number of trajectories %ld is not seen by checkpoint(): %d", log->ntraj, ntraj);
                if (!is(U, n)) mc_fail("checkpoint() changed the configuration");
                if (o == 0 && had && slurp(file + ".prev") != old) mc_fail("the configuration before is not in %s.prev", file.c_str());
                if (o == 1 && (exists(file + ".prev") != hadp || slurp(file + ".prev") != oldp)) mc_fail("%s.prev was changed though it was not to be", file.c_str());
                mc_barrier();
            } else if (o == 2) {     // the user changes the number of trajectories
                if (!log->done) mc_skip();
                mc_barrier();
                if (mc_rank() == 0) {
                    std::string t = slurp("run_status");
                    size_t p = t.find("trajectories ");
                    if (p == std::string::npos) mc_fail("no trajectories in run_status: %s", t.c_str());
                    size_t e = t.find(' ', p + 13);
                    std::ofstream("run_status") << t.substr(0, p + 13) << 200 + s << t.substr(e);
                }
                log->ntraj = 200 + s;
                mc_barrier();
            } else if (o == 3) {     // restart
                mc_barrier();
                hila::seed_random(17 + s);
                int n2 = log->ntraj, t2 = 7;
                set(U, 900);
                bool ok = restore_checkpoint(U, file, n2, t2);
                agree(ok, "result");
                if (ok != (log->done > 0)) mc_fail("restore_checkpoint() returns %d after %ld checkpoints", ok, log->done);
                if (ok) {
                    if (!is(U, log->done)) mc_fail("not the configuration saved last");
                    if (t2 != log->traj[log->done] + 1 || n2 != log->ntraj) mc_fail("restored trajectory %d of %d, should be %ld of %ld", t2, n2, log->traj[log->done] + 1, log->ntraj);
                    // same random numbers in every restart from this checkpoint, as from the seed in the file
                    double a[4], b[4];
                    for (double &x : a) x = hila::random();
                    int n3, t3;
                    hila::random();
                    restore_checkpoint(U, file, n3, t3);
                    for (double &x : b) x = hila::random();
                    for (int i = 0; i < 4; i++) if (a[i] != b[i]) mc_fail("random numbers of two restarts are different");
                    traj = t2;
                    ntraj = n2;
                } else if (!is(U, 900) || t2 != 7) mc_fail("nothing restored but something changed");
            } else {                 // somebody else reads the saved files
                if (!log->done) mc_skip();
                GaugeField<G> O;
                O.config_read(file);
                if (!is(O, log->done)) mc_fail("config_read() of the checkpoint");
                std::string t = slurp("run_status");
                size_t p = t.find("seed ");
                if (p == std::string::npos) mc_fail("no seed");
                uint64_t seed = strtoull(t.c_str() + p + 5, nullptr, 10);
                if (seed == prevseed) {} // the same checkpoint as before
                prevseed = seed;
                for (const char *q : {".new", ".tmp"}) if (exists(file + q) || exists(std::string("run_status") + q)) mc_fail("file with %s left behind", q);
                mc_barrier();
            }
            mc_state(mc_hash(mc_hash(log->done, log->ntraj), mc_hash(traj, ntraj)));
        }
    }
    return 0;
}
