// time limit, signal and timers under a controlled clock
#include "hila.h"
#include "common.h"
#include <sys/resource.h>
#include <csignal>
extern "C" void mc_raise(int);
static std::string hist;

// every sequence of steps (clock advance, signal to a rank, check) for every time limit
static void limits() {
    static const double LIM[] = {0, 100, 121, 600, 1000.5}, STEP[] = {1, 10, 100, 130, 400};
    int depth = mc_param("depth", 5), nst = mc_param("nst", 5);
    int li = mc_global_choose(5, "limit"), how = mc_global_choose(2, "how it is given");
    double lim = LIM[li];
    if (how) {
        char s[40];
        snprintf(s, sizeof s, "%d:%d", (int)lim / 60, (int)lim % 60);
        lim = (int)lim;
        hila::setup_timelimit(std::string(s));
    } else if (lim != 0) hila::setup_timelimit(lim);
    double t = 0, prev = 0, maxint = 0;
    bool sig = false, mine = false;
    int nr = hila::number_of_nodes();
    for (int k = 0; k < depth; k++) {
        int q = mc_global_choose(nst + nr, "step");
        hist += std::to_string(q) + " ";
        if (q >= nst) {   // signal to rank q - nst: effect only on rank 0
            mc_barrier();
            if (hila::myrank() == q - nst) { mc_raise(SIGUSR1); mine = true; }
            if (q == nst) sig = true;
            mc_barrier();
            if ((hila::signal_status() != 0) != mine) mc_fail("signal_status() is %d: %s", hila::signal_status(), hist.c_str());
        } else {
            t += STEP[q];
            mc_barrier();
            mc_clock_set(1000 + t);
            mc_barrier();
            bool want;
            if (sig) want = true;
            else if (lim == 0) want = false;
            else {
                maxint = std::max(maxint, t - prev);
                prev = t;
                want = lim - t < maxint + 120;
                if (std::abs(lim - t - maxint - 120) < 0.01) mc_skip();   // too close to the limit to tell
            }
            bool got = hila::time_to_finish();
            if (got != want) mc_fail("(gettime %g) time_to_finish() is %d at %g s of %g, longest step %g: %s", hila::gettime(), got, t, lim, maxint, hist.c_str());
            mc_compared(1);
            mc_state(mc_hash(mc_hash(li * 4 + sig * 2 + want, (long)t), (long)maxint));
        }
    }
}
// every -t string of the documented format and malformed ones
static void strings() {
    static const char *N[] = {"0", "7", "59", "08", "100", "86400"};
    static const char *BAD[] = {"", "abc", ":", "1:", ":1", "1:2:", "1:2:3:4", "1-2", "1-2:3", "-5", "1:-2", "5m", "5 m", "1:2x", "1.5", "1-2:3:4:5", "1-2:3:4x", "h:m:s", "1--2:3:4", "0x10", "UNLIMITED", "1;2", "1::2"};
    int form = mc_global_choose(5, "format");
    if (form == 4) {
        const char *s = BAD[mc_global_choose(sizeof BAD / sizeof *BAD, "string")];
        mc_note("'%s'", s);
        mc_expect_exit(2);
        hila::setup_timelimit(std::string(s));
        mc_fail("time limit '%s' was accepted", s);
    }
    double f[4] = {0, 0, 0, 0};
    std::string s;
    for (int i = 3 - form; i < 4; i++) {
        const char *n = N[mc_global_choose(6, "field")];
        f[i] = strtol(n, nullptr, 10);
        s += std::string(n) + (i == 0 ? "-" : i < 3 ? ":" : "");
    }
    double lim = f[3] + 60 * (f[2] + 60 * (f[1] + 24 * f[0]));
    hila::setup_timelimit(s);
    hist = s;
    // the limit shows in the time when time_to_finish() becomes true: steps of at most 1 s, then 120 s margin
    auto check = [&](double t, bool want) {
        mc_barrier();
        mc_clock_set(1000 + t);
        mc_barrier();
        if (hila::time_to_finish() != want) mc_fail("limit '%s': time_to_finish() is %d at %g s, limit %g s", s.c_str(), !want, t, lim);
        mc_compared(1);
    };
    if (lim == 0) { check(1e6, false); return; }
    if (lim > 250) {   // the first interval is all of the time: it stays below lim - 120 - t
        double t = (lim - 120) / 2;
        check(t - 1, false);
        check(t + 2, true);
    } else check(1, lim - 1 < 121);
}
// timers: every sequence of operations on two timers
static void timers() {
    int depth = mc_param("depth", 6), first = mc_global_choose(10, "first operation"), second = mc_global_choose(10, "second");
    long total = 1;
    for (int i = 2; i < depth; i++) total *= 10;
    double now = 0;
    struct Ref { bool on = false, err = false, listed = false; double t = 0, start = 0; long n = 0; };
    for (long c = 0; c < total; c++) {
        hila::timer *tm[2] = {new hila::timer("timer A"), new hila::timer("timer B")};
        Ref r[2];
        long k = c;
        hist.clear();
        for (int st = 0; st < depth; st++) {
            int q = st == 0 ? first : st == 1 ? second : k % 10, i = q / 5, op = q % 5;
            if (st > 1) k /= 10;
            auto &R = r[i];
            hist += std::string(1, 'A' + i) + std::string(1, '0' + op) + " ";
            now += 1 << st;
            mc_clock_set(2000 + now);
            switch (op) {
            case 0: tm[i]->start(); if (R.on) R.err = true; R.on = true; R.start = now; R.listed = true; break;
            case 1: tm[i]->stop(); if (!R.on) R.err = true; R.t += now - R.start; R.on = false; R.n++; break;
            case 2: tm[i]->reset(); R.on = R.err = false; R.t = R.start = 0; R.n = 0; break;
            case 3: delete tm[i]; tm[i] = new hila::timer(i ? "timer B" : "timer A"); R = Ref(); break;
            case 4: break;
            }
            for (int j = 0; j < 2; j++) {
                auto v = tm[j]->value();
                if (v.count != r[j].n) mc_fail("count of timer %c is %ld, not %ld: %s", 'A' + j, (long)v.count, r[j].n, hist.c_str());
                if (!r[j].err && std::abs(v.time - r[j].t) > 1e-3) mc_fail("time of timer %c is %g, not %g: %s", 'A' + j, v.time, r[j].t, hist.c_str());
            }
            mc_compared(4);
        }
        // the report has a line for every timer used, none twice, and none of a timer which is gone
        std::stringstream ss;
        auto *old = hila::out.rdbuf(ss.rdbuf());
        hila::report_timers();
        hila::out.rdbuf(old);
        std::string out = ss.str();
        if (hila::myrank() == 0) for (int j = 0; j < 2; j++) {
            std::string name = j ? "timer B" : "timer A";
            int n = 0;
            for (size_t x = out.find(name); x != std::string::npos; x = out.find(name, x + 1)) n++;
            bool want = r[j].listed && (r[j].err || r[j].n > 0);
            if (r[j].err ? n > 1 : n != want) mc_fail("%s is %d times in the report, should be %d: %s", name.c_str(), n, want, hist.c_str());
            size_t x = out.find(name);
            if (want && !r[j].err) {
                double t, per, fr;
                long cnt;
                char unit[8];
                if (sscanf(out.c_str() + x + 20, ": %lf %ld %lf %7s %lf", &t, &cnt, &per, unit, &fr) != 5) mc_fail("report: %s", out.c_str());
                double u = !strcmp(unit, "s") ? 1 : !strcmp(unit, "ms") ? 1e-3 : 1e-6;
                if (cnt != r[j].n || std::abs(t - r[j].t) > 1e-3 || std::abs(per * u - r[j].t / cnt) > 1e-3)
                    mc_fail("report of %s: %g s, %ld calls, %g %s per call; should be %g s, %ld calls: %s", name.c_str(), t, cnt, per, unit, r[j].t, r[j].n, hist.c_str());
            }
            mc_compared(2);
        }
        delete tm[0];
        delete tm[1];
    }
}
HARNESS_MAIN {
    hila::initialize(argc, argv);
    int mode = mc_param("mode", 0);
    if (mode == 0) limits();
    if (mode == 1) strings();
    if (mode == 2) timers();
    return 0;
}
