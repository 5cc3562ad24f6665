// the command line: every argument list up to a length over an alphabet of flags and values, against a direct reading of the rules
#include "hila.h"
#include "common.h"
using Strs = std::vector<std::string>;
static const std::map<std::string, int> FLAGS = {{"-p", 2}, {"-i", 1}, {"-list", -1}, {"-on", 0}, {"-ip", -1}};
static bool looks_like_flag(const std::string &s) { return s.size() > 1 && s[0] == '-' && isalpha(s[1]); }

static bool reference(const Strs &a, std::map<std::string, Strs> &val, std::map<std::string, bool> &present) {
    size_t i = 0;
    while (i < a.size()) {
        auto f = FLAGS.find(a[i]);
        if (f == FLAGS.end()) return false;
        present[a[i]] = true;
        size_t j = i + 1;
        while (j < a.size() && !looks_like_flag(a[j])) val[a[i]].push_back(a[j++]);
        if (f->second >= 0 && (int)(j - i - 1) != f->second) return false;
        i = j;
    }
    return true;
}
static bool is_int(const std::string &s) {
    size_t i = s.size() && (s[0] == '+' || s[0] == '-');
    if (i == s.size()) return false;
    for (; i < s.size(); i++) if (!isdigit(s[i])) return false;
    return true;
}
HARNESS_MAIN {
    hila::initialize(argc, argv);
    static const char *ALPH[] = {"-p", "-i", "-list", "-on", "7", "-5", "x y", "-zz", "-", "+3", "-ip", "", "1.5", "-p7", "--", "on"};
    int len = mc_param("len", 4), na = mc_param("na", 10);
    Strs a;
    std::string show;
    while ((int)a.size() < len) {
        int k = mc_global_choose(na + 1, "argument");
        if (k == 0) break;
        a.push_back(ALPH[k - 1]);
        show += a.back() + " | ";
    }
    std::map<std::string, Strs> val;
    std::map<std::string, bool> present;
    bool ok = reference(a, val, present);
    cmdlinearguments &c = *new cmdlinearguments;
    for (auto &f : FLAGS) c.add_flag(f.first, "help\nmore", "<x>", f.second);
    Strs keep = a;
    keep.insert(keep.begin(), "prog");
    std::vector<char *> p;
    for (auto &s : keep) p.push_back(&s[0]);
    p.push_back(nullptr);
    mc_note("%s", show.c_str());
    if (!ok) {
        mc_expect_exit(2);
        c.initialise_args(keep.size(), p.data());
        mc_fail("accepted: %s", show.c_str());
    }
    c.initialise_args(keep.size(), p.data());
    unsigned long h = 0;
    for (auto &f : FLAGS) {
        const char *n = f.first.c_str();
        Strs &v = val[f.first];
        if (c.flag_present(n) != present[f.first]) mc_fail("flag_present(%s) is %d: %s", n, c.flag_present(n), show.c_str());
        if (c.flag_set(n) != (int)v.size()) mc_fail("flag_set(%s) is %d, not %zu: %s", n, c.flag_set(n), v.size(), show.c_str());
        Strs w = c.values(f.first);
        if (w != v) mc_fail("values(%s): %zu values, not %zu: %s", n, w.size(), v.size(), show.c_str());
        for (size_t i = 0; i < v.size(); i++) {
            if (c.get_string(n, i) != v[i]) mc_fail("get_string(%s, %zu) is %s: %s", n, i, c.get_string(n, i).c_str(), show.c_str());
            if (is_int(v[i])) {
                if (c.get_int(n, i) != strtol(v[i].c_str(), nullptr, 10)) mc_fail("get_int(%s, %zu) is %ld: %s", n, i, c.get_int(n, i), show.c_str());
                if (c.get_double(n, i) != strtod(v[i].c_str(), nullptr)) mc_fail("get_double(%s, %zu): %s", n, i, show.c_str());
            }
            mc_compared(2);
            h = mc_hash(h, std::hash<std::string>()(v[i]));
        }
        mc_compared(3);
    }
    mc_outcome(h);
    if (c.flag_set("-other")) mc_fail("flag_set of an unknown flag");
    // accesses which must end the program
    auto f = FLAGS.begin();
    std::advance(f, mc_global_choose(FLAGS.size(), "flag"));
    const char *n = f->first.c_str();
    Strs &v = val[f->first];
    switch (mc_global_choose(5, "access")) {
    case 0: mc_expect_exit(2); c.get_string(n, v.size()); mc_fail("get_string(%s, %zu) after the last value: %s", n, v.size(), show.c_str());
    case 1: mc_expect_exit(2); c.get_int(n, v.size()); mc_fail("get_int(%s, %zu) after the last value: %s", n, v.size(), show.c_str());
    case 2: mc_expect_exit(2); c.get_double(n, v.size()); mc_fail("get_double(%s, %zu) after the last value: %s", n, v.size(), show.c_str());
    case 3:
        for (size_t i = 0; i < v.size(); i++)
            if (!is_int(v[i])) { mc_expect_exit(2); c.get_int(n, i); mc_fail("get_int of '%s': %s", v[i].c_str(), show.c_str()); }
        break;
    case 4: mc_expect_exit(2); c.values("-other"); mc_fail("values() of an unknown flag: %s", show.c_str());
    }
    return 0;
}
