// mcrun: explores, exhaustively within stated bounds, the executions of a HILA program (a harness compiled by hilapp
// from /repo's sources into a shared object).
//
//  * N MPI ranks are N private copies of the shared object, run as fibers of ONE process; this file is their MPI layer.
//  * Every environment answer (harness operation, rank schedule, MPI_Test result, eager/rendezvous send, crash point,
//    clock) is a call of choose(); a choice point with n alternatives forks the whole process n-1 times, so that the
//    complete tree of choices is visited.
//  * Message buffers are monitored: the send buffer must not change between Isend and completion, the receive buffer is
//    filled with a pattern at Irecv, gets its data only at completion and must not have been written or freed before.
//    With this ownership monitor the moment of delivery cannot influence an accepted execution, so that message timings
//    need not be enumerated.
#define _GNU_SOURCE 1
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <complex>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include "include/mpi.h"
#include "include/mc.h"

typedef unsigned long ulong64;
#define EXPORT extern "C" __attribute__((visibility("default")))

// ------------------------------------------------------------------ shared between all processes of the exploration
constexpr int MAXVIOL = 64, MSGLEN = 3000, TRLEN = 2000, NSAMPLE = 6;
constexpr size_t HASHSLOTS = 1u << 22;
struct Viol { char msg[MSGLEN]; char trace[TRLEN]; char note[MSGLEN]; };
struct Shared {
    sem_t slots, lock;
    volatile ulong64 executions, nodes, transitions, states, outcomes, compared, pruned, capped, switches, messages, exits;
    volatile int nviol, stop, nsample, nknown;
    Viol viol[MAXVIOL];
    Viol sample[NSAMPLE];
    char known[64][400];
    ulong64 st[HASHSLOTS], oc[HASHSLOTS];
};
static Shared *G;

static void addset(ulong64 *tab, volatile ulong64 *cnt, ulong64 h) {
    if (h == 0) h = 1;
    size_t i = (h * 0x9e3779b97f4a7c15UL) >> 42;
    for (size_t k = 0; k < HASHSLOTS; k++, i = (i + 1) & (HASHSLOTS - 1)) {
        ulong64 v = __atomic_load_n(&tab[i], __ATOMIC_RELAXED);
        if (v == h) return;
        if (v == 0) {
            ulong64 e = 0;
            if (__atomic_compare_exchange_n(&tab[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_fetch_add(cnt, 1, __ATOMIC_RELAXED);
                return;
            }
            if (e == h) return;
        }
    }
}
#define INC(f) __atomic_fetch_add(&G->f, 1, __ATOMIC_RELAXED)

// ------------------------------------------------------------------ this execution
struct Choice { int n, v; std::string label; };
static std::vector<Choice> trace;
static std::vector<int> replay;
static size_t replay_pos = 0;
static bool replaying = false; // --replay: no forks at all
static int bound_dev = 1000000, devs = 0, nworkers = 8;
static bool has_token = false;
static std::vector<pid_t> kids;
static std::string notes, output;
static std::map<std::string, std::string> params;
static std::vector<std::string> known_keys;
static std::string crashdir;
static double exec_limit = 20;

static std::string trace_str() {
    std::string s;
    for (auto &c : trace) s += (s.empty() ? "" : ",") + std::to_string(c.v);
    return s;
}
static std::string trace_long() {
    std::string s;
    for (auto &c : trace) s += c.label + "=" + std::to_string(c.v) + "/" + std::to_string(c.n) + " ";
    return s;
}
static void arm() {
    struct itimerval it = {};
    it.it_value.tv_sec = (long)exec_limit;
    it.it_value.tv_usec = (long)((exec_limit - (long)exec_limit) * 1e6);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static void disarm() { struct itimerval it = {}; setitimer(ITIMER_VIRTUAL, &it, nullptr); }

// a crash so bad that the signal handler could not report it (broken heap or stack)
static bool crashed(int st) {
    if (!WIFSIGNALED(st)) return false;
    int s = WTERMSIG(st);
    return s == SIGSEGV || s == SIGBUS || s == SIGFPE || s == SIGILL || s == SIGABRT || s == SIGALRM;
}
static void describe_status(char *m, int st, const char *who) {
    if (crashed(st)) snprintf(m, MSGLEN, "the program destroyed its own memory: killed by signal %d", WTERMSIG(st));
    else snprintf(m, MSGLEN, "INTERNAL: %s process ended with status 0x%x", who, st);
}
static void reap(pid_t p) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
        sem_wait(&G->lock);
        if (G->nviol < MAXVIOL) {
            Viol &v = G->viol[G->nviol];
            describe_status(v.msg, st, "an exploring");
            snprintf(v.trace, TRLEN, "%s", trace_str().c_str());
            G->nviol++;
        }
        G->stop = 1;
        sem_post(&G->lock);
    }
}
static void cleanup_run_dir();
static std::string copy_run_dir();
static void enter_run_dir(const std::string &);
static bool own_rundir = false;
[[noreturn]] static void leave() {
    disarm();
    cleanup_run_dir();
    if (has_token) { sem_post(&G->slots); has_token = false; }
    for (pid_t p : kids) reap(p);
    _exit(0);
}
[[noreturn]] static void leave_counted() {
    INC(executions);
    if (G->nsample < NSAMPLE && !G->stop) {
        sem_wait(&G->lock);
        if (G->nsample < NSAMPLE) {
            Viol &v = G->sample[G->nsample];
            snprintf(v.msg, MSGLEN, "%s", trace_long().c_str());
            snprintf(v.trace, TRLEN, "%s", trace_str().c_str());
            snprintf(v.note, MSGLEN, "%s", notes.c_str());
            G->nsample++;
        }
        sem_post(&G->lock);
    }
    leave();
}
static int stop_after = 1;
[[noreturn]] static void violation(const std::string &msg) {
    // the strings are made before the lock is taken: on a broken heap this may crash
    std::string ts = trace_str(), tl = trace_long();
    std::string o = output.size() > 1200 ? output.substr(output.size() - 1200) : output;
    sem_wait(&G->lock);
    if (G->nviol < MAXVIOL) {
        Viol &v = G->viol[G->nviol];
        snprintf(v.msg, MSGLEN, "%s", msg.c_str());
        snprintf(v.trace, TRLEN, "%s", ts.c_str());
        snprintf(v.note, MSGLEN, "choices: %s\nnotes: %s\noutput tail: %s", tl.c_str(), notes.c_str(), o.c_str());
        G->nviol++;
    }
    if (G->nviol >= stop_after) G->stop = 1;
    sem_post(&G->lock);
    alarm(0);
    INC(executions);
    leave();
}

static int choose(int n, const std::string &label, bool dev) {
    if (n <= 1) return 0;
    if (G->stop && !replaying) leave();
    if (replay_pos < replay.size()) {
        int v = replay[replay_pos++];
        if (v >= n) {
            violation("INTERNAL: replay diverged at choice '" + label + "' (" + std::to_string(v) + " of " + std::to_string(n) + ")");
        }
        trace.push_back({n, v, label});
        if (dev && v) devs++;
        return v;
    }
    if (replaying) { trace.push_back({n, 0, label}); return 0; }
    INC(nodes);
    if (dev && devs >= bound_dev) {
        INC(capped);
        trace.push_back({n, 0, label});
        return 0;
    }
    disarm();
    for (int v = n - 1; v >= 1; v--) {
        if (G->stop) leave();
        INC(transitions);
        bool tok = sem_trywait(&G->slots) == 0;
        std::string kiddir;
        if (own_rundir) kiddir = copy_run_dir();
        pid_t p = fork();
        if (p < 0) { fprintf(stderr, "fork: %s\n", strerror(errno)); violation("INTERNAL: fork failed"); }
        if (p == 0) {
            kids.clear();
            has_token = tok;
            trace.push_back({n, v, label});
            if (dev) devs++;
            if (!kiddir.empty()) enter_run_dir(kiddir);
            arm();
            return v;
        }
        if (tok) kids.push_back(p);
        else reap(p);
    }
    INC(transitions);
    trace.push_back({n, 0, label});
    arm();
    return 0;
}

// ------------------------------------------------------------------ ranks
enum class St { ready, blocked, done };
struct Rank {
    ucontext_t ctx;
    St st = St::ready;
    std::function<bool()> cond;
    std::string what;
    size_t ngc = 0; // global choices seen
    int exitkind = -1, exitcode = 0;
    void *so = nullptr;
    int (*entry)(int, char **) = nullptr;
    std::string cwd;
    void (*sigh[65])(int) = {};
    void (*onexit)(int, int) = nullptr;
    bool in_loop = false;
    std::map<int, size_t> collidx;
    size_t mcbar = 0;
    bool mpi_inited = false, mpi_final = false;
};
static std::vector<Rank *> R;
static ucontext_t mainctx;
static int cur = -1;
static bool percwd = false, sched_dev = false;
static int expect_exit = 0;
static std::vector<int> gchoices;
static std::vector<std::string> gch_labels;
static std::vector<char *> args;
static double vclock = 1000.0;
static int send_buffered = 0, red_order = 0, test_dev = 0;
static ulong64 spins = 0;

static void to_main() {
    INC(switches);
    int me = cur;
    if (percwd) { char b[4096]; if (getcwd(b, sizeof b)) R[me]->cwd = b; }
    swapcontext(&R[me]->ctx, &mainctx);
    if (percwd && !R[me]->cwd.empty()) { if (chdir(R[me]->cwd.c_str())) {} }
}
static void block_until(std::function<bool()> c, const std::string &what) {
    if (c()) return;
    Rank *r = R[cur];
    r->cond = c;
    r->what = what;
    r->st = St::blocked;
    to_main();
}
static void yield_rank() { to_main(); }

static void rank_end(int kind, int code) {
    Rank *r = R[cur];
    r->exitkind = kind;
    r->exitcode = code;
    if (r->onexit && kind != 0) r->onexit(kind, code);
    r->st = St::done;
    INC(exits);
    for (;;) to_main();
}
static void fiber_main() {
    Rank *r = R[cur];
    try {
        r->entry((int)args.size() - 1, args.data());
        rank_end(0, 0);
    } catch (std::exception &e) {
        violation(std::string("uncaught exception on rank ") + std::to_string(cur) + ": " + e.what());
    } catch (...) {
        violation("uncaught exception");
    }
}

static void run_ranks() {
    int last = (int)R.size() - 1;
    for (;;) {
        std::vector<int> en;
        bool alldone = true;
        for (int k = 1; k <= (int)R.size(); k++) {
            int i = (last + k) % R.size();
            Rank *r = R[i];
            if (r->st == St::done) continue;
            alldone = false;
            if (r->st == St::ready || r->cond()) en.push_back(i);
        }
        if (alldone) return;
        if (en.empty()) {
            std::string s = "deadlock:";
            bool someexit = false;
            for (size_t i = 0; i < R.size(); i++) {
                Rank *r = R[i];
                s += " rank" + std::to_string(i) + ": " +
                     (r->st == St::done ? (r->exitkind ? "exited(" + std::to_string(r->exitcode) + ")" : "returned") : r->what) + ";";
                if (r->st == St::done && r->exitkind > 0) someexit = true;
            }
            // a rank that ended by exit()/abort()/assert kills the job (mpirun does): not a deadlock of its own
            if (someexit && !mc_param("allexit", 0)) return;
            violation(s);
        }
        int pick = 0;
        if (sched_dev && en.size() > 1) pick = choose((int)en.size(), "sched", true);
        cur = last = en[pick];
        R[cur]->st = St::ready;
        swapcontext(&mainctx, &R[cur]->ctx);
    }
}

// ------------------------------------------------------------------ message passing
struct TypeInfo { size_t size; };
static std::vector<TypeInfo> utypes;
static std::vector<MPI_User_function *> uops;
static size_t tsize(MPI_Datatype t) {
    switch (t) {
    case MPI_BYTE: case MPI_CHAR: case MPI_C_BOOL: case MPI_UNSIGNED_CHAR: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2;
    case MPI_INT: case MPI_FLOAT: case MPI_UNSIGNED: return 4;
    case MPI_LONG: case MPI_DOUBLE: case MPI_UNSIGNED_LONG: case MPI_INT64_T: case MPI_UINT64_T: case MPI_LONG_LONG: return 8;
    case MPI_LONG_DOUBLE: return 16;
    case MPI_C_COMPLEX: case MPI_C_FLOAT_COMPLEX: return 8;
    case MPI_C_DOUBLE_COMPLEX: return 16;
    case MPI_C_LONG_DOUBLE_COMPLEX: return 32;
    case MPI_2INT: case MPI_FLOAT_INT: return 8;
    case MPI_LONG_INT: case MPI_DOUBLE_INT: return 16;
    case MPI_LONG_DOUBLE_INT: return 32;
    case MPI_SHORT_INT: return 8;
    }
    size_t u = t - MC_MPI_FIRST_USER_TYPE;
    if (u < utypes.size()) return utypes[u].size;
    violation("MPI error: unknown datatype");
}
template <typename T> static void red1(T *io, const T *in, int n, MPI_Op op) {
    for (int i = 0; i < n; i++) switch (op) {
        case MPI_SUM: io[i] = io[i] + in[i]; break;
        case MPI_PROD: io[i] = io[i] * in[i]; break;
        default: violation("MPI error: operation not defined for datatype");
        }
}
template <typename T> static void red2(T *io, const T *in, int n, MPI_Op op) {
    for (int i = 0; i < n; i++) switch (op) {
        case MPI_MAX: if (in[i] > io[i]) io[i] = in[i]; break;
        case MPI_MIN: if (in[i] < io[i]) io[i] = in[i]; break;
        default: red1(io + i, in + i, 1, op);
        }
}
template <typename T> static void redint(T *io, const T *in, int n, MPI_Op op) {
    for (int i = 0; i < n; i++) switch (op) {
        case MPI_LAND: io[i] = io[i] && in[i]; break;
        case MPI_LOR: io[i] = io[i] || in[i]; break;
        case MPI_BAND: io[i] &= in[i]; break;
        case MPI_BOR: io[i] |= in[i]; break;
        default: red2(io + i, in + i, 1, op);
        }
}
template <typename T> struct VL { T v; int l; };
template <typename T> static void redloc(VL<T> *io, const VL<T> *in, int n, MPI_Op op) {
    for (int i = 0; i < n; i++) {
        bool better = op == MPI_MAXLOC ? in[i].v > io[i].v : in[i].v < io[i].v;
        if (better) io[i] = in[i];
        else if (in[i].v == io[i].v && in[i].l < io[i].l) io[i].l = in[i].l;
    }
}
static void reduce_apply(void *io, void *in, int n, MPI_Datatype t, MPI_Op op) {
    if (op >= MC_MPI_FIRST_USER_OP) {
        uops.at(op - MC_MPI_FIRST_USER_OP)(in, io, &n, &t);
        return;
    }
#define C(T) ((T *)io), ((const T *)in), n, op
    if (op == MPI_MAXLOC || op == MPI_MINLOC) {
        switch (t) {
        case MPI_2INT: return redloc(C(VL<int>));
        case MPI_FLOAT_INT: return redloc(C(VL<float>));
        case MPI_DOUBLE_INT: return redloc(C(VL<double>));
        case MPI_LONG_INT: return redloc(C(VL<long>));
        case MPI_LONG_DOUBLE_INT: return redloc(C(VL<long double>));
        }
        violation("MPI error: MAXLOC/MINLOC datatype");
    }
    switch (t) {
    case MPI_C_BOOL: return redint(C(bool));
    case MPI_CHAR: return redint(C(char));
    case MPI_UNSIGNED_CHAR: return redint(C(unsigned char));
    case MPI_SHORT: return redint(C(short));
    case MPI_UNSIGNED_SHORT: return redint(C(unsigned short));
    case MPI_INT: return redint(C(int));
    case MPI_UNSIGNED: return redint(C(unsigned));
    case MPI_LONG: case MPI_INT64_T: case MPI_LONG_LONG: return redint(C(long));
    case MPI_UNSIGNED_LONG: case MPI_UINT64_T: return redint(C(unsigned long));
    case MPI_FLOAT: return red2(C(float));
    case MPI_DOUBLE: return red2(C(double));
    case MPI_LONG_DOUBLE: return red2(C(long double));
    case MPI_C_COMPLEX: case MPI_C_FLOAT_COMPLEX: return red1(C(std::complex<float>));
    case MPI_C_DOUBLE_COMPLEX: return red1(C(std::complex<double>));
    }
    violation("MPI error: reduction of datatype " + std::to_string(t));
}

struct CollArg { bool in = false, out = false; int kind = 0, count = 0, root = 0, color = 0, key = 0; MPI_Datatype t = 0; MPI_Op op = 0; void *rbuf = nullptr; const void *sbuf = nullptr; std::vector<char> data; };
struct Coll { std::vector<CollArg> a; int arrived = 0, left = 0; int kind = -1; std::vector<int> newcomm; };
struct Comm { std::vector<int> members; std::deque<Coll> colls; size_t base = 0; };
static std::vector<Comm *> comms;
enum { K_BARRIER = 1, K_BCAST, K_REDUCE, K_ALLREDUCE, K_SPLIT, K_DUP, K_ALLGATHER, K_GATHER };
static const char *kname[] = {"", "Barrier", "Bcast", "Reduce", "Allreduce", "Comm_split", "Comm_dup", "Allgather", "Gather"};

struct Req {
    int kind = 0; // 1 send 2 recv 3 collective
    int owner = 0, comm = 0, peer = 0, tag = 0;
    void *buf = nullptr;
    size_t n = 0;
    std::vector<char> snap;
    Req *match = nullptr;
    bool complete = false, freed = false, cancelled = false, buffered = false;
    size_t collno = 0;
    int id = 0, msrc = 0, mtag = 0;
    size_t mlen = 0;
    const void *csbuf = nullptr; size_t csn = 0;
};
static std::vector<Req *> reqs;
static std::deque<Req *> unm_send, unm_recv;
static const unsigned char POISON = 0xFF;
static std::multimap<char *, Req *> pending_recv_bufs;

static Comm *C_(MPI_Comm c) {
    if (c < 0 || c >= (int)comms.size() || !comms[c]) violation("MPI error: invalid communicator");
    return comms[c];
}
static int myidx(Comm *c) {
    for (size_t i = 0; i < c->members.size(); i++) if (c->members[i] == cur) return (int)i;
    violation("MPI error: rank is not a member of the communicator");
}
static Req *newreq(int kind) {
    Req *q = new Req;
    q->kind = kind;
    q->owner = cur;
    q->id = (int)reqs.size();
    reqs.push_back(q);
    return q;
}
static void mpicheck(const char *fn) {
    if (cur < 0) violation(std::string("MPI call outside a rank: ") + fn);
    if (R[cur]->mpi_final) violation(std::string("MPI error: ") + fn + " called after MPI_Finalize on rank " + std::to_string(cur));
}
static void try_match_send(Req *s) {
    for (auto it = unm_recv.begin(); it != unm_recv.end(); ++it) {
        Req *r = *it;
        if (r->comm == s->comm && r->owner == C_(s->comm)->members[s->peer] &&
            (r->peer == MPI_ANY_SOURCE || C_(s->comm)->members[r->peer] == s->owner) && (r->tag == MPI_ANY_TAG || r->tag == s->tag)) {
            r->match = s; s->match = r;
            unm_recv.erase(it);
            return;
        }
    }
    unm_send.push_back(s);
}
static void try_match_recv(Req *r) {
    for (auto it = unm_send.begin(); it != unm_send.end(); ++it) {
        Req *s = *it;
        if (r->comm == s->comm && r->owner == C_(s->comm)->members[s->peer] &&
            (r->peer == MPI_ANY_SOURCE || C_(s->comm)->members[r->peer] == s->owner) && (r->tag == MPI_ANY_TAG || r->tag == s->tag)) {
            r->match = s; s->match = r;
            unm_send.erase(it);
            return;
        }
    }
    unm_recv.push_back(r);
}
static Req *post_send(const void *buf, size_t n, int dest, int tag, MPI_Comm comm) {
    Comm *c = C_(comm);
    if (dest < 0 || dest >= (int)c->members.size()) violation("MPI error: send to invalid rank " + std::to_string(dest));
    Req *q = newreq(1);
    q->comm = comm; q->peer = dest; q->tag = tag; q->buf = (void *)buf; q->n = n;
    q->snap.assign((const char *)buf, (const char *)buf + n);
    q->buffered = send_buffered;
    INC(messages);
    try_match_send(q);
    return q;
}
static Req *post_recv(void *buf, size_t n, int src, int tag, MPI_Comm comm) {
    Comm *c = C_(comm);
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)c->members.size())) violation("MPI error: receive from invalid rank " + std::to_string(src));
    Req *q = newreq(2);
    q->comm = comm; q->peer = src; q->tag = tag; q->buf = buf; q->n = n;
    memset(buf, POISON, n);
    if (n) pending_recv_bufs.emplace((char *)buf, q);
    try_match_recv(q);
    return q;
}
static void drop_pending(Req *q) {
    auto rg = pending_recv_bufs.equal_range((char *)q->buf);
    for (auto it = rg.first; it != rg.second; ++it) if (it->second == q) { pending_recv_bufs.erase(it); return; }
}
static bool coll_ready(Comm *c, size_t no) { return c->colls.at(no - c->base).arrived == (int)c->members.size(); }
static bool ready(Req *q) {
    if (q->complete) return true;
    if (q->cancelled) return true;
    if (q->kind == 1) return q->buffered || q->match;
    if (q->kind == 2) return q->match != nullptr;
    return coll_ready(C_(q->comm), q->collno);
}
static void coll_finish(MPI_Comm comm, size_t no, bool poisoned);
static std::string descr(Req *q) {
    std::ostringstream s;
    if (q->kind == 3) s << "collective #" << q->collno << " on comm " << q->comm;
    else s << (q->kind == 1 ? "send to " : "recv from ") << q->peer << " tag " << q->tag << " bytes " << q->n << " comm " << q->comm;
    return s.str();
}
static void finish(Req *q) {
    if (q->complete) return;
    q->complete = true;
    if (q->kind == 1) {
        if (q->n && memcmp(q->snap.data(), q->buf, q->n) != 0)
            violation("send buffer modified while the message was in flight (rank " + std::to_string(q->owner) + ", " + descr(q) + ")");
    } else if (q->kind == 2) {
        drop_pending(q);
        if (q->cancelled && !q->match) { auto it = std::find(unm_recv.begin(), unm_recv.end(), q); if (it != unm_recv.end()) unm_recv.erase(it); return; }
        for (size_t i = 0; i < q->n; i++)
            if (((unsigned char *)q->buf)[i] != POISON)
                violation("receive buffer written by the program while the receive was pending (rank " + std::to_string(q->owner) + ", " + descr(q) + ")");
        Req *s = q->match;
        if (s->n > q->n) violation("MPI error: message truncated: " + descr(q) + " got " + std::to_string(s->n) + " bytes");
        if (s->n) memcpy(q->buf, s->snap.data(), s->n);
        q->msrc = 0;
        Comm *c = C_(q->comm);
        for (size_t i = 0; i < c->members.size(); i++) if (c->members[i] == s->owner) q->msrc = (int)i;
        q->mtag = s->tag;
        q->mlen = s->n;
    } else {
        coll_finish(q->comm, q->collno, true);
    }
}
static void setstatus(Req *q, MPI_Status *st) {
    if (!st) return;
    st->MPI_SOURCE = q->msrc; st->MPI_TAG = q->mtag; st->MPI_ERROR = 0; st->_ucount = q->mlen; st->_cancelled = q->cancelled && !q->match;
}
static Req *Q_(MPI_Request r) {
    if (r < 0 || r >= (int)reqs.size()) violation("MPI error: invalid request handle");
    if (reqs[r]->owner != cur) violation("MPI error: request of another rank");
    if (reqs[r]->freed) violation("MPI error: request used after it was completed or freed");
    return reqs[r];
}

static size_t coll_enter(int kind, MPI_Comm comm, const void *sbuf, void *rbuf, int count, MPI_Datatype t, MPI_Op op, int root, bool nonblocking, int color = 0, int key = 0) {
    Comm *c = C_(comm);
    int me = myidx(c);
    size_t no = R[cur]->collidx[comm]++;
    while (c->base + c->colls.size() <= no) { c->colls.emplace_back(); c->colls.back().a.resize(c->members.size()); }
    Coll &k = c->colls[no - c->base];
    CollArg &a = k.a[me];
    a.in = true; a.kind = kind; a.count = count; a.t = t; a.op = op; a.root = root; a.rbuf = rbuf; a.sbuf = sbuf; a.color = color; a.key = key;
    size_t n = (size_t)count * ((kind == K_BARRIER || kind == K_SPLIT || kind == K_DUP) ? 0 : tsize(t));
    if (count < 0) violation("MPI error: negative count in collective");
    for (auto &o : k.a) if (o.in && &o != &a) {
        bool same = o.kind == kind && o.root == root && o.op == op &&
                    (size_t)o.count * (n || o.count ? (o.kind == K_BARRIER ? 0 : tsize(o.t)) : 0) == n;
        if (kind == K_REDUCE || kind == K_ALLREDUCE) same = same && o.t == t && o.count == count;
        if (!same) {
            std::ostringstream s;
            s << "collective mismatch on communicator " << comm << ", operation #" << no << ": rank " << cur << " calls " << kname[kind] << "(count " << count << ", type " << t << ", op " << op << ", root " << root
              << ") where another rank called " << kname[o.kind] << "(count " << o.count << ", type " << o.t << ", op " << o.op << ", root " << o.root << ")";
            violation(s.str());
        }
    }
    if (root < 0 || root >= (int)c->members.size()) violation("MPI error: invalid root");
    bool inplace = sbuf == MPI_IN_PLACE;
    const void *src = inplace ? rbuf : sbuf;
    if (kind == K_BCAST) src = me == root ? rbuf : nullptr;
    if (src && n) a.data.assign((const char *)src, (const char *)src + n);
    if (nonblocking && rbuf && n && (kind == K_ALLREDUCE || (kind == K_REDUCE && me == root))) {
        memset(rbuf, POISON, n);
        a.out = true;
    }
    k.arrived++;
    return no;
}
static void coll_finish(MPI_Comm comm, size_t no, bool) {
    Comm *c = C_(comm);
    Coll &k = c->colls[no - c->base];
    int me = myidx(c);
    CollArg &a = k.a[me];
    size_t n = a.data.size();
    switch (a.kind) {
    case K_BCAST: {
        auto &d = k.a[a.root].data;
        if (me == a.root) break;
        if (d.size()) memcpy(a.rbuf, d.data(), d.size());
        break;
    }
    case K_ALLREDUCE: case K_REDUCE: {
        if (a.kind == K_REDUCE && me != a.root) break;
        if (a.out) for (size_t i = 0; i < n; i++) if (((unsigned char *)a.rbuf)[i] != POISON) violation("buffer of a non-blocking reduction was written while the operation was pending");
        int P = (int)c->members.size();
        std::vector<int> ord;
        for (int i = 0; i < P; i++) ord.push_back(red_order ? P - 1 - i : i);
        std::vector<char> acc = k.a[ord[0]].data;
        for (int i = 1; i < P; i++) { std::vector<char> in = k.a[ord[i]].data; reduce_apply(acc.data(), in.data(), a.count, a.t, a.op); }
        if (n) memcpy(a.rbuf, acc.data(), n);
        break;
    }
    case K_ALLGATHER: case K_GATHER:
        if (a.kind == K_GATHER && me != a.root) break;
        for (size_t i = 0; i < k.a.size(); i++) if (n) memcpy((char *)a.rbuf + i * n, k.a[i].data.data(), n);
        break;
    default: break;
    }
    k.left++;
    while (!c->colls.empty() && c->colls.front().left == (int)c->members.size()) { c->colls.pop_front(); c->base++; }
}
static int coll_block(int kind, const char *name, MPI_Comm comm, const void *sbuf, void *rbuf, int count, MPI_Datatype t, MPI_Op op, int root) {
    mpicheck(name);
    size_t no = coll_enter(kind, comm, sbuf, rbuf, count, t, op, root, false);
    Comm *c = C_(comm);
    block_until([=] { return coll_ready(c, no); }, std::string(name) + " #" + std::to_string(no) + " comm " + std::to_string(comm));
    coll_finish(comm, no, false);
    return MPI_SUCCESS;
}

extern "C" {
int MPI_Init(int *, char ***) { R[cur]->mpi_inited = true; return 0; }
int MPI_Init_thread(int *, char ***, int l, int *p) { R[cur]->mpi_inited = true; *p = l; return 0; }
int MPI_Initialized(int *f) { *f = R[cur]->mpi_inited; return 0; }
int MPI_Finalize(void) {
    mpicheck("MPI_Finalize");
    coll_block(K_BARRIER, "MPI_Finalize", MPI_COMM_WORLD, nullptr, nullptr, 0, MPI_BYTE, MPI_SUM, 0);
    R[cur]->mpi_final = true;
    return 0;
}
int MPI_Abort(MPI_Comm, int code) { rank_end(2, code); return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = myidx(C_(c)); return 0; }
int MPI_Comm_size(MPI_Comm c, int *s) { *s = (int)C_(c)->members.size(); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c; }
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm *out) {
    mpicheck("MPI_Comm_split");
    size_t no = coll_enter(K_SPLIT, comm, nullptr, nullptr, 0, MPI_BYTE, MPI_SUM, 0, false, color, key);
    Comm *c = C_(comm);
    block_until([=] { return coll_ready(c, no); }, "MPI_Comm_split");
    Coll &k = c->colls[no - c->base];
    if (k.newcomm.empty()) {
        k.newcomm.assign(c->members.size(), -1);
        std::map<int, std::vector<std::pair<int, int>>> g;
        for (size_t i = 0; i < k.a.size(); i++) if (k.a[i].color >= 0) g[k.a[i].color].push_back({k.a[i].key, (int)i});
        for (auto &x : g) {
            std::stable_sort(x.second.begin(), x.second.end());
            Comm *n = new Comm;
            for (auto &m : x.second) { n->members.push_back(c->members[m.second]); k.newcomm[m.second] = (int)comms.size(); }
            comms.push_back(n);
        }
    }
    *out = k.newcomm[myidx(c)];
    coll_finish(comm, no, false);
    return 0;
}
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *out) { return MPI_Comm_split(comm, 0, 0, out); }
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { return coll_block(K_BCAST, "MPI_Bcast", c, nullptr, b, n, t, MPI_SUM, root); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return coll_block(K_REDUCE, "MPI_Reduce", c, s, r, n, t, op, root); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return coll_block(K_ALLREDUCE, "MPI_Allreduce", c, s, r, n, t, op, 0); }
int MPI_Barrier(MPI_Comm c) { return coll_block(K_BARRIER, "MPI_Barrier", c, nullptr, nullptr, 0, MPI_BYTE, MPI_SUM, 0); }
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int, MPI_Datatype, MPI_Comm c) { return coll_block(K_ALLGATHER, "MPI_Allgather", c, s, r, n, t, MPI_SUM, 0); }
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int, MPI_Datatype, int root, MPI_Comm c) { return coll_block(K_GATHER, "MPI_Gather", c, s, r, n, t, MPI_SUM, root); }
static int icoll(int kind, const char *name, const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request *out) {
    mpicheck(name);
    size_t no = coll_enter(kind, c, s, r, n, t, op, root, true);
    Req *q = newreq(3);
    q->comm = c;
    q->collno = no;
    *out = q->id;
    return 0;
}
int MPI_Ireduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request *q) { return icoll(K_REDUCE, "MPI_Ireduce", s, r, n, t, op, root, c, q); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *q) { return icoll(K_ALLREDUCE, "MPI_Iallreduce", s, r, n, t, op, 0, c, q); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *q) { return icoll(K_BARRIER, "MPI_Ibarrier", nullptr, nullptr, 0, MPI_BYTE, MPI_SUM, 0, c, q); }

int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) {
    mpicheck("MPI_Isend");
    if (n < 0) violation("MPI error: negative count");
    *q = post_send(b, (size_t)n * tsize(t), d, tag, c)->id;
    return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) {
    mpicheck("MPI_Irecv");
    if (n < 0) violation("MPI error: negative count");
    *q = post_recv(b, (size_t)n * tsize(t), s, tag, c)->id;
    return 0;
}
int MPI_Wait(MPI_Request *r, MPI_Status *st) {
    mpicheck("MPI_Wait");
    if (*r == MPI_REQUEST_NULL) return 0;
    Req *q = Q_(*r);
    block_until([=] { return ready(q); }, "MPI_Wait(" + descr(q) + ")");
    finish(q);
    setstatus(q, st);
    q->freed = true;
    *r = MPI_REQUEST_NULL;
    return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) {
    for (int i = 0; i < n; i++) MPI_Wait(&r[i], st ? &st[i] : nullptr);
    return 0;
}
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st) {
    mpicheck("MPI_Waitany");
    std::vector<int> live;
    for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) live.push_back(i);
    if (live.empty()) { *idx = -32766; return 0; }
    block_until([=] { for (int i : live) if (ready(reqs[r[i]])) return true; return false; }, "MPI_Waitany");
    std::vector<int> rd;
    for (int i : live) if (ready(Q_(r[i]))) rd.push_back(i);
    int k = rd[choose((int)rd.size(), "waitany", true)];
    *idx = k;
    return MPI_Wait(&r[k], st);
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st) {
    mpicheck("MPI_Test");
    if (*r == MPI_REQUEST_NULL) { *flag = 1; return 0; }
    Req *q = Q_(*r);
    if (!ready(q)) {
        if (++spins > 200000) violation("livelock: a rank polls MPI_Test for a message that no rank will send: " + descr(q));
        yield_rank();
    }
    if (!ready(q) || (test_dev && choose(2, "test_not_yet", true))) { *flag = 0; return 0; }
    *flag = 1;
    return MPI_Wait(r, st);
}
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *st) {
    mpicheck("MPI_Testall");
    for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !ready(Q_(r[i]))) {
        if (++spins > 200000) violation("livelock in MPI_Testall");
        yield_rank(); *flag = 0; return 0; }
    *flag = 1;
    return MPI_Waitall(n, r, st);
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
    MPI_Request r;
    MPI_Isend(b, n, t, d, tag, c, &r);
    return MPI_Wait(&r, nullptr);
}
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
    MPI_Request r;
    MPI_Isend(b, n, t, d, tag, c, &r);
    reqs[r]->buffered = false;
    return MPI_Wait(&r, nullptr);
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) {
    MPI_Request r;
    MPI_Irecv(b, n, t, s, tag, c, &r);
    return MPI_Wait(&r, st);
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stt, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st) {
    MPI_Request a, b;
    MPI_Irecv(rb, rn, rt, s, rtag, c, &a);
    MPI_Isend(sb, sn, stt, d, stag, c, &b);
    MPI_Wait(&b, nullptr);
    return MPI_Wait(&a, st);
}
int MPI_Cancel(MPI_Request *r) { Q_(*r)->cancelled = true; return 0; }
int MPI_Test_cancelled(const MPI_Status *st, int *f) { *f = st->_cancelled; return 0; }
int MPI_Request_free(MPI_Request *r) { Req *q = Q_(*r); if (q->kind == 2) drop_pending(q); q->freed = true; *r = MPI_REQUEST_NULL; return 0; }
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { *n = (int)(st->_ucount / tsize(t)); return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *d, const MPI_Datatype *t, MPI_Datatype *out) {
    size_t s = 0;
    for (int i = 0; i < n; i++) s = std::max(s, (size_t)d[i] + bl[i] * tsize(t[i]));
    utypes.push_back({(s + 7) / 8 * 8});
    *out = MC_MPI_FIRST_USER_TYPE; // all ranks create the same type; handles must agree between ranks
    for (size_t i = 0; i < utypes.size(); i++) if (utypes[i].size == utypes.back().size) { *out = MC_MPI_FIRST_USER_TYPE + (int)i; break; }
    return 0;
}
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *out) {
    int one = n; MPI_Aint z = 0;
    return MPI_Type_create_struct(1, &one, &z, &t, out);
}
int MPI_Type_commit(MPI_Datatype *) { return 0; }
int MPI_Type_free(MPI_Datatype *) { return 0; }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int)tsize(t); return 0; }
static std::map<int, int> nops;
int MPI_Op_create(MPI_User_function *f, int, MPI_Op *op) {
    int k = nops[cur]++; // k-th op created by each rank
    if ((int)uops.size() <= k) uops.push_back(f);
    *op = MC_MPI_FIRST_USER_OP + k;
    return 0;
}
int MPI_Op_free(MPI_Op *) { return 0; }
double MPI_Wtime(void) { return vclock += 1e-6; }
} // extern C

// ------------------------------------------------------------------ functions of the C library seen by the program
EXPORT void __wrap_exit(int code) {
    if (expect_exit == 0) violation("the program ended by exit(" + std::to_string(code) + ") on rank " + std::to_string(cur));
    rank_end(1, code);
    __builtin_unreachable();
}
EXPORT void __wrap_abort(void) {
    if (expect_exit == 0) violation("the program called abort() on rank " + std::to_string(cur));
    rank_end(3, 0);
    __builtin_unreachable();
}
EXPORT void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *) {
    if (expect_exit == 0) violation(std::string("assertion failed: ") + e + " at " + f + ":" + std::to_string(l) + " on rank " + std::to_string(cur));
    notes += std::string("[assert ") + e + "]";
    rank_end(4, 0);
    __builtin_unreachable();
}
EXPORT void __wrap_free(void *p) {
    if (p && !pending_recv_bufs.empty()) {
        size_t sz = malloc_usable_size(p);
        auto it = pending_recv_bufs.lower_bound((char *)p);
        if (it != pending_recv_bufs.end() && it->first < (char *)p + sz)
            violation("memory freed on rank " + std::to_string(cur) + " while a receive into it is pending: " + descr(it->second));
    }
    free(p);
}
EXPORT int __wrap_clock_gettime(clockid_t, struct timespec *ts) {
    vclock += 1e-6;
    ts->tv_sec = (time_t)vclock;
    ts->tv_nsec = (long)((vclock - (time_t)vclock) * 1e9);
    return 0;
}
typedef void (*sigh_t)(int);
EXPORT sigh_t __wrap_signal(int s, sigh_t h) {
    sigh_t o = cur >= 0 ? R[cur]->sigh[s] : nullptr;
    if (cur >= 0) R[cur]->sigh[s] = h;
    return o;
}
EXPORT void mc_raise(int s) { if (R[cur]->sigh[s]) R[cur]->sigh[s](s); }

// ------------------------------------------------------------------ harness interface
EXPORT int mc_choose(int n, const char *l) { return choose(n, l, false); }
EXPORT int mc_choose_dev(int n, const char *l) { return choose(n, l, true); }
static int gch(int n, const char *l, bool dev) {
    Rank *r = R[cur];
    if (r->ngc == gchoices.size()) { gchoices.push_back(choose(n, l, dev)); gch_labels.push_back(l); }
    if (gch_labels[r->ngc] != l) violation("INTERNAL: ranks disagree on the global choice '" + gch_labels[r->ngc] + "' / '" + l + "'");
    return gchoices[r->ngc++];
}
EXPORT int mc_global_choose(int n, const char *l) { return gch(n, l, false); }
EXPORT int mc_global_choose_dev(int n, const char *l) { return gch(n, l, true); }
EXPORT void mc_fail(const char *f, ...) {
    char b[MSGLEN];
    va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    violation(std::string(b) + " [rank " + std::to_string(cur) + " of " + std::to_string(R.size()) + "]");
}
EXPORT void mc_skip(void) { INC(pruned); leave(); }
EXPORT void mc_state(unsigned long h) { addset(G->st, &G->states, h); }
EXPORT void mc_outcome(unsigned long h) { addset(G->oc, &G->outcomes, h); }
static ulong64 my_compared = 0, seen_compared = 0;
EXPORT void mc_compared(long n) { my_compared++; __atomic_fetch_add(&G->compared, (ulong64)n, __ATOMIC_RELAXED); }
EXPORT void mc_note(const char *f, ...) {
    char b[MSGLEN];
    va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    if (notes.size() < 2500) { notes += b; notes += ' '; }
}
EXPORT int mc_rank(void) { return cur; }
EXPORT int mc_nranks(void) { return (int)R.size(); }
EXPORT long mc_param(const char *n, long d) { auto i = params.find(n); return i == params.end() ? d : strtol(i->second.c_str(), nullptr, 0); }
EXPORT const char *mc_sparam(const char *n, const char *d) { auto i = params.find(n); return i == params.end() ? d : i->second.c_str(); }
EXPORT void mc_barrier(void) {
    size_t me = ++R[cur]->mcbar;
    block_until([=] { for (Rank *r : R) if (r->mcbar < me) return false; return true; }, "mc_barrier");
}
static std::map<size_t, void *> shm_blocks;
static std::map<int, size_t> shm_idx;
EXPORT void *mc_shared(unsigned long b) {
    size_t k = shm_idx[cur]++;
    if (!shm_blocks.count(k)) shm_blocks[k] = calloc(1, b);
    return shm_blocks[k];
}
EXPORT void mc_expect_exit(int m) { expect_exit = m; }
EXPORT const char *mc_output(void) { return output.c_str(); }
EXPORT void mc_clear_output(void) { output.clear(); }
EXPORT void mc_on_exit(void (*f)(int, int)) { R[cur]->onexit = f; }
EXPORT void mc_clock_set(double t) { vclock = t; }
EXPORT int mc_is_known(const char *k) { for (auto &s : known_keys) if (s == k) return 1; return 0; }
EXPORT void mc_known(const char *k) {
    if (!mc_is_known(k)) violation(std::string("finding: ") + k);
    sem_wait(&G->lock);
    bool have = false;
    for (int i = 0; i < G->nknown; i++) if (!strcmp(G->known[i], k)) have = true;
    if (!have && G->nknown < 64) snprintf(G->known[G->nknown++], 400, "%s", k);
    sem_post(&G->lock);
}
static void *persist;
EXPORT void *mc_persist(void) { return persist; }
EXPORT const char *mc_rundir(void) { return crashdir.c_str(); }

// ------------------------------------------------------------------ crash points: file operations of the program
// The operations are performed for real in a scratch directory; "crash" ends the process just before operation number crash_at,
// or in the middle of a write (torn).
static long crash_at = -1, nfileops = 0;
static int crash_torn = 0;
static bool track_files = false;
static std::vector<std::string> fileops;
[[noreturn]] static void crash_now() { disarm(); _exit(77); }
static void fileop(const std::string &d) {
    if (!track_files) return;
    if (nfileops == crash_at && crash_torn != 3) crash_now();
    nfileops++;
    fileops.push_back(d);
    if (fileops.size() < 200 && crash_at < 0) {}
}
typedef ssize_t (*write_t)(int, const void *, size_t);
typedef ssize_t (*writev_t)(int, const struct iovec *, int);
#include <sys/uio.h>
static std::set<int> myfds;
static bool tracked_fd(int fd) {
    if (!track_files || cur < 0 || fd <= 2) return false;
    char l[64], b[4096];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    if (n <= 0) return false;
    b[n] = 0;
    return !crashdir.empty() && strncmp(b, crashdir.c_str(), crashdir.size()) == 0;
}
// crash_torn 3: no crash, but the disk is full from operation crash_at on: the first write stores a part, all later ones fail
static bool disk_full(size_t n) {
    if (crash_torn != 3 || crash_at < 0 || nfileops < crash_at) return false;
    fileop("write to full disk " + std::to_string(n));
    return true;
}
static long disk_left = -1;     // >= 0: this many bytes can still be written into the run directory
EXPORT void mc_disk_space(long n) { disk_left = n; track_files = true; }
EXPORT ssize_t write(int fd, const void *p, size_t n) {
    static write_t real = (write_t)dlsym(RTLD_NEXT, "write");
    if (!tracked_fd(fd)) return real(fd, p, n);
    if (disk_left >= 0) {
        size_t m = std::min((long)n, disk_left);
        disk_left -= m;
        if (m == 0 && n > 0) { errno = ENOSPC; return -1; }
        return real(fd, p, m);
    }
    if (disk_full(n)) { size_t m = nfileops == crash_at + 1 ? n / 2 : 0; if (m) real(fd, p, m); errno = ENOSPC; return m ? (ssize_t)m : -1; }
    if (nfileops == crash_at && crash_torn) { size_t m = crash_torn == 1 ? n / 2 : (n > 0 ? n - 1 : 0); if (m) real(fd, p, m); crash_now(); }
    fileop("write " + std::to_string(n));
    return real(fd, p, n);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
    static writev_t real = (writev_t)dlsym(RTLD_NEXT, "writev");
    if (!tracked_fd(fd)) return real(fd, v, c);
    if (disk_left >= 0) {
        static write_t w = (write_t)dlsym(RTLD_NEXT, "write");
        size_t done = 0;
        for (int i = 0; i < c; i++) {
            size_t m = std::min((long)v[i].iov_len, disk_left);
            if (m && w(fd, v[i].iov_base, m) != (ssize_t)m) break;
            disk_left -= m; done += m;
            if (m < v[i].iov_len) break;
        }
        if (done == 0) { errno = ENOSPC; return -1; }
        return done;
    }
    if (disk_full(1)) { errno = ENOSPC; return -1; }
    if (nfileops == crash_at && crash_torn) {
        static write_t w = (write_t)dlsym(RTLD_NEXT, "write");
        size_t tot = 0; for (int i = 0; i < c; i++) tot += v[i].iov_len;
        size_t m = crash_torn == 1 ? tot / 2 : (tot ? tot - 1 : 0);
        for (int i = 0; i < c && m; i++) { size_t k = std::min(m, v[i].iov_len); if (k) w(fd, v[i].iov_base, k); m -= k; }
        crash_now();
    }
    fileop("writev");
    return real(fd, v, c);
}
EXPORT int rename(const char *a, const char *b) {
    typedef int (*fn)(const char *, const char *);
    static fn real = (fn)dlsym(RTLD_NEXT, "rename");
    if (cur >= 0) fileop(std::string("rename ") + a + " " + b);
    return real(a, b);
}
EXPORT int unlink(const char *a) {
    typedef int (*fn)(const char *);
    static fn real = (fn)dlsym(RTLD_NEXT, "unlink");
    if (cur >= 0) fileop(std::string("unlink ") + a);
    return real(a);
}
EXPORT int remove(const char *a) {
    typedef int (*fn)(const char *);
    static fn real = (fn)dlsym(RTLD_NEXT, "remove");
    if (cur >= 0) fileop(std::string("remove ") + a);
    return real(a);
}
EXPORT FILE *fopen64(const char *p, const char *m) {
    typedef FILE *(*fn)(const char *, const char *);
    static fn real = (fn)dlsym(RTLD_NEXT, "fopen64");
    if (cur >= 0 && m && (m[0] == 'w')) fileop(std::string("open-truncate ") + p);
    return real(p, m);
}
EXPORT FILE *fopen(const char *p, const char *m) {
    typedef FILE *(*fn)(const char *, const char *);
    static fn real = (fn)dlsym(RTLD_NEXT, "fopen");
    if (cur >= 0 && m && (m[0] == 'w')) fileop(std::string("open-truncate ") + p);
    return real(p, m);
}

// ------------------------------------------------------------------ OpenMP teams (for programs compiled with -fopenmp, linked without libgomp)
// A team of T virtual threads; between synchronisation points each runs to completion, in every order that is explored.
#include "mcomp.inc"

// ------------------------------------------------------------------ main
struct CapBuf : std::streambuf {
    int overflow(int c) override { if (c != EOF && output.size() < 4000000) output.push_back((char)c); return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { if (output.size() < 4000000) output.append(s, n); return n; }
};
static void on_signal(int s, siginfo_t *si, void *) {
    if (s == SIGVTALRM && my_compared != seen_compared) {      // results have been checked meanwhile
        seen_compared = my_compared;
        arm();
        return;
    }
    if (s == SIGVTALRM) violation("no progress: the program computed for more than " + std::to_string((int)exec_limit) + " s without reaching a synchronisation or choice point (rank " + std::to_string(cur) + (cur >= 0 ? ", last blocked in: " + R[cur]->what : "") + ")");
    // should the report hang on a lock of the broken heap, the process is ended
    signal(SIGALRM, SIG_DFL);
    sigset_t al;
    sigemptyset(&al);
    sigaddset(&al, SIGALRM);
    sigprocmask(SIG_UNBLOCK, &al, nullptr);
    alarm(10);
    char b[200];
    snprintf(b, sizeof b, "signal %d (%s) at address %p on rank %d", s, strsignal(s), si ? si->si_addr : nullptr, cur);
    violation(b);
}
static std::string scratch;
static void rmtree(const std::string &d) {
    if (d.size() < 8 || d.find("/mc.") == std::string::npos) return;
    pid_t p = fork();
    if (p == 0) { execlp("rm", "rm", "-rf", d.c_str(), (char *)nullptr); _exit(1); }
    int st; waitpid(p, &st, 0);
}
static void cleanup_run_dir() { if (own_rundir) { if (chdir("/")) {} rmtree(crashdir); own_rundir = false; } }
static std::string copy_run_dir() {
    static int k = 0;
    std::string d = scratch + "/run" + std::to_string(getpid()) + "_" + std::to_string(++k);
    pid_t p = fork();
    if (p == 0) { execlp("cp", "cp", "-a", crashdir.c_str(), d.c_str(), (char *)nullptr); _exit(1); }
    int st; waitpid(p, &st, 0);
    return d;
}
static void enter_run_dir(const std::string &d) {
    char b[4096];
    auto move = [&](const std::string &c) { return c.compare(0, crashdir.size(), crashdir) == 0 ? d + c.substr(crashdir.size()) : c; };
    std::string c = getcwd(b, sizeof b) ? b : crashdir;
    c = move(c);
    for (Rank *r : R) if (!r->cwd.empty()) r->cwd = move(r->cwd);
    crashdir = d;
    if (chdir(c.c_str())) {}
}
static std::string jesc(const char *s) {
    std::string o;
    for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
static int (*entries[64])(int, char **);
static void *sohandles[64];

static void make_world(int np) {
    R.clear();
    for (int i = 0; i < np; i++) {
        Rank *r = new Rank;
        r->entry = entries[i];
        r->so = sohandles[i];
        getcontext(&r->ctx);
        size_t sz = 16 << 20;
        char *st = (char *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(st, 4096, PROT_NONE);
        r->ctx.uc_stack.ss_sp = st;
        r->ctx.uc_stack.ss_size = sz;
        r->ctx.uc_link = nullptr;
        makecontext(&r->ctx, (void (*)())fiber_main, 0);
        R.push_back(r);
    }
    Comm *w = new Comm;
    for (int i = 0; i < np; i++) w->members.push_back(i);
    comms.assign(1, w);
}

int main(int argc, char **argv) {
    std::string so, nps = "1", replaystr;
    bool do_replay = false, rundir = false;
    int phases = 1;
    long time_limit = 0;
    args.push_back(strdup("harness"));
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&] { return std::string(argv[++i]); };
        if (a == "--so") so = nxt();
        else if (a == "--np") nps = nxt();
        else if (a == "--set") { std::string s = nxt(); size_t e = s.find('='); params[s.substr(0, e)] = s.substr(e + 1); }
        else if (a == "--dev") bound_dev = atoi(argv[++i]);
        else if (a == "--jobs") nworkers = atoi(argv[++i]);
        else if (a == "--replay") { do_replay = true; replaystr = nxt(); }
        else if (a == "--sched") sched_dev = true;
        else if (a == "--testdev") test_dev = 1;
        else if (a == "--percwd") percwd = true;
        else if (a == "--rundir") rundir = true;
        else if (a == "--phases") phases = atoi(argv[++i]);
        else if (a == "--limit") exec_limit = atof(argv[++i]);
        else if (a == "--known") known_keys.push_back(nxt());
        else if (a == "--arg") args.push_back(strdup(argv[++i]));
        else if (a == "--stop-after") stop_after = atoi(argv[++i]);
        else if (a == "--time") time_limit = atol(argv[++i]);
        else { fprintf(stderr, "mcrun: unknown option %s\n", a.c_str()); return 3; }
    }
    args.push_back(nullptr);
    G = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sem_init(&G->slots, 1, nworkers - 1);
    sem_init(&G->lock, 1, 1);
    std::vector<int> nplist;
    { std::stringstream s(nps); std::string t; while (std::getline(s, t, ',')) nplist.push_back(atoi(t.c_str())); }
    int maxnp = *std::max_element(nplist.begin(), nplist.end());
    char tmpl[] = "/tmp/mc.XXXXXX";
    scratch = mkdtemp(tmpl);
    if (!do_replay) {} else { std::stringstream s(replaystr); std::string t; while (std::getline(s, t, ',')) if (!t.empty()) replay.push_back(atoi(t.c_str())); replaying = true; }
    mallopt(M_PERTURB, 0x5a);
    int realout = dup(1);
    {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
    }
    CapBuf *cap = new CapBuf;
    std::ios_base::sync_with_stdio(false);   // before: it replaces the buffer
    std::cout.rdbuf(cap);

    for (int i = 0; i < maxnp; i++) {
        std::string f = scratch + "/rank" + std::to_string(i) + ".so";
        { std::ifstream in(so, std::ios::binary); std::ofstream o(f, std::ios::binary); o << in.rdbuf(); }
        void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "mcrun: %s\n", dlerror()); rmtree(scratch); return 3; }
        sohandles[i] = h;
        entries[i] = (int (*)(int, char **))dlsym(h, "mc_entry");
        if (!entries[i]) { fprintf(stderr, "mcrun: no mc_entry in %s\n", so.c_str()); rmtree(scratch); return 3; }
        unlink(f.c_str());
    }
    pid_t root = fork();
    if (root == 0) {
        has_token = false;
        struct sigaction sa = {};
        sa.sa_sigaction = on_signal;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        stack_t ss = {};
        ss.ss_sp = malloc(1 << 18);
        ss.ss_size = 1 << 18;
        sigaltstack(&ss, nullptr);
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        arm();
        int np = nplist[choose((int)nplist.size(), "np", false)];
        if (mc_param("sendmodes", 0)) send_buffered = choose(2, "send_buffered", false);
        if (mc_param("redorders", 0)) red_order = choose(2, "reduction_order", false);
        if (phases >= 2) {
            // phases 0 .. phases-2: runs that are interrupted at a file operation; last phase: restart
            long maxops = mc_param("maxops", 400);
            if (mc_param("scenarios", 1) > 1) params["scenario"] = std::to_string(choose((int)mc_param("scenarios", 1), "scenario", false));
            auto run0 = [&](int phase, long at, int torn, long *nops) {
                int pp[2];
                if (pipe(pp)) {}
                pid_t p = fork();
                if (p == 0) {
                    if (chdir(crashdir.c_str())) {}
                    own_rundir = false; kids.clear(); has_token = false;
                    replaying = true; replay_pos = replay.size(); // no forks inside
                    crash_at = at; crash_torn = torn; track_files = true;
                    params["phase"] = std::to_string(phase);
                    expect_exit = 1;
                    make_world(np);
                    arm();
                    run_ranks();
                    if (::write(pp[1], &nfileops, sizeof nfileops)) {}
                    disarm();
                    _exit(0);
                }
                close(pp[1]);
                long n = -1;
                if (read(pp[0], &n, sizeof n) != sizeof n) n = -1;
                close(pp[0]);
                int st;
                waitpid(p, &st, 0);
                if (nops) *nops = n;
                return st;
            };
            // every run begins in a fresh directory: the interrupted runs so far are repeated
            std::vector<std::pair<long, int>> done;
            for (int ph = 0; ph <= phases - 2; ph++) {
                auto history = [&]() {
                    crashdir = scratch + "/run" + std::to_string(getpid());
                    rmtree(crashdir);
                    mkdir(crashdir.c_str(), 0755);
                    if (persist) munmap(persist, 65536);
                    persist = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                    for (size_t i = 0; i < done.size(); i++) run0((int)i, done[i].first, done[i].second, nullptr);
                };
                history();
                long n = 0;
                int st = run0(ph, -1, 0, &n);
                rmtree(crashdir);
                if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || n < 0) violation("the undisturbed run of phase " + std::to_string(ph) + " did not end normally");
                if (n > maxops) violation("INTERNAL: too many file operations");
                long at = choose((int)n + 1, "crash_before_op", false);
                int torn = at < n ? choose(4, "torn", false) : 0;
                done.push_back({at, torn});
                int np2 = ph == phases - 2 && mc_param("renp", 0) ? nplist[choose((int)nplist.size(), "np after restart", false)] : np;
                if (ph == phases - 2) { history(); np = np2; params["crash_at"] = std::to_string(at); params["nops"] = std::to_string(n); params["torn"] = std::to_string(torn); }
            }
            params["phase"] = std::to_string(phases - 1);
            { void *p = malloc(65536); memcpy(p, persist, 65536); persist = p; }  // private: processes forked from here on have their own
            if (chdir(crashdir.c_str())) {}
            own_rundir = true;
        } else if (rundir) {
            params["phase"] = "0";
        }
        make_world(np);
        if (rundir && phases < 2) {
            // each execution gets its directory when it starts; children forked later copy it lazily through mc_fork_dir()
            crashdir = scratch + "/run" + std::to_string(getpid());
            mkdir(crashdir.c_str(), 0755);
            if (chdir(crashdir.c_str())) {}
            own_rundir = true;
        }
        run_ranks();
        if (expect_exit == 2) for (Rank *r : R) if (r->exitkind < 1) violation("the program was required to refuse this input but ran to its end");
        leave_counted();
    }
    int st = 0;
    bool timedout = false;
    if (time_limit > 0) {
        for (long k = 0;; k++) {
            pid_t w = waitpid(root, &st, WNOHANG);
            if (w == root) break;
            if (k > time_limit * 20 && !timedout) { timedout = true; G->stop = 1; }
            usleep(50000);
        }
    } else while (waitpid(root, &st, 0) < 0 && errno == EINTR) {}
    if (st != 0) {
        if (G->nviol < MAXVIOL) { describe_status(G->viol[G->nviol].msg, st, "root"); G->nviol++; }
    }
    rmtree(scratch);
    std::ostringstream o;
    o << "{\"executions\":" << G->executions << ",\"nodes\":" << G->nodes << ",\"transitions\":" << G->transitions << ",\"states\":" << G->states
      << ",\"outcomes\":" << G->outcomes << ",\"compared\":" << G->compared << ",\"pruned\":" << G->pruned << ",\"bounded_deviations\":" << G->capped
      << ",\"fiber_switches\":" << G->switches << ",\"messages\":" << G->messages << ",\"timed_out\":" << (timedout ? "true" : "false") << ",\"known\":[";
    for (int i = 0; i < G->nknown; i++) o << (i ? "," : "") << '"' << jesc(G->known[i]) << '"';
    o << "],\"samples\":[";
    for (int i = 0; i < G->nsample; i++) o << (i ? "," : "") << "{\"choices\":\"" << jesc(G->sample[i].msg) << "\",\"trace\":\"" << G->sample[i].trace << "\",\"notes\":\"" << jesc(G->sample[i].note) << "\"}";
    o << "],\"violations\":[";
    for (int i = 0; i < G->nviol; i++) o << (i ? "," : "") << "{\"message\":\"" << jesc(G->viol[i].msg) << "\",\"trace\":\"" << G->viol[i].trace << "\",\"detail\":\"" << jesc(G->viol[i].note) << "\"}";
    o << "]}\n";
    std::string s = o.str();
    size_t off = 0;
    while (off < s.size()) { ssize_t k = ::write(realout, s.data() + off, s.size() - off); if (k <= 0) break; off += k; }
    return 0;
}
