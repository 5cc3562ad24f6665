// Interface between a harness (HILA program) and the explorer.
#ifndef MC_H
#define MC_H
#ifdef __cplusplus
extern "C" {
#endif
/// environment choice made by this rank: value in [0,n); 0 is the default; counts as a deviation if devi
int mc_choose(int n, const char *label);
int mc_choose_dev(int n, const char *label);
/// choice common to all ranks: the k-th call of every rank gets the same value
int mc_global_choose(int n, const char *label);
int mc_global_choose_dev(int n, const char *label);
/// property violated: ends this execution and reports the choice trace
void mc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
/// the remaining behaviour of this execution is not interesting (counted as pruned)
void mc_skip(void) __attribute__((noreturn));
/// canonical state of the execution (counted as states when new)
void mc_state(unsigned long hash);
/// observed outcome (distinct outcomes are counted)
void mc_outcome(unsigned long hash);
/// count one evaluated comparison with the reference
void mc_compared(long n);
/// note appended to the trace of this execution (for samples / counterexamples)
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int mc_rank(void);      // rank in the simulated world
int mc_nranks(void);
long mc_param(const char *name, long dflt);
const char *mc_sparam(const char *name, const char *dflt);
/// barrier of the explorer itself, not visible to the program under test
void mc_barrier(void);
/// shared scratch memory, common to all ranks of one execution
void *mc_shared(unsigned long bytes);
/// expect the program to end by itself (exit/abort/assert) from here on: 0 not allowed (default), 1 allowed, 2 required
void mc_expect_exit(int mode);
/// text that the program printed so far (all ranks)
const char *mc_output(void);
void mc_clear_output(void);
/// called when a rank ends through exit()/abort()/assert
void mc_on_exit(void (*fn)(int kind, int code));
/// controlled clock: seconds added to the monotonic clock
void mc_clock_set(double t);
/// whether the order of the virtual OpenMP threads is explored (default) or fixed from here on
void mc_thread_orders(int on);
/// memory (64 kB) that survives the interruption of a run (--phases)
void *mc_persist(void);
/// directory of this execution (run with --rundir)
const char *mc_rundir(void);
void mc_disk_space(long bytes);      // room left in the run directory, from now on
void mc_known(const char *key);  // returns normally if `key` is listed as a known finding, after printing/recording it
int mc_is_known(const char *key);
#ifdef __cplusplus
}
#endif
static inline unsigned long mc_hash(unsigned long h, unsigned long v) {
    h ^= v + 0x9e3779b97f4a7c15UL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdUL;
    h ^= h >> 32;
    return h;
}
#endif
