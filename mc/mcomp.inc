// OpenMP runtime of the explorer: a team of T virtual threads, executed one after the other; the order is a choice.
static int omp_T = 1, omp_tid = 0, omp_in = 0;
static int omp_team() { static int t = (int)mc_param("omp_threads", 1); return t; }
static ulong64 omp_regions = 0;
EXPORT int omp_get_thread_num(void) { return omp_in ? omp_tid : 0; }
EXPORT int omp_get_num_threads(void) { return omp_in ? omp_T : 1; }
EXPORT int omp_get_max_threads(void) { return omp_team(); }
EXPORT int omp_in_parallel(void) { return omp_in && omp_T > 1; }
EXPORT void omp_set_num_threads(int) {}
EXPORT int omp_get_level(void) { return omp_in; }
EXPORT double omp_get_wtime(void) { return vclock += 1e-6; }
static void race_begin(int T);
static void race_thread(int t);
static void race_end();
// the threads run on stacks of their own; between barriers each runs to its end, in every order that is explored
struct OmpThread { ucontext_t ctx; char *stack = nullptr; bool done = false; };
static OmpThread omp_th[16];
static ucontext_t omp_main;
static void (*omp_fn)(void *);
static void *omp_data;
static const size_t OMP_STACK = 512 << 10;
static void omp_trampoline() {
    omp_fn(omp_data);
    omp_th[omp_tid].done = true;
    swapcontext(&omp_th[omp_tid].ctx, &omp_main);
}
static int omp_explore = 1;
EXPORT void mc_thread_orders(int on) { omp_explore = on; }
static std::vector<int> omp_order(int T) {
    std::vector<int> pool(T), ord;
    for (int i = 0; i < T; i++) pool[i] = i;
    if (T == 1 || !omp_explore) return pool;
    int f = 1;
    for (int i = 2; i <= T; i++) f *= i;
    int k = choose(f, "thread_order", true);
    for (int i = T; i >= 1; i--) { f /= i; ord.push_back(pool[k / f]); pool.erase(pool.begin() + k / f); k %= f; }
    return ord;
}
EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
    if (omp_in) { int sT = omp_T, st = omp_tid; omp_T = 1; omp_tid = 0; omp_in++; fn(data); omp_in--; omp_T = sT; omp_tid = st; return; }
    int T = n ? (int)n : omp_team();
    if (T > 16) violation("INTERNAL: too many threads");
    omp_regions++;
    omp_in = 1; omp_T = T;
    if (T == 1) fn(data);
    else {
        omp_fn = fn; omp_data = data;
        for (int t = 0; t < T; t++) {
            OmpThread &h = omp_th[t];
            if (!h.stack) h.stack = (char *)mmap(nullptr, OMP_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            h.done = false;
            getcontext(&h.ctx);
            h.ctx.uc_stack.ss_sp = h.stack;
            h.ctx.uc_stack.ss_size = OMP_STACK;
            h.ctx.uc_link = nullptr;
            makecontext(&h.ctx, omp_trampoline, 0);
        }
        for (;;) {
            std::vector<int> ord = omp_order(T);
            race_begin(T);
            for (int t : ord) { omp_tid = t; race_thread(t); swapcontext(&omp_main, &omp_th[t].ctx); }
            race_end();
            int d = 0;
            for (int t = 0; t < T; t++) d += omp_th[t].done;
            if (d == T) break;
            if (d) violation("a barrier inside a parallel region was not reached by all threads");
        }
    }
    omp_in = 0; omp_T = 1; omp_tid = 0;
}
EXPORT void GOMP_barrier(void) { if (omp_in == 1 && omp_T > 1) swapcontext(&omp_th[omp_tid].ctx, &omp_main); }
static int omp_lock_depth = 0;
EXPORT void GOMP_critical_start(void) { omp_lock_depth++; }
EXPORT void GOMP_critical_end(void) { omp_lock_depth--; }
EXPORT void GOMP_critical_name_start(void **) { omp_lock_depth++; }
EXPORT void GOMP_critical_name_end(void **) { omp_lock_depth--; }
EXPORT void GOMP_atomic_start(void) { omp_lock_depth++; }
EXPORT void GOMP_atomic_end(void) { omp_lock_depth--; }
EXPORT bool GOMP_single_start(void) { return omp_tid == 0; }

// ---- accesses of the virtual threads of one region (programs compiled with -fsanitize=thread; hooks below)
struct Acc { int w = -1; unsigned readers = 0; bool locked = false; };
static std::map<uintptr_t, Acc> *racc = nullptr; // byte address -> accesses
static int race_on = 0, race_t = 0;
static ulong64 race_accesses = 0;
static void race_begin(int T) {
    race_on = T > 1 && mc_param("races", 0);
    if (race_on) { if (!racc) racc = new std::map<uintptr_t, Acc>; racc->clear(); }
}
static void race_thread(int t) { race_t = t; }
static void race_end() { race_on = 0; }
static void race_access(void *p, size_t n, bool wr, bool atomic = false) {
    if (!race_on || cur < 0) return;
    char *c = (char *)p;
    // the stack of a virtual thread is private to it
    for (int t = 0; t < omp_T; t++) if (c >= omp_th[t].stack && c < omp_th[t].stack + OMP_STACK) {
        if (t == race_t) return;
        break;
    }
    bool lk = omp_lock_depth > 0 || atomic;
    race_accesses++;
    int save = race_on; race_on = 0;
    for (size_t i = 0; i < n; i++) {
        Acc &a = (*racc)[(uintptr_t)c + i];
        bool conflict = wr ? ((a.w >= 0 && a.w != race_t) || (a.readers & ~(1u << race_t))) : (a.w >= 0 && a.w != race_t);
        if (conflict && !(lk && a.locked)) {
            Dl_info di; std::string where;
            if (dladdr(__builtin_return_address(1), &di) && di.dli_sname) where = di.dli_sname;
            violation("data race between threads " + std::to_string(a.w) + " and " + std::to_string(race_t) + " of one parallel loop (" + (wr ? "write" : "read") + ") " + where);
        }
        if (wr) a.w = race_t; else a.readers |= 1u << race_t;
        a.locked = lk;
    }
    race_on = save;
}
#define TS(n) \
    EXPORT void __tsan_read##n(void *p) { race_access(p, n, false); } \
    EXPORT void __tsan_write##n(void *p) { race_access(p, n, true); } \
    EXPORT void __tsan_unaligned_read##n(void *p) { race_access(p, n, false); } \
    EXPORT void __tsan_unaligned_write##n(void *p) { race_access(p, n, true); }
TS(1) TS(2) TS(4) TS(8) TS(16)
EXPORT void __tsan_read_range(void *p, unsigned long n) { race_access(p, n, false); }
EXPORT void __tsan_write_range(void *p, unsigned long n) { race_access(p, n, true); }
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_vptr_update(void **p, void *) { race_access(p, 8, true); }
EXPORT void __tsan_vptr_read(void **p) { race_access(p, 8, false); }
#define TA(bits, T) \
    EXPORT T __tsan_atomic##bits##_load(const volatile T *a, int) { race_access((void *)a, sizeof(T), false, true); return *a; } \
    EXPORT void __tsan_atomic##bits##_store(volatile T *a, T v, int) { race_access((void *)a, sizeof(T), true, true); *a = v; } \
    EXPORT T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { race_access((void *)a, sizeof(T), true, true); T o = *a; *a = v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { race_access((void *)a, sizeof(T), true, true); T o = *a; *a = o + v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { race_access((void *)a, sizeof(T), true, true); T o = *a; *a = o - v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { race_access((void *)a, sizeof(T), true, true); T o = *a; *a = o | v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { race_access((void *)a, sizeof(T), true, true); T o = *a; *a = o & v; return o; } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { race_access((void *)a, sizeof(T), true, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { race_access((void *)a, sizeof(T), true, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; }
TA(8, unsigned char) TA(16, unsigned short) TA(32, unsigned) TA(64, unsigned long)
EXPORT void __tsan_atomic_thread_fence(int) {}
