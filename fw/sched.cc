// The scheduler runtime.  Compiled without instrumentation; the code under test
// and the harness are compiled with -fsanitize=thread and linked against the
// __tsan_* functions below instead of the TSan runtime.
//
//  * threads are fibers; pthread_*, sleeping and clocks are interposed
//  * scheduling points: every synchronisation operation, plus every memory
//    access whose instruction was seen racing (happens-before race detection
//    with vector clocks; the exploration is repeated until no new racing
//    instruction is found)
//  * a switch away from a runnable thread, or a timer that fires although some
//    thread could still run, costs one deviation; all executions with at most
//    `bound` deviations are explored
//  * heap: bump arena with redzones, no reuse, freed memory marked; every
//    instrumented access is checked
#include "mc.hh"
#include "sched.hh"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <unistd.h>
#include <new>
#include <set>

// The fibers are threads for the code under test: reference counts must be atomic operations.
extern "C" char __libc_single_threaded;

extern void *mc_shared_aux;
extern int (*mc_restart_hook)();
extern void (*mc_parent_hook)();
namespace mc { void internal_warm(bool); }

namespace {
const int MAXT = 16;
const size_t STK = 512 * 1024;
const size_t ARENA = 1ull << 32;
const uint64_t ARENA_BASE = 0x100000000000ull;
const uint64_t SHADOW_BASE = 0x110000000000ull;
const int NMX = 4096, NCV = 1024;
const int RSET = 1 << 14;

struct Aux {
    volatile int bound, target, nactive, npending;
    uint64_t active[RSET];
    uint64_t pending[RSET];
};
Aux *A;

enum St { FREE, RUN, BMUTEX, BCOND, BSLEEP, BJOIN, DONE };
struct VC { uint32_t c[MAXT]; };
struct Th {
    St st;
    void *sp;
    void *stack;
    void *(*fn)(void *); void *arg; void *ret;
    pthread_mutex_t *mx; pthread_cond_t *cv;
    bool timed, lazy; int64_t deadline; int wres; uint64_t seq;
    int jt; bool detached, joined;
    char eh[16];
    VC vc;
};
Th T[MAXT];
int nT, cur;
bool active = false;     // an execution is running on a fiber
int atomic_depth = 0;
void *engine_sp;
int budget_left;
int64_t steps, horizon;
uint64_t wseq;
bool warm = false;

struct Mx { pthread_mutex_t *m; int owner; int count; VC vc; };
struct Cv { pthread_cond_t *c; };
Mx MX[NMX]; int mxused[NMX]; int nmx;

// ---- racing instructions -------------------------------------------------
bool in_active(uint64_t pc) {
    uint64_t i = (pc * 0x9E3779B97F4A7C15ull) >> 50;
    for (;;) { uint64_t v = A->active[i & (RSET - 1)]; if (v == pc) return true; if (!v) return false; i++; }
}
void add_set(uint64_t *set, volatile int *n, uint64_t pc) {
    uint64_t i = (pc * 0x9E3779B97F4A7C15ull) >> 50;
    for (int k = 0; k < RSET; k++, i++) {
        uint64_t v = set[i & (RSET - 1)];
        if (v == pc) return;
        if (!v) { if (__sync_bool_compare_and_swap(&set[i & (RSET - 1)], 0, pc)) { __sync_fetch_and_add(n, 1); return; } if (set[i & (RSET - 1)] == pc) return; }
    }
}
void racy(uint64_t pc) { if (pc && !in_active(pc)) add_set(A->pending, &A->npending, pc); }

// ---- race detection ------------------------------------------------------
struct Gran { uint64_t g; uint32_t gen; uint32_t wclk; int16_t wt; uint8_t hot; uint64_t wpc; uint32_t rclk[MAXT]; uint64_t rpc[MAXT]; };
const int NG = 1 << 16;
Gran *G; uint32_t gen = 0; int ngran;

Gran *gran(uint64_t g) {
    uint64_t i = (g * 0x9E3779B97F4A7C15ull) >> 40;
    for (int k = 0; k < 512; k++, i++) {
        Gran &r = G[i & (NG - 1)];
        if (r.gen == gen && r.g == g) return &r;
        if (r.gen != gen) { memset(&r, 0, sizeof r); r.g = g; r.gen = gen; r.wt = -1; return &r; }
    }
    return 0;
}

void switch_to(int t);
void choose_next(bool cur_can_run);
void point_here();

uint8_t *shadow(uint64_t a) { return (uint8_t*)SHADOW_BASE + ((a - ARENA_BASE) >> 3); }
uint64_t bump; bool arena_on = false;

void heap_check(uint64_t a, size_t n, bool w, uint64_t pc) {
    if (a < ARENA_BASE || a >= ARENA_BASE + ARENA) return;
    for (uint64_t p = a; p < a + n; p = (p | 7) + 1) {
        uint8_t s = *shadow(p);
        if (s != 1) { mc::note("instruction %#lx", (unsigned long)pc); mc::fail(s == 2 ? "use-after-free" : "heap-overflow", "%s of %zu byte(s) at %s heap memory by thread %d", w ? "write" : "read", n, s == 2 ? "freed" : "unallocated", cur); }
    }
    uint64_t e = a + n - 1;
    (void)e;
}

inline void access(uint64_t a, size_t n, bool w, uint64_t pc) {
    if (!active || atomic_depth) return;
    if (nT > 1 && in_active(pc)) point_here();
    if (arena_on) heap_check(a, n, w, pc);
    if (nT <= 1) { // still single threaded: everything later is ordered after this
        return;
    }
    for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
        Gran *r = gran(g);
        if (!r) return;
        VC &me = T[cur].vc;
        bool conf = r->hot;
        if (r->wt >= 0 && r->wt != cur && r->wclk > me.c[r->wt]) { conf = true; racy(r->wpc); }
        if (w) for (int t = 0; t < nT; t++) if (t != cur && r->rclk[t] > me.c[t]) { conf = true; racy(r->rpc[t]); }
        if (conf) { r->hot = 1; racy(pc); }
        if (w) { r->wt = cur; r->wclk = me.c[cur]; r->wpc = pc; }
        else { r->rclk[cur] = me.c[cur]; r->rpc[cur] = pc; }
    }
}

void join_vc(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

// ---- fibers --------------------------------------------------------------
extern "C" void verif_switch(void **save, void *to);
asm(".text\n.globl verif_switch\n.type verif_switch,@function\nverif_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size verif_switch,.-verif_switch\n");
extern "C" void *__cxa_get_globals();

void raw_switch(void **save, void *to, char *ehsave, char *ehload) {
    char *g = (char*)__cxa_get_globals();
    memcpy(ehsave, g, 16);
    if (ehload) memcpy(g, ehload, 16); else memset(g, 0, 16);
    verif_switch(save, to);
}
char engine_eh[16];

void switch_to(int t) {
    if (t == cur) return;
    int me = cur; cur = t;
    raw_switch(&T[me].sp, T[t].sp, T[me].eh, T[t].eh);
}
void to_engine() { raw_switch(&T[cur].sp, engine_sp, T[cur].eh, engine_eh); abort(); }

void fiber_main() {
    Th &t = T[cur];
    t.ret = t.fn(t.arg);
    Th &d = T[cur];
    d.st = DONE;
    if (cur == 0) { active = false; to_engine(); }
    choose_next(false);
    abort();
}

int new_fiber(void *(*fn)(void *), void *arg) {
    if (nT >= MAXT) mc::harness_error("too many threads");
    int k = nT++;
    Th &t = T[k];
    void *stk = t.stack;
    memset(&t, 0, sizeof t);
    if (!stk) {
        stk = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(stk, 4096, PROT_NONE);
    }
    t.stack = stk; t.st = RUN; t.fn = fn; t.arg = arg;
    uint64_t *sp = (uint64_t*)((char*)stk + STK - 64);
    *--sp = 0;                        // alignment / fake return address
    *--sp = (uint64_t)fiber_main;
    for (int i = 0; i < 6; i++) *--sp = 0;
    t.sp = sp;
    t.vc.c[k] = 1;
    return k;
}

// ---- scheduling ----------------------------------------------------------
Mx *mutex_of(pthread_mutex_t *m) {
    uint64_t i = ((uint64_t)m * 0x9E3779B97F4A7C15ull) >> 44;
    for (int k = 0; k < NMX; k++, i++) {
        Mx &x = MX[i & (NMX - 1)];
        if (x.m == m) return &x;
        if (!x.m) { memset(&x, 0, sizeof x); x.m = m; x.owner = -1; mxused[nmx++] = i & (NMX - 1); return &x; }
    }
    mc::harness_error("too many mutexes");
}

bool can_run(int t) {
    Th &x = T[t];
    switch (x.st) {
    case RUN: return true;
    case BMUTEX: return mutex_of(x.mx)->owner < 0;
    case BJOIN: return T[x.jt].st == DONE;
    default: return false;
    }
}
int earliest_timer(bool lazy_too) {
    int b = -1;
    for (int t = 0; t < nT; t++)
        if ((lazy_too || !T[t].lazy) && (T[t].st == BSLEEP || (T[t].st == BCOND && T[t].timed)) && (b < 0 || T[t].deadline < T[b].deadline)) b = t;
    return b;
}
int64_t idle;            // virtual time that passed because no thread could run
void fire(int t, bool forced) {
    Th &x = T[t];
    if (forced && x.deadline > mc::vclock_ns) idle += x.deadline - mc::vclock_ns;
    if (x.deadline > mc::vclock_ns) mc::vclock_ns = x.deadline;
    if (x.st == BSLEEP) x.st = RUN;
    else { x.wres = ETIMEDOUT; x.st = BMUTEX; }
}
const char *stn(St s) { static const char *n[] = {"free", "runnable", "waiting for a lock", "waiting on a condition", "sleeping", "joining", "ended"}; return n[s]; }

void choose_next(bool cur_can) {
    // never switch inside a harness-atomic region
    if (atomic_depth && cur_can) return;
    for (;;) {
        if (++steps > horizon) { char b[600]; int n = 0; for (int t = 0; t < nT; t++) n += snprintf(b + n, sizeof b - n, " T%d:%s", t, stn(T[t].st)); mc::fail("livelock", "no end within %ld scheduling steps;%s", (long)horizon, b); }
        int opt[MAXT + 2], cost[MAXT + 2], n = 0;
        bool any = false;
        if (cur_can) { opt[n] = cur; cost[n++] = 0; any = true; }
        for (int t = 0; t < nT; t++) if (t != cur || !cur_can) if (can_run(t)) { any = true; opt[n] = t; cost[n++] = cur_can ? 1 : 0; }
        int et = earliest_timer(!any);
        if (et >= 0) { opt[n] = 100 + et; cost[n++] = any ? 1 : 0; }
        if (!n) { char b[600]; int k = 0; for (int t = 0; t < nT; t++) k += snprintf(b + k, sizeof b - k, " T%d:%s", t, stn(T[t].st)); mc::fail("deadlock", "no thread can continue:%s", b); }
        int m = 0;
        for (int i = 0; i < n; i++) if (cost[i] <= budget_left) { opt[m] = opt[i]; cost[m++] = cost[i]; }
        int k = m > 1 ? (warm ? 0 : mc::choose(m)) : 0;
        budget_left -= cost[k];
        if (opt[k] >= 100) {
            int t = opt[k] - 100;
            if (cost[k]) mc::note("the timer of T%d fires early", t);
            fire(t, !any);
            if (!can_run(t)) { if (cur_can) return; continue; }
            opt[k] = t;
        }
        int t = opt[k];
        if (T[t].st == BMUTEX) { Mx *x = mutex_of(T[t].mx); x->owner = t; x->count = 1; T[t].st = RUN; join_vc(T[t].vc, x->vc); }
        else if (T[t].st == BJOIN) { T[t].st = RUN; join_vc(T[t].vc, T[T[t].jt].vc); }
        if (t != cur) { if (cost[k]) mc::note("preempt T%d -> T%d", cur, t); switch_to(t); }
        return;
    }
}
void point_here() { if (nT > 1) choose_next(true); }

void *body_thunk(void *) { sched_body(); return 0; }

void do_abort() { active = false; atomic_depth = 0; to_engine(); }

int restart() {
    // merge newly found racing instructions; raise the bound when stable
    bool grew = A->npending > 0;
    if (grew) {
        for (int i = 0; i < RSET; i++) if (A->pending[i]) { add_set(A->active, &A->nactive, A->pending[i]); A->pending[i] = 0; }
        A->npending = 0;
    }
    if (getenv("SCHED_DEBUG")) fprintf(stderr, "round: bound %d, active %d\n", A->bound, A->nactive);
    if (grew) return 1;
    if (A->bound < A->target) { A->bound++; return 1; }
    return 0;
}
void parent_init() {
    A = (Aux*)mc_shared_aux;
    A->target = mc::param("bound", 2);
    A->bound = mc::replaying() ? A->target : mc::param("minbound", 1);
    if (A->bound > A->target) A->bound = A->target;
}
struct Init {
    Init() {
        mc_restart_hook = restart;
        mc_parent_hook = parent_init;
        mc::internal_set_abort_hook(0);
    }
} init_;

void reset() {
    __libc_single_threaded = 0;
    if (!G) {
        G = (Gran*)mmap(0, sizeof(Gran) * NG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        void *p = mmap((void*)ARENA_BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        void *q = mmap((void*)SHADOW_BASE, ARENA >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        if (p == MAP_FAILED || q == MAP_FAILED) mc::harness_error("arena");
    }
    for (int i = 0; i < nmx; i++) MX[mxused[i]].m = 0;
    nmx = 0; nT = 0; cur = 0; steps = 0; wseq = 0; atomic_depth = 0;
    gen++;
    if (bump) { memset((void*)SHADOW_BASE, 0, (bump >> 3) + 8); }
    bump = 64; idle = 0;
    horizon = mc::param("horizon", 20000);
    budget_left = A->bound;
}

void run_body() {
    reset();
    new_fiber(body_thunk, 0);
    active = true;
    arena_on = !warm;
    mc::internal_set_abort_hook(do_abort);
    raw_switch(&engine_sp, T[0].sp, engine_eh, T[0].eh);
    mc::internal_set_abort_hook(0);
    active = false; arena_on = false;
}
} // namespace

void mc_setup() { warm = true; mc::internal_warm(true); run_body(); warm = false; mc::internal_warm(false); mc::vclock_ns = 1000000000000000000ll; }
void mc_body() { run_body(); }

// frozen scheduling-point set, for replay files
int sched_dump(char *buf, size_t n) {
    size_t k = 0; buf[0] = 0;
    k += snprintf(buf, n, "%d", A->bound);
    for (int i = 0; i < RSET && k < n - 24; i++) if (A->active[i]) k += snprintf(buf + k, n - k, " %lx", (unsigned long)A->active[i]);
    return k;
}
void sched_load(const char *s) {
    A = (Aux*)mc_shared_aux;
    char *e; long b = strtol(s, &e, 10);
    A->bound = A->target = b > 0 ? b : 0; if (!A->target) A->target = A->bound = 0;
    for (;;) { while (*e == ' ') e++; if (!*e || *e == '\n') break; uint64_t v = strtoull(e, &e, 16); add_set(A->active, &A->nactive, v); }
}

namespace sched {
void point() { if (active && !atomic_depth) point_here(); }
int self() { return cur; }
int64_t now_ns() { return mc::vclock_ns; }
void advance_ns(int64_t n) { mc::vclock_ns += n; }
int64_t idle_ns() { return idle; }
void settle(int64_t n) {
    if (!active) return;
    T[cur].st = BSLEEP; T[cur].deadline = mc::vclock_ns + n; T[cur].lazy = true;
    choose_next(false);
    T[cur].lazy = false;
}
Atomic::Atomic() { atomic_depth++; }
Atomic::~Atomic() { atomic_depth--; }
int live_threads() { int n = 0; for (int t = 0; t < nT; t++) n += T[t].st != DONE; return n; }
}

// ---- heap ----------------------------------------------------------------
static void *verif_alloc(size_t n) {
    if (!arena_on || !active) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
    uint64_t p = (bump + 16 + 15) & ~15ull;
    if (p + n + 64 > ARENA) mc::harness_error("arena exhausted");
    *(uint64_t*)(ARENA_BASE + p - 8) = n;
    memset(shadow(ARENA_BASE + p), 1, (n + 7) >> 3);
    bump = p + ((n + 7) & ~7ull) + 16;
    memset((void*)(ARENA_BASE + p), 0xbe, n < 4096 ? n : 4096);
    return (void*)(ARENA_BASE + p);
}
static void verif_release(void *q, void *ra) {
    uint64_t a = (uint64_t)q;
    if (!q) return;
    if (a < ARENA_BASE || a >= ARENA_BASE + ARENA) { if (!warm) free(q); return; }
    if (!active) return;
    uint64_t n = *(uint64_t*)(a - 8);
    if (n && !atomic_depth && nT > 1) {             // releasing is a write to everything released
        uint64_t pc = (uint64_t)ra;
        if (n && *shadow(a) == 1) access(a, n < 512 ? n : 512, true, pc);
    }
    if (n && *shadow(a) != 1) mc::fail("double-free", "thread %d frees heap memory that is not allocated", cur);
    memset(shadow(a), 2, (n + 7) >> 3);
}
void *operator new(size_t n) { return verif_alloc(n); }
void *operator new[](size_t n) { return verif_alloc(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return verif_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return verif_alloc(n); }
void operator delete(void *p) noexcept { verif_release(p, __builtin_return_address(0)); }
void operator delete[](void *p) noexcept { verif_release(p, __builtin_return_address(0)); }
void operator delete(void *p, size_t) noexcept { verif_release(p, __builtin_return_address(0)); }
void operator delete[](void *p, size_t) noexcept { verif_release(p, __builtin_return_address(0)); }

// ---- container internals that live in libstdc++ ----------------------------
// Lists are small enough to restate; for trees the change itself is one step,
// visible as a write to the header that every search reads first.
#include <dlfcn.h>
#define RA ((uint64_t)__builtin_return_address(0))
struct LNode { LNode *next, *prev; };
extern "C" {
void list_hook(LNode *self, LNode *pos) asm("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
void list_hook(LNode *self, LNode *pos) {
    access((uint64_t)self, 16, true, RA); access((uint64_t)pos, 16, true, RA);
    self->next = pos; self->prev = pos->prev;
    access((uint64_t)self->prev, 8, true, RA + 1);
    pos->prev->next = self; pos->prev = self;
}
void list_unhook(LNode *self) asm("_ZNSt8__detail15_List_node_base9_M_unhookEv");
void list_unhook(LNode *self) {
    access((uint64_t)self, 16, false, RA);
    LNode *n = self->next, *p = self->prev;
    access((uint64_t)n, 16, true, RA + 1); access((uint64_t)p, 8, true, RA + 2);
    p->next = n; n->prev = p;
}
void tree_insert(bool left, void *x, void *p, void *hdr) asm("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void tree_insert(bool left, void *x, void *p, void *hdr) {
    static void (*f)(bool, void*, void*, void*);
    if (!f) f = (void(*)(bool, void*, void*, void*))dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    access((uint64_t)hdr, 32, true, RA);
    f(left, x, p, hdr);
}
void *tree_erase(void *z, void *hdr) asm("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
void *tree_erase(void *z, void *hdr) {
    static void *(*f)(void*, void*);
    if (!f) f = (void*(*)(void*, void*))dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
    access((uint64_t)hdr, 32, true, RA); access((uint64_t)z, 32, true, RA + 1);
    return f(z, hdr);
}
void *tree_next(void *n) asm("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
void *tree_next(void *n) {
    static void *(*f)(void*);
    if (!f) f = (void*(*)(void*))dlsym(RTLD_NEXT, "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
    access((uint64_t)n, 32, false, RA);
    return f(n);
}
const void *tree_nextc(const void *n) asm("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
const void *tree_nextc(const void *n) {
    static const void *(*f)(const void*);
    if (!f) f = (const void*(*)(const void*))dlsym(RTLD_NEXT, "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
    access((uint64_t)n, 32, false, RA);
    return f(n);
}
}

// ---- pthread interposition -------------------------------------------------
extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    if (!active) mc::harness_error("thread created outside an execution");
    int k = new_fiber(fn, arg);
    // everything the parent did so far is ordered before the child
    for (int i = 0; i < MAXT; i++) if (T[cur].vc.c[i] > T[k].vc.c[i]) T[k].vc.c[i] = T[cur].vc.c[i];
    T[cur].vc.c[cur]++;
    *t = (pthread_t)(k + 1);
    point_here();
    return 0;
}
int pthread_join(pthread_t t, void **r) {
    int k = (int)t - 1;
    if (k < 0 || k >= nT) return ESRCH;
    if (T[k].st != DONE) { T[cur].st = BJOIN; T[cur].jt = k; choose_next(false); }
    join_vc(T[cur].vc, T[k].vc);
    if (r) *r = T[k].ret;
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self(void) { return active ? (pthread_t)(cur + 1) : (pthread_t)1; }

static bool is_rec(pthread_mutex_t *m) { return m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP; }

int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!active) return 0;
    if (arena_on) heap_check((uint64_t)m, sizeof *m, true, (uint64_t)__builtin_return_address(0));
    if (!atomic_depth) point_here();
    Mx *x = mutex_of(m);
    if (x->owner == cur) {
        if (is_rec(m)) { x->count++; return 0; }
        if (m->__data.__kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
        mc::fail("deadlock", "thread %d locks a mutex it already holds", cur);
    }
    if (x->owner >= 0) {
        if (atomic_depth) mc::harness_error("lock taken inside an atomic harness region");
        T[cur].st = BMUTEX; T[cur].mx = m; choose_next(false); return 0;
    }
    x->owner = cur; x->count = 1;
    join_vc(T[cur].vc, x->vc);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!active) return 0;
    if (!atomic_depth) point_here();
    Mx *x = mutex_of(m);
    if (x->owner == cur && is_rec(m)) { x->count++; return 0; }
    if (x->owner >= 0) return EBUSY;
    x->owner = cur; x->count = 1; join_vc(T[cur].vc, x->vc);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!active) return 0;
    if (arena_on) heap_check((uint64_t)m, sizeof *m, true, (uint64_t)__builtin_return_address(0));
    Mx *x = mutex_of(m);
    if (x->owner != cur) return EPERM;
    if (--x->count) return 0;
    x->owner = -1;
    x->vc = T[cur].vc;
    T[cur].vc.c[cur]++;
    return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (active) { Mx *x = mutex_of(m); x->owner = -1; } return 0; }

static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, int64_t dl) {
    if (!active) return timed ? ETIMEDOUT : 0;
    if (arena_on) heap_check((uint64_t)c, sizeof *c, true, (uint64_t)__builtin_return_address(0));
    point_here();
    Mx *x = mutex_of(m);
    x->owner = -1; x->count = 0; x->vc = T[cur].vc; T[cur].vc.c[cur]++;
    Th &t = T[cur];
    t.st = BCOND; t.cv = c; t.mx = m; t.timed = timed; t.deadline = dl; t.wres = 0; t.seq = ++wseq;
    if (timed && dl <= mc::vclock_ns) { t.wres = ETIMEDOUT; t.st = BMUTEX; }
    choose_next(false);
    return T[cur].wres;
}
static int64_t ns(const struct timespec *t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cond_wait(c, m, true, ns(t)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return cond_wait(c, m, true, ns(t)); }
static void wake(int t) { T[t].st = BMUTEX; T[t].wres = 0; }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!active) return 0;
    if (arena_on) heap_check((uint64_t)c, sizeof *c, true, (uint64_t)__builtin_return_address(0));
    if (!atomic_depth) point_here();
    int w[MAXT], n = 0;
    for (int t = 0; t < nT; t++) if (T[t].st == BCOND && T[t].cv == c) w[n++] = t;
    if (!n) return 0;
    for (int i = 1; i < n; i++) for (int j = i; j && T[w[j]].seq < T[w[j-1]].seq; j--) { int q = w[j]; w[j] = w[j-1]; w[j-1] = q; }
    wake(w[n > 1 && !warm ? mc::choose(n) : 0]);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!active) return 0;
    if (!atomic_depth) point_here();
    for (int t = 0; t < nT; t++) if (T[t].st == BCOND && T[t].cv == c) wake(t);
    return 0;
}
int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }

static void sleep_until(int64_t dl) {
    if (!active) return;
    if (atomic_depth) { mc::vclock_ns = dl; return; }
    if (dl <= mc::vclock_ns) { point_here(); return; }
    T[cur].st = BSLEEP; T[cur].deadline = dl;
    choose_next(false);
}
int nanosleep(const struct timespec *r, struct timespec *) { sleep_until(mc::vclock_ns + ns(r)); return 0; }
int clock_nanosleep(clockid_t, int flags, const struct timespec *r, struct timespec *) { sleep_until(flags & TIMER_ABSTIME ? ns(r) : mc::vclock_ns + ns(r)); return 0; }
int usleep(useconds_t u) { sleep_until(mc::vclock_ns + u * 1000ll); return 0; }
unsigned sleep(unsigned s) { sleep_until(mc::vclock_ns + s * 1000000000ll); return 0; }
int sched_yield(void) {
    // a polite spinner: hand over to another runnable thread for free, else let time pass
    if (!active || atomic_depth) return 0;
    sleep_until(mc::vclock_ns + 1000);
    return 0;
}
int clock_gettime(clockid_t, struct timespec *ts) {
    if (active && !atomic_depth) mc::vclock_ns += 1000;
    ts->tv_sec = mc::vclock_ns / 1000000000; ts->tv_nsec = mc::vclock_ns % 1000000000; return 0;
}
int gettimeofday(struct timeval *tv, void *) { tv->tv_sec = mc::vclock_ns / 1000000000; tv->tv_usec = mc::vclock_ns % 1000000000 / 1000; return 0; }
time_t time(time_t *t) { time_t v = mc::vclock_ns / 1000000000; if (t) *t = v; return v; }
int get_nprocs(void) { return 2; }

// ---- instrumentation ---------------------------------------------------------
#define PC ((uint64_t)__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *a) { access((uint64_t)a, n, false, PC); } \
  void __tsan_write##n(void *a) { access((uint64_t)a, n, true, PC); } \
  void __tsan_unaligned_read##n(void *a) { access((uint64_t)a, n, false, PC); } \
  void __tsan_unaligned_write##n(void *a) { access((uint64_t)a, n, true, PC); } \
  void __tsan_volatile_read##n(void *a) { access((uint64_t)a, n, false, PC); } \
  void __tsan_volatile_write##n(void *a) { access((uint64_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) access((uint64_t)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { if (n) access((uint64_t)a, n, true, PC); }
// copies made by the code under test (the build maps memcpy & co. to these)
void *verif_memcpy(void *d, const void *s, size_t n) {
    if (!n) return d;
    uint64_t pc = PC;
    access((uint64_t)s, n, false, pc);
    access((uint64_t)d, n, true, pc);
    if (active && !atomic_depth && nT > 1 && in_active(pc) && n > 1) {     // a copy is not atomic
        memcpy(d, s, n / 2);
        point_here();
        memcpy((char*)d + n / 2, (const char*)s + n / 2, n - n / 2);
        return d;
    }
    return memcpy(d, s, n);
}
void *verif_memmove(void *d, const void *s, size_t n) {
    if (!n) return d;
    access((uint64_t)s, n, false, PC);
    access((uint64_t)d, n, true, PC);
    return memmove(d, s, n);
}
void *verif_memset(void *d, int v, size_t n) {
    if (!n) return d;
    access((uint64_t)d, n, true, PC);
    return memset(d, v, n);
}
int verif_memcmp(const void *a, const void *b, size_t n) {
    if (!n) return 0;
    access((uint64_t)a, n, false, PC);
    access((uint64_t)b, n, false, PC);
    return memcmp(a, b, n);
}
void __tsan_vptr_update(void **a, void *) { access((uint64_t)a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access((uint64_t)a, 8, false, PC); }

// atomics: performed sequentially; acquire+release edges through a table
struct AtVC { uint64_t a; uint32_t g; VC vc; uint16_t users; };
static AtVC AT[1024];
static void atomic_sync(uint64_t a, uint64_t pc, bool load, bool store) {
    if (!active || atomic_depth) return;
    if (nT > 1 && in_active(pc)) point_here();
    if (arena_on) heap_check(a, 1, store, pc);
    uint64_t i = (a * 0x9E3779B97F4A7C15ull) >> 54;
    for (int k = 0; k < 1024; k++, i++) {
        AtVC &x = AT[i & 1023];
        if (x.g == gen && x.a != a) continue;
        if (x.g != gen) { memset(&x, 0, sizeof x); x.g = gen; x.a = a; }
        x.users |= 1 << cur;
        if (x.users & (x.users - 1)) racy(pc);
        if (load) join_vc(T[cur].vc, x.vc);
        if (store) { join_vc(x.vc, T[cur].vc); T[cur].vc.c[cur]++; }
        return;
    }
}
#define AT_OPS(bits, ty) \
  ty __tsan_atomic##bits##_load(const volatile ty *a, int) { atomic_sync((uint64_t)a, PC, true, false); return *a; } \
  void __tsan_atomic##bits##_store(volatile ty *a, ty v, int) { atomic_sync((uint64_t)a, PC, false, true); *a = v; } \
  ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int) { atomic_sync((uint64_t)a, PC, true, true); ty o = *a; *a = v; return o; } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int) { atomic_sync((uint64_t)a, PC, true, true); ty o = *a; *a = o + v; return o; } \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int) { atomic_sync((uint64_t)a, PC, true, true); ty o = *a; *a = o - v; return o; } \
  ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int) { atomic_sync((uint64_t)a, PC, true, true); ty o = *a; *a = o & v; return o; } \
  ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int) { atomic_sync((uint64_t)a, PC, true, true); ty o = *a; *a = o | v; return o; } \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int) { atomic_sync((uint64_t)a, PC, true, true); ty o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int, int) { atomic_sync((uint64_t)a, PC, true, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int, int) { atomic_sync((uint64_t)a, PC, true, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int, int) { atomic_sync((uint64_t)a, PC, true, true); ty o = *a; if (o == c) *a = v; return o; }
AT_OPS(8, unsigned char) AT_OPS(16, unsigned short) AT_OPS(32, unsigned int) AT_OPS(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
