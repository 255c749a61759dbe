#include "mc.hh"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <map>
#include <set>
#include <algorithm>

namespace {

const int MAXCH = 4096;         // choices per execution
const int POOLCAP = 1 << 13;    // shared stack of subtrees
const int ITEMLEN = 1024;       // longest prefix handed over
const int MAXW = 64;
const int TRACE = 1 << 16;
const uint64_t HCAP = 1ull << 24;

struct Item { int len; uint8_t ch[ITEMLEN]; };

struct WorkerShm {
    volatile uint64_t execs, ops, pruned, choices;
    volatile uint64_t heartbeat;
    volatile int len;                  // current execution's choices
    volatile int active;
    uint8_t ch[MAXCH];
    int tlen;
    char trace[TRACE];
    volatile uint64_t maxlen;
    volatile int baselen;              // prefix of the current subtree
    uint64_t known;
};

struct Viol {
    volatile int set;      // 0 none, 1 being written, 2 complete
    char key[128];
    char msg[4096];
    int len;
    uint8_t ch[MAXCH];
    char trace[TRACE];
};

struct Known { char key[128]; volatile uint64_t hits; };

struct Shm {
    volatile int lock;
    volatile int npool, idle, stop, capped, err, aux;
    volatile uint64_t nstates, noutcomes;
    volatile uint64_t table_full;
    char errmsg[1024];
    WorkerShm w[MAXW];
    Viol viol;
    int nknown;
    Known known[64];
    int nsample;
    char sample[4][4096];
    Item pool[POOLCAP];
    uint64_t htab[HCAP];
    uint64_t otab[1 << 16];
};

Shm *S;
WorkerShm *W;
int wid = 0;
int nworkers = 1;
double deadline = 0;
std::map<std::string, std::string> params;
bool g_replay = false;
std::string g_scratch;
uint64_t g_exec = 0;

// DFS state of this worker
int vec[MAXCH], lim[MAXCH];
int base, depth, pos;       // base: fixed prefix length; depth: number of valid entries
bool in_body = false;
char key_buf[128], msg_buf[4096];
void (*abort_hook)() = 0;
void (*pre_hook)() = 0, (*post_hook)() = 0;

struct Stop {};   // unwinds the body

void lock() { while (__sync_lock_test_and_set(&S->lock, 1)) { struct timespec t = {0, 2000}; syscall(SYS_nanosleep, &t, 0); } }
void unlock() { __sync_lock_release(&S->lock); }

double now() {
    struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

bool add_hash(uint64_t *tab, uint64_t cap, uint64_t h) {
    if (!h) h = 1;
    uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> 8;
    for (int probe = 0; probe < 64; probe++) {
        uint64_t k = (i + probe) & (cap - 1);
        uint64_t v = tab[k];
        if (v == h) return false;
        if (!v) {
            if (__sync_bool_compare_and_swap(&tab[k], 0, h)) return true;
            if (tab[k] == h) return false;
        }
    }
    S->table_full++;
    return false;
}

void vtrace(const char *pre, const char *fmt, va_list ap) {
    int n = W->tlen;
    if (n > TRACE - 512) return;
    n += snprintf(W->trace + n, TRACE - n, "%s", pre);
    int k = vsnprintf(W->trace + n, TRACE - n - 2, fmt, ap);
    if (k > TRACE - n - 2) k = TRACE - n - 3;
    n += k;
    W->trace[n++] = '\n';
    W->trace[n] = 0;
    W->tlen = n;
}

void record_violation(const char *key, const char *msg) {
    for (int i = 0; i < S->nknown; i++)
        if (!strcmp(S->known[i].key, key)) { __sync_fetch_and_add(&S->known[i].hits, 1); return; }
    lock();
    if (!S->viol.set) {
        S->viol.set = 1;
        snprintf(S->viol.key, sizeof S->viol.key, "%s", key);
        snprintf(S->viol.msg, sizeof S->viol.msg, "%s", msg);
        S->viol.len = W->len;
        memcpy(S->viol.ch, (const void*)W->ch, W->len);
        memcpy(S->viol.trace, W->trace, TRACE);
        S->viol.set = 2;
        S->stop = 1;
    }
    unlock();
}

enum Res { DONE, VIOL, PRUNED };
Res result;

Res run_once() {
    W->len = 0; W->tlen = 0; W->trace[0] = 0; W->active = 1;
    pos = 0; in_body = true; result = DONE;
    mc::vclock_ns = 1000000000000000000ll;
    if (pre_hook) pre_hook();
    try { mc_body(); } catch (Stop &) {}
    if (post_hook) post_hook();
    in_body = false;
    W->active = 0;
    W->heartbeat++;
    g_exec++;
    return result;
}

bool pop(Item &it) {
    bool idle = false;
    for (;;) {
        lock();
        if (S->stop) { unlock(); return false; }
        if (S->npool > 0) {
            it = S->pool[--S->npool];
            if (idle) S->idle--;
            unlock();
            return true;
        }
        if (!idle) { S->idle++; idle = true; }
        bool fin = S->idle == nworkers;
        if (fin) S->stop = 2;
        unlock();
        if (fin) return false;
        W->heartbeat++;
        struct timespec t = {0, 200000}; syscall(SYS_nanosleep, &t, 0);
    }
}

void share() {
    // hand the shallowest unexplored alternatives of our DFS stack to the others
    if (S->idle == 0 || S->npool >= nworkers * 2) return;
    for (int i = base; i < depth && i < ITEMLEN; i++) {
        if (vec[i] < lim[i] - 1) {
            lock();
            for (int a = lim[i] - 1; a > vec[i] && S->npool < POOLCAP - 1; a--) {
                Item &it = S->pool[S->npool++];
                it.len = i + 1;
                for (int k = 0; k < i; k++) it.ch[k] = vec[k];
                it.ch[i] = a;
                lim[i] = a;
            }
            unlock();
            return;
        }
    }
}

void sample() {
    if (S->nsample >= 3) return;
    lock();
    if (S->nsample < 3) {
        int k = S->nsample;
        snprintf(S->sample[k], sizeof S->sample[k], "%.*s", (int)sizeof(S->sample[k]) - 1, W->trace);
        S->nsample = k + 1;
    }
    unlock();
}

void explore(const Item &it) {
    for (int i = 0; i < it.len; i++) { vec[i] = it.ch[i]; lim[i] = vec[i] + 1; }
    base = it.len; depth = it.len;
    W->baselen = base;
    for (;;) {
        if (S->stop) return;
        Res r = run_once();
        W->execs++;
        if (r == PRUNED) W->pruned++;
        if ((uint64_t)pos > W->maxlen) W->maxlen = pos;
        if (r == DONE) {
            uint64_t e = W->execs;
            if ((e & (e - 1)) == 0 && e >= 4 && S->nsample < 3) sample();
        }
        if (pos < base) { // the replayed prefix was not consumed: nondeterminism
            snprintf(S->errmsg, sizeof S->errmsg, "execution ended before its replayed prefix (%d < %d): uncontrolled nondeterminism", pos, base);
            S->err = 1; S->stop = 1; return;
        }
        depth = pos;
        int i = depth - 1;
        while (i >= base && vec[i] >= lim[i] - 1) i--;
        if (i < base) return;
        vec[i]++;
        depth = i + 1;
        if (deadline && (W->execs & 15) == 0 && now() > deadline) { S->capped = 1; S->stop = 1; return; }
        share();
    }
}

void child_main() {
    mc_setup();
    Item it;
    while (pop(it)) explore(it);
    if (!g_scratch.empty()) { std::string c = "rm -rf '" + g_scratch + "'"; if (g_scratch.compare(0, 12, "/tmp/verifmc") == 0 && system(c.c_str())) {} }
    fflush(stdout); fflush(stderr);
    _exit(0);
}

std::string jesc(const char *s) {
    std::string o;
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

} // namespace

namespace mc {
int64_t vclock_ns = 1000000000000000000ll;

static bool g_warm = false;
void internal_warm(bool w) { g_warm = w; }
int choose(int n) {
    if (g_warm) return 0;
    if (n <= 1) { if (n < 1) harness_error("choose(%d)", n); return 0; }
    if (!in_body) harness_error("choose outside the body");
    if (n > 255) harness_error("choose: menu of %d", n);
    if (pos >= MAXCH) harness_error("more than %d choices in an execution", MAXCH);
    W->choices++;
    if (pos < depth) {
        if (pos < base) {
            if (vec[pos] >= n) {
                snprintf(S->errmsg, sizeof S->errmsg, "replayed choice %d out of range %d at %d: uncontrolled nondeterminism", vec[pos], n, pos);
                S->err = 1; S->stop = 1; _exit(3);
            }
        } else if (vec[pos] >= n) {
            snprintf(S->errmsg, sizeof S->errmsg, "choice %d out of range %d at %d: uncontrolled nondeterminism", vec[pos], n, pos);
            S->err = 1; S->stop = 1; _exit(3);
        }
    } else {
        vec[pos] = 0; lim[pos] = n; depth = pos + 1;
    }
    W->ch[pos] = vec[pos];
    W->len = pos + 1;
    return vec[pos++];
}

void op(const char *fmt, ...) { if (g_warm) return; va_list ap; va_start(ap, fmt); vtrace("", fmt, ap); va_end(ap); W->ops++; }
void note(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vtrace("  # ", fmt, ap); va_end(ap); }
void state(uint64_t h) { if (!g_warm && add_hash(S->htab, HCAP, h)) __sync_fetch_and_add(&S->nstates, 1); }
void outcome(uint64_t h) { if (!g_warm && add_hash(S->otab, 1 << 16, h)) __sync_fetch_and_add(&S->noutcomes, 1); }

static void leave() {
    if (abort_hook) abort_hook();
    throw Stop();
}

void fail(const char *key, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(msg_buf, sizeof msg_buf, fmt, ap);
    va_end(ap);
    result = VIOL;
    if (!g_warm) record_violation(key, msg_buf);
    leave();
    __builtin_unreachable();
}
bool known(const char *key) {
    for (int i = 0; i < S->nknown; i++)
        if (!strcmp(S->known[i].key, key)) { if (!g_warm) __sync_fetch_and_add(&S->known[i].hits, 1); return true; }
    return false;
}
void prune() { result = PRUNED; leave(); __builtin_unreachable(); }

void harness_error(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (S) { vsnprintf(S->errmsg, sizeof S->errmsg, fmt, ap); S->err = 1; S->stop = 1; }
    va_end(ap);
    fprintf(stderr, "harness error: %s\n", S ? S->errmsg : fmt);
    _exit(3);
}

long param(const char *n, long d) { std::map<std::string, std::string>::iterator i = params.find(n); return i == params.end() ? d : atol(i->second.c_str()); }
std::string sparam(const char *n, const char *d) { std::map<std::string, std::string>::iterator i = params.find(n); return i == params.end() ? std::string(d) : i->second; }
bool replaying() { return g_replay; }
int worker() { return wid; }
uint64_t execution() { return g_exec; }
const std::string &scratch() {
    if (g_scratch.empty()) {
        const char *tag = getenv("VERIFMC_TAG");   // tells the scratch folders of this check from those of others that run meanwhile
        char b[96]; snprintf(b, sizeof b, "/tmp/verifmc.%.24s%sXXXXXX", tag ? tag : "", tag ? "." : "");
        if (!mkdtemp(b)) harness_error("mkdtemp: %s", strerror(errno));
        g_scratch = b;
    }
    return g_scratch;
}
void internal_set_abort_hook(void (*h)()) { abort_hook = h; }
bool internal_in_body() { return in_body; }
void internal_new_point_hook(void (*a)(), void (*b)()) { pre_hook = a; post_hook = b; }
}

extern void *mc_shared_aux;       // for the scheduler: region inherited by the workers
void *mc_shared_aux = 0;
__attribute__((weak)) int sched_dump(char *, size_t) { return 0; }
__attribute__((weak)) void sched_load(const char *) {}
void (*mc_parent_hook)() = 0;      // run once before any worker starts
int (*mc_restart_hook)() = 0;     // returns non-zero when the whole exploration must be repeated

static void explore_all(double budget, double hang) {
    Shm *s = S;
    s->npool = 0; s->idle = 0; s->stop = 0;
    s->pool[0].len = 0; s->npool = 1;
    (void)budget;
    std::vector<pid_t> pid(nworkers);
    for (int i = 0; i < nworkers; i++) {
        fflush(stdout); fflush(stderr);
        pid[i] = fork();
        if (pid[i] == 0) {
            wid = i; W = &s->w[i];
            char b[64];
            snprintf(b, sizeof b, "%s.err%d", params["__out"].c_str(), i);
            int fd = open(b, O_CREAT | O_TRUNC | O_WRONLY, 0644);
            if (fd >= 0) { dup2(fd, 2); close(fd); }
            fd = open("/dev/null", O_WRONLY);
            if (fd >= 0) { dup2(fd, 1); close(fd); }
            child_main();
        }
        if (pid[i] < 0) { perror("fork"); exit(3); }
    }
    std::vector<uint64_t> hb(nworkers, 0);
    std::vector<double> last(nworkers, now());
    int alive = nworkers;
    while (alive) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            int k = -1;
            for (int i = 0; i < nworkers; i++) if (pid[i] == p) k = i;
            if (k < 0) continue;
            pid[k] = 0; alive--;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (s->err || (s->stop && !s->w[k].active)) { s->stop = 1; continue; }
            // crash inside an execution
            W = &s->w[k];
            char msg[4000];
            int n = 0;
            if (WIFSIGNALED(st)) n = snprintf(msg, sizeof msg, "process ended by signal %d (%s)\n", WTERMSIG(st), strsignal(WTERMSIG(st)));
            else n = snprintf(msg, sizeof msg, "process exited with status %d\n", WEXITSTATUS(st));
            char b[64];
            snprintf(b, sizeof b, "%s.err%d", params["__out"].c_str(), k);
            FILE *f = fopen(b, "r");
            if (f) {
                char line[512];
                bool start = false; int lines = 0;
                while (fgets(line, sizeof line, f) && lines < 24) {
                    if (strstr(line, "ERROR: AddressSanitizer") || strstr(line, "terminate called") || strstr(line, "SUMMARY")) start = true;
                    if (start && n < (int)sizeof msg - 520) { n += snprintf(msg + n, sizeof msg - n, "%s", line); lines++; }
                }
                fclose(f);
            }
            if (s->w[k].active) record_violation("crash", msg);
            else { snprintf(s->errmsg, sizeof s->errmsg, "worker died outside an execution: %.900s", msg); s->err = 1; }
            s->stop = 1;
            continue;
        }
        double t = now();
        for (int i = 0; i < nworkers; i++) {
            if (!pid[i]) continue;
            if (s->w[i].heartbeat != hb[i]) { hb[i] = s->w[i].heartbeat; last[i] = t; }
            else if (s->w[i].active && t - last[i] > hang) {
                kill(pid[i], SIGKILL);
                W = &s->w[i];
                char msg[256];
                snprintf(msg, sizeof msg, "the execution did not finish within %.0f s", hang);
                record_violation("hang", msg);
                s->stop = 1;
                last[i] = t + 1000;
            } else if (s->stop == 1 && !s->w[i].active && t - last[i] > hang) kill(pid[i], SIGKILL);
        }
        struct timespec ts = {0, 2000000}; syscall(SYS_nanosleep, &ts, 0);
    }
}

__attribute__((weak)) void mc_setup() {}

int main(int argc, char **argv) {
    double budget = 0, hang = 60;
    std::string out = "/tmp/mc.out", replay, auxarg;
    std::vector<std::string> knowns;
    nworkers = (int)sysconf(_SC_NPROCESSORS_ONLN);
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--workers") nworkers = atoi(argv[++i]);
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--hang") hang = atof(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--aux") auxarg = argv[++i];
        else if (a == "--known") knowns.push_back(argv[++i]);
        else if (a == "--p") { std::string p = argv[++i]; size_t e = p.find('='); params[p.substr(0, e)] = p.substr(e + 1); }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    params["__out"] = out;
    if (nworkers > MAXW) nworkers = MAXW;
    S = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 3; }
    mc_shared_aux = mmap(0, 1 << 22, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (size_t i = 0; i < knowns.size() && i < 64; i++) { snprintf(S->known[i].key, 128, "%s", knowns[i].c_str()); S->nknown++; }
    double t0 = now();
    g_replay = !replay.empty();
    if (mc_parent_hook) mc_parent_hook();

    if (!replay.empty()) {
        // choices as comma separated list in a file
        FILE *f = fopen(replay.c_str(), "r");
        if (!f) { perror(replay.c_str()); return 3; }
        std::vector<int> c; int v;
        while (fscanf(f, "%d%*[, \n]", &v) == 1) c.push_back(v);
        fclose(f);
        W = &S->w[0];
        if (!auxarg.empty()) sched_load(auxarg.c_str());
        pid_t p = fork();
        if (p == 0) {
            alarm((unsigned)hang);
            mc_setup();
            for (size_t i = 0; i < c.size(); i++) { vec[i] = c[i]; lim[i] = c[i] + 1; }
            base = depth = c.size();
            Res r = run_once();
            if (!g_scratch.empty() && g_scratch.compare(0, 12, "/tmp/verifmc") == 0) { std::string cc = "rm -rf '" + g_scratch + "'"; if (system(cc.c_str())) {} }
            if (r == VIOL && !S->viol.set) S->viol.set = 3;
            fflush(stdout);
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        printf("%s", S->w[0].trace);
        if (S->err) { printf("ERROR %s\n", S->errmsg); return 3; }
        if (WIFSIGNALED(st) || WEXITSTATUS(st)) {
            if (WIFSIGNALED(st)) printf("REPRODUCED crash: signal %d\n", WTERMSIG(st)); else printf("REPRODUCED crash: exit %d\n", WEXITSTATUS(st));
            return 1;
        }
        if (S->viol.set) { printf("REPRODUCED %s: %s\n", S->viol.key, S->viol.msg); return 1; }
        printf("NOT REPRODUCED\n");
        return 0;
    }

    deadline = budget > 0 ? t0 + budget : 0;
    int rounds = 0;
    for (;;) {
        rounds++;
        explore_all(budget, hang);
        if (S->err || S->viol.set || S->capped) break;
        if (mc_restart_hook && mc_restart_hook()) {
            // scheduling points were still being discovered: repeat with the larger set
            for (int i = 0; i < nworkers; i++) { S->w[i].execs = S->w[i].ops = S->w[i].pruned = S->w[i].choices = 0; S->w[i].maxlen = 0; S->w[i].active = 0; }
            for (int i = 0; i < S->nknown; i++) S->known[i].hits = 0;
            continue;
        }
        break;
    }

    uint64_t execs = 0, ops = 0, pruned = 0, choices = 0, ml = 0;
    for (int i = 0; i < nworkers; i++) {
        execs += S->w[i].execs; ops += S->w[i].ops; pruned += S->w[i].pruned; choices += S->w[i].choices;
        ml = std::max<uint64_t>(ml, (uint64_t)S->w[i].maxlen);
        char b[256]; snprintf(b, sizeof b, "%s.err%d", out.c_str(), i); if (!S->viol.set && !S->err) unlink(b);
    }
    FILE *f = fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 3; }
    fprintf(f, "{\"executions\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"choices\":%llu,\"states\":%llu,\"outcomes\":%llu,\"max_choices\":%llu,\"rounds\":%d,\"capped\":%s,\"table_full\":%llu,\"wall_s\":%.2f",
        (unsigned long long)execs, (unsigned long long)ops, (unsigned long long)pruned, (unsigned long long)choices,
        (unsigned long long)S->nstates, (unsigned long long)S->noutcomes, (unsigned long long)ml, rounds,
        S->capped ? "true" : "false", (unsigned long long)S->table_full, now() - t0);
    fprintf(f, ",\"samples\":[");
    for (int i = 0; i < S->nsample; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(S->sample[i]).c_str());
    fprintf(f, "],\"known\":{");
    for (int i = 0; i < S->nknown; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", jesc(S->known[i].key).c_str(), (unsigned long long)S->known[i].hits);
    fprintf(f, "}");
    int rc = 0;
    if (S->err) { fprintf(f, ",\"error\":\"%s\"", jesc(S->errmsg).c_str()); rc = 3; fprintf(stderr, "ERROR: %s\n", S->errmsg); }
    else if (S->viol.set) {
        fprintf(f, ",\"violation\":{\"key\":\"%s\",\"msg\":\"%s\",\"choices\":[", jesc(S->viol.key).c_str(), jesc(S->viol.msg).c_str());
        for (int i = 0; i < S->viol.len; i++) fprintf(f, "%s%d", i ? "," : "", S->viol.ch[i]);
        static char aux[1 << 19];
        sched_dump(aux, sizeof aux);
        fprintf(f, "],\"aux\":\"%s\",\"trace\":\"%s\"}", jesc(aux).c_str(), jesc(S->viol.trace).c_str());
        rc = 1;
    }
    fprintf(f, "}\n");
    fclose(f);
    // cleanup of scratch dirs left by killed workers is done by the driver
    return rc;
}
