// The worker pool: every schedule (within the bound) of worker threads running
// tasks that enable each other, re-arm themselves with delays, are added and
// removed while others run, and of stopping the pool.
#include "common.hh"
#include "sched.hh"
#include "WorkersPool.hh"

struct Task;
static std::vector<Task*> *tasks;
static bool poke;              // tasks are enabled without giving them pending input

struct Task : public Runnable {
    int key, work, done, inside; int64_t due; int64_t delay; std::vector<int> next; int slow; bool removed; long started, enabled; static long tick;
    Task(int k) : key(k), work(0), done(0), inside(0), due(0), delay(0), slow(0), removed(false), started(0), enabled(0) { setId(k); }
    bool pendingJobs() { sched::Atomic a; if (removed) mc::fail("used-after-removal", "task %d is used after its removal", key); return work > 0; }
    std::vector<int> processFrame(int &ret) {
        {
            sched::Atomic a;
            if (removed) mc::fail("ran-after-removal", "task %d runs after its removal", key);
            if (inside) mc::fail("overlap", "task %d runs in two threads at once", key);
            if (mc::vclock_ns < due) mc::fail("early", "task %d runs %ld us before it is due", key, (long)((due - mc::vclock_ns) / 1000));
            inside = 1; started = ++tick;
        }
        if (slow) std::this_thread::sleep_for(std::chrono::microseconds(slow)); else sched::point();
        sched::Atomic a;
        std::vector<int> r;
        mc::op("task %d runs (work %d)", key, work);
        if (work > 0) {
            work--; done++;
            for (int n : next) { for (Task *t : *tasks) if (t && t->key == n) { if (!poke) t->work++; t->enabled = ++tick; } r.push_back(n); }
        }
        inside = 0;
        ret = delay;
        due = mc::vclock_ns + delay * 1000ll;
        return r;
    }
};

long Task::tick;
static Task *mk(int k, int work, int64_t delay, std::vector<int> next, int slow = 0) {
    Task *t = new Task(k); t->work = work; t->delay = delay; t->next = next; t->slow = slow; t->due = 0;
    sched::Atomic a; tasks->push_back(t); return t;
}
static void finish(WorkersPool *p) {
    int64_t t = sched::idle_ns();
    p->stop();
    sched::Atomic a;
    mc::op("stopped");
    for (Task *k : *tasks) if (k && k->inside) mc::fail("running-after-stop", "task %d is still running after stop", k->key);
    if (sched::idle_ns() - t > 500000000ll) mc::fail("slow-stop", "stopping took %ld ms", (long)((sched::idle_ns() - t) / 1000000));
}
static void settle(int ms) { sched::settle(ms * 1000000ll); }
static void alldone(std::vector<int> want) {
    sched::Atomic a;
    mc::Hash h;
    for (size_t i = 0; i < want.size(); i++) {
        Task *t = (*tasks)[i];
        if (t && want[i] >= 0 && (t->done != want[i] || t->work)) mc::fail("lost-work", "task %d did %d of %d units; %d left undone", t->key, t->done, want[i], t->work);
        if (t && t->enabled > t->started) mc::fail("lost-enabling", "task %d never runs after it was enabled", t->key);
        if (t) h.add(t->done);
    }
    h.add((mc::vclock_ns / 1000000) % 1000000); mc::state(h.h);
}

void sched_body() {
    std::string mode = mc::sparam("mode", "chain");
    int threads = mc::param("threads", 2);
    { sched::Atomic a; tasks = new std::vector<Task*>(); poke = mode == "poke"; Task::tick = 0; }
    WorkersPool *p = new WorkersPool(threads);
    if (mode == "chain") {               // 1 feeds 2, 2 feeds 3
        mk(1, 2, mc::param("delay", 0), {2}); mk(2, 0, 0, {3}); mk(3, 0, 0, {});
        for (int i = 3; i >= 1; i--) MC_CHECK(p->addTask((*tasks)[i-1]), "add", "task refused");
        settle(100); alldone({2, 2, 2}); finish(p);
    } else if (mode == "poke") {         // enabled by others while idle, queued or running, without pending input
        mk(1, 2, 0, {3}); mk(2, 1, 0, {3}); mk(3, 0, mc::param("delay", 0), {}, mc::param("slow", 0));
        for (int i = 1; i <= 3; i++) MC_CHECK(p->addTask((*tasks)[i-1]), "add", "task refused");
        settle(100); alldone({2, 1, 0}); finish(p);
    } else if (mode == "fan") {          // two producers feed one consumer
        mk(1, 2, 0, {3}); mk(2, 1, 0, {3}); mk(3, 0, 0, {});
        for (int i = 1; i <= 3; i++) MC_CHECK(p->addTask((*tasks)[i-1]), "add", "task refused");
        settle(100); alldone({2, 1, 3}); finish(p);
    } else if (mode == "delay") {        // re-armed with a delay
        mk(1, 2, 5000, {}); mk(2, 2, 2000, {1});
        for (int i = 1; i <= 2; i++) MC_CHECK(p->addTask((*tasks)[i-1]), "add", "task refused");
        settle(200); alldone({4, 2}); finish(p);
    } else if (mode == "remove") {       // removed (and destroyed) while queued, running or idle
        Task *x = mk(1, 3, mc::param("delay", 0), {2}, mc::param("slow", 0)); mk(2, 0, 0, {});
        { sched::Atomic a; }
        p->addTask((*tasks)[1]); p->addTask(x);
        if (mc::param("wait", 0)) settle(mc::param("wait", 0));
        bool ok = p->removeTask(1);
        { sched::Atomic a; mc::op("removed"); MC_CHECK(ok, "remove", "removal of a known task failed"); if (x->inside) mc::fail("running-after-removal", "removal returned while the task runs"); x->removed = true; (*tasks)[0] = NULL; }
        delete x;
        MC_CHECK(!p->removeTask(1), "remove", "removal of an unknown task succeeded");
        if (mc::param("readd", 0)) {
            Task *y = mk(1, 1, 0, {2});
            MC_CHECK(p->addTask(y), "add", "task refused");
        }
        settle(100);
        Task *t2 = (*tasks)[1];
        { sched::Atomic a; if (t2->work) mc::fail("lost-work", "task 2 left %d units undone", t2->work);
          if (mc::param("readd", 0)) { Task *y = (*tasks)[2]; if (y->done != 1) mc::fail("lost-work", "the new task 1 did %d of 1 units", y->done); }
          mc::outcome(t2->done); mc::state(t2->done); }
        finish(p);
    } else if (mode == "stop") {         // stop at any moment, with a task due far in the future
        mk(1, 5, 2000 * 1000000, {2}); mk(2, 0, 0, {});
        for (int i = 1; i <= 2; i++) p->addTask((*tasks)[i-1]);
        finish(p);
        settle(50);
    } else if (mode == "destroy") {      // destruction stops
        mk(1, 1, 0, {}); p->addTask((*tasks)[0]);
        delete p; p = NULL;
        sched::Atomic a; if (sched::live_threads() != 1) mc::fail("threads", "worker threads survive the pool");
    } else if (mode == "admin") {        // two control threads add the same identifier
        Task *a1 = mk(1, 1, 0, {}), *a2 = mk(1, 1, 0, {});
        bool r1 = false, r2 = false;
        std::thread c([&] { bool r = p->addTask(a2); sched::Atomic a; r2 = r; });
        { bool r = p->addTask(a1); sched::Atomic a; r1 = r; }
        c.join();
        settle(100);
        sched::Atomic a;
        if (r1 == r2) mc::fail("add", "two tasks with the same identifier: %d %d", r1, r2);
        if (a1->done != (r1 ? 1 : 0) || a2->done != (r2 ? 1 : 0)) mc::fail("lost-work", "the accepted task must run, the refused one must not");
        Task *neg = new Task(-1);
        if (p->addTask(neg)) mc::fail("add", "a task without identifier was accepted");
    }
    if (p) { finish(p); delete p; }
    sched::Atomic a;
    mc::Hash h; for (Task *t : *tasks) if (t) h.add(t->done); h.add(mc::vclock_ns / 100000000); mc::outcome(h.h);
}
