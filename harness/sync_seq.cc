// Which frames a filter with a frame time (rate window) or with synchronised
// inputs takes at each step: every arrival pattern of timestamps within the
// alphabet, against a reference of the windowing and synchronisation rules.
#include "filters.hh"

static const int CAP = 9;      // usable slots of each input queue

struct Fr { int id; int64_t t; };

void mc_body() {
    mc::vclock_ns = 1000000000000ll;
    StreamInfo si(VIDEO); filter_si = &si;
    const std::string mode = mc::sparam("mode", "window");
    const int depth = mc::param("depth", 6), nin = mc::param("inputs", 2);
    const int64_t T = mc::param("T", 100), M = DEFAULT_SYNC_MARGIN;
    const bool sync = mode == "sync";
    Gen f(nin, 0, REGULAR, false, sync); f.setId(2);
    const int slots = mc::param("slots", 10), cap = slots - 1;
    std::vector<std::unique_ptr<Gen>> src;
    for (int i = 1; i <= nin; i++) { src.emplace_back(new Gen(0, 1)); src.back()->setId(10 + i); src.back()->qsize = slots; }
    for (int i = 1; i <= nin; i++) if (!src[i-1]->connectManyToMany(&f, i, 1)) mc::fail("connect", "plain connection refused");
    if (!sync) f.setFrameTime(usec(T));
    std::vector<std::deque<Fr>> q(nin + 1); std::vector<Fr> last(nin + 1); std::vector<bool> any(nin + 1, false);
    std::vector<int64_t> tip(nin + 1, mc::param("t0", 0)); int64_t S = 0; int id = 1;
    int pushTo = 0; int64_t pushT = 0; bool dts = false;
    for (auto &g : src) g->body = [&](std::map<int, Frame*> &, std::map<int, Frame*> &d, std::vector<int> &, int &) {
        if (!pushTo) return;
        Frame *x = d[1]; stamp(x, id);
        if (dts) { x->setPresentationTime(usec(pushT + 33)); x->setDecodeTime(usec(pushT)); } else { x->setPresentationTime(usec(pushT)); x->setDecodeTime(usec(id % 2 ? -1 : pushT + 5)); }
        x->setConsumed(true);
    };
    bool called = false; std::map<int, int> offered; std::vector<int> nw;
    f.body = [&](std::map<int, Frame*> &o, std::map<int, Frame*> &, std::vector<int> &nf, int &) {
        called = true; offered.clear(); nw = nf; std::sort(nw.begin(), nw.end());
        for (auto &x : o) { offered[x.first] = x.second->getSequenceNumber(); bool n = std::find(nw.begin(), nw.end(), x.first) != nw.end(); MC_CHECK(x.second->getConsumed() == n, "flag", "input %d is marked %s", x.first, n ? "old" : "new"); }
    };
    // time steps between consecutive frames of an input
    std::vector<int64_t> steps;
    if (sync) { int64_t s[] = {1000, M, M + 1, 3 * M}; steps.assign(s, s + 4); }
    else { int64_t s[] = {0, T / 2 - 10, T, T + 1, 3 * T + 7}; steps.assign(s, s + 5); }
    if (mc::param("fewsteps", 0)) steps.resize(mc::param("fewsteps", 0));
    mc::Hash oh;
    for (int k = 0, ret; k < mc::param("prefill", 0); k++) {      // input 1 starts nearly full
        pushTo = 1; pushT = tip[1] += 1000; src[0]->processFrame(ret); Fr x = {id, pushT}; q[1].push_back(x); id++; pushTo = 0;
    }
    for (int d = 0; d < depth; d++) {
        int op = mc::choose(1 + nin), ret;
        if (op > 0) {
            dts = mc::param("dts", 0) && mc::flip();
            int64_t st = steps[mc::choose(steps.size())];
            pushTo = op; pushT = tip[op] + st;
            if ((int)q[op].size() == cap) { mc::prune(); }
            tip[op] = pushT;
            mc::op("input %d: frame %d at %ld", op, id, (long)pushT);
            src[op-1]->processFrame(ret);
            Fr x = {id, pushT}; q[op].push_back(x); id++; pushTo = 0;
            continue;
        }
        called = false; mc::op("process");
        f.processFrame(ret);
        // reference
        std::vector<int> take; bool run = false;
        if (!sync) {
            bool valid = false, old = false; int64_t ahead = -1;
            for (int i = 1; i <= nin; i++) if (!q[i].empty()) { take.push_back(i); int64_t t = q[i].front().t; if (t > S + T) ahead = ahead < 0 ? t : std::min(ahead, t); else if (t < S) old = true; else valid = true; }
            if (take.empty()) run = false;
            else if (valid) { run = true; S += T; }
            else if (old) run = false;
            else { run = true; S = ahead; }
        } else {
            bool empty = false; int64_t newest = 0; std::vector<int> alone, all;
            for (int i = 1; i <= nin; i++) { if (q[i].empty()) { empty = true; } else newest = std::max(newest, q[i].front().t); }
            for (int i = 1; i <= nin; i++) if (!q[i].empty()) { all.push_back(i); if ((int)q[i].size() * 10 > slots * 9 || newest - M > q[i].front().t) alone.push_back(i); }
            take = !alone.empty() ? alone : empty ? std::vector<int>() : all;
            run = !take.empty();
        }
        MC_CHECK(called == run, "called", "the filter %s (window %ld)", called ? "processed frames although none was due" : "did not process frames that were due", (long)S);
        if (called) {
            MC_CHECK(nw == take, "taken", "new frames taken from inputs %s, expected %s", ids(nw).c_str(), ids(take).c_str());
            for (int i : take) MC_CHECK(offered.count(i) && offered[i] == q[i].front().id, "order", "input %d offers frame %d, expected %d", i, offered.count(i) ? offered[i] : -1, q[i].front().id);
            if (!sync) for (int i = 1; i <= nin; i++) if (q[i].empty() && any[i]) MC_CHECK(offered.count(i) && offered[i] == last[i].id, "repeat", "input %d repeats frame %d instead of the last one, %d", i, offered.count(i) ? offered[i] : -1, last[i].id);
        }
        if (!run && called == run && !take.empty()) mc::note("frames older than the window dropped");
        for (int i : take) { last[i] = q[i].front(); any[i] = true; q[i].pop_front(); }
        for (int i = 1; i <= nin; i++) { std::shared_ptr<Reader> r = f.getReader(i); MC_CHECK(r && r->getQueueElements() == q[i].size(), "taken", "input %d keeps %zu frames, expected %zu", i, r ? r->getQueueElements() : 99, q[i].size()); }
        if (!sync) MC_CHECK(f.getSyncTs() == usec(S), "window", "the window starts at %ld, expected %ld", (long)f.getSyncTs().count(), (long)S);
        mc::Hash h; h.add(S); for (int i = 1; i <= nin; i++) { h.add(q[i].size()); for (auto &x : q[i]) h.add(x.t - S); } mc::state(h.h);
        oh.add(run).add(take.size());
    }
    mc::outcome(oh.h);
}
