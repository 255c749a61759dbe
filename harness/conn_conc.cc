// Connecting, sharing and disconnecting while the filters at both ends are
// being processed by other threads: every schedule within the bound.  Memory
// that is used after being released, deadlocks and lost connections show up as
// violations; the data passing through must be intact.
#include "filters.hh"
#include "sched.hh"

static Gen *mkg(int id, int r, int w, bool sync = false) { Gen *g = new Gen(r, w, REGULAR, false, sync); sched::Atomic a; g->setId(id); return g; }

void sched_body() {
    const std::string mode = mc::sparam("mode", "connect");
    const int n = mc::param("frames", 2);
    const bool sync = mc::param("sync", 0), ft = mc::param("frametime", 0);
    { sched::Atomic a; filter_si = new StreamInfo(VIDEO); SmallQueue::live = 0; routed_events.clear(); route_hook = nullptr; }
    const bool shared = mode == "share" || mode == "leave" || mode == "leaveall", two = mode == "events";
    Gen *W = mkg(1, 0, 2), *R = mkg(2, 2, 0, sync), *R2 = shared ? mkg(3, 2, 0) : NULL, *W2 = shared && mc::param("busy", 0) ? mkg(4, 0, 1) : NULL;   // busy: the sharing filter has other work
    std::vector<Gen*> all; { sched::Atomic a; all.push_back(W); all.push_back(R); if (R2) all.push_back(R2); }
    if (ft) R->setFrameTime(usec(100000));
    static int inside[4]; for (int &x : inside) x = 0;       // filters whose processing step is under way
    { sched::Atomic a; conf_hook = [](int id) { sched::Atomic a; if (inside[id & 3]) mc::fail("configured", "a port of filter %d is set up or removed while the filter is processing", id); }; }
    int seq = 1; std::map<int, std::vector<int>> got;      // filter -> frames, any reader
    W->body = [&](std::map<int, Frame*> &, std::map<int, Frame*> &d, std::vector<int> &, int &) {
        inside[1] = 1;
        for (auto &x : d) {
            int s; { sched::Atomic a; s = seq++; }
            stamp(x.second, s); sched::point();
            { sched::Atomic a; if (!stamped(x.second, s)) mc::fail("overwritten", "frame %d changed while it is being produced", s); }
            x.second->setConsumed(true);
            { sched::Atomic a; mc::op("frame %d on writer %d", s, x.first); }
        }
        inside[1] = 0;
    };
    auto consume = [&](int fid, Gen *me) {
        return [&, fid, me](std::map<int, Frame*> &o, std::map<int, Frame*> &, std::vector<int> &nf, int &) {
            inside[fid] = 1;
            for (int id : nf) {
                Frame *f = o[id]; int v = f->getSequenceNumber();
                { sched::Atomic a; if (!stamped(f, v)) mc::fail("content", "filter %d obtains a damaged frame", fid); }
                sched::point();
                { sched::Atomic a; if ((int)f->getSequenceNumber() != v || !stamped(f, v)) mc::fail("overwritten", "frame %d changed while filter %d reads it", v, fid);
                  got[fid].push_back(v); mc::op("filter %d obtains %d", fid, v); }
                if (two) me->sendEvent(Event(Jzon::Object(), std::chrono::system_clock::now()), id);
            }
            inside[fid] = 0;
        };
    };
    { sched::Atomic a; got[2].reserve(16); got[3].reserve(16); }
    R->body = consume(2, R); if (R2) R2->body = consume(3, R2);
    if (W2) { W2->body = [](std::map<int, Frame*> &, std::map<int, Frame*> &d, std::vector<int> &, int &) { for (auto &x : d) { stamp(x.second, 100); x.second->setConsumed(true); } }; int ret; if (!W2->connectManyToMany(R2, 2, 1)) mc::fail("connect", "plain connection refused"); W2->processFrame(ret); }
    if (two) { sched::Atomic a; route_hook = [W](Event e, int id) { if (id == 1) W->pushEvent(e); }; }
    if (mode != "connect") if (!W->connectManyToMany(R, 1, 1)) mc::fail("connect", "plain connection refused");
    if (mode == "leave" || mode == "leaveall") if (!R->shareReader(R2, 1, 1)) mc::fail("connect", "plain sharing refused");
    // some content before the race starts
    int ret; if (mode != "connect" && mc::param("pre", 1)) W->processFrame(ret);
    std::vector<std::thread> th;
    for (Gen *g : all) th.emplace_back([g, n] { int ret; for (int i = 0; i < n; i++) g->processFrame(ret); });
    int variant = 0;
    bool wgone = false, rgone = false, r2gone = false, r2 = mode == "leave" || mode == "leaveall";
    if (mode == "connect") {
        if (!W->connectManyToMany(R, 1, 1)) mc::fail("connect", "connecting two free ends failed");
        sched::Atomic a; mc::op("connected");
    } else if (mode == "off") {
        variant = mc::choose(4);
        if (variant == 0 || variant == 2) { W->disconnectWriter(1); wgone = true; sched::Atomic a; mc::op("writer disconnected"); }
        if (variant != 0) { R->disconnectReader(1); rgone = true; sched::Atomic a; mc::op("reader disconnected"); }
        if (variant == 3) { W->disconnectWriter(1); wgone = true; sched::Atomic a; mc::op("writer disconnected"); }
    } else if (mode == "share") {
        if (!R->shareReader(R2, 1, 1)) mc::fail("share", "sharing a connected reader failed");
        r2 = true;
        sched::Atomic a; mc::op("shared");
    } else if (mode == "leave") {
        variant = mc::choose(2);
        if (variant == 0) { R2->disconnectReader(1); r2 = false; r2gone = true; } else { R->disconnectReader(1); rgone = true; }
        sched::Atomic a; mc::op("filter %d leaves", variant ? 2 : 3);
    } else if (mode == "leaveall") {
        R2->disconnectReader(1); R->disconnectReader(1); rgone = r2gone = true; r2 = false;
    } else if (mode == "events") {
        if (!W->connectManyToMany(R, 2, 2)) mc::fail("connect", "connecting two free ends failed");
    } else if (mode == "query") {                       // the control thread only looks
        for (int i = 0; i < 2; i++) { R->isRConnected(1); W->isWConnected(1); W->getWConnectionData(1); R->getAvgReaderDelay(1); R->getLostBlocs(1); ((Runnable*)R)->pendingJobs(); }
    } else if (mode == "reconnect") {
        W->disconnectWriter(1); R->disconnectReader(1);
        if (!W->connectManyToMany(R, 1, 1)) mc::fail("connect", "connecting two ends that were released failed");
    } else mc::harness_error("mode");
    for (auto &t : th) t.join();
    // what is connected still works, what is not is gone
    bool wc = !wgone && !(rgone && (mode != "leave" )), any = wc;
    if (W->isWConnected(1) != any) mc::fail("state", "the writer reports %s", any ? "disconnected" : "connected");
    if (R->isRConnected(1) != (any && !rgone)) mc::fail("state", "the reader reports %s", any && !rgone ? "disconnected" : "connected");
    if (R2 && R2->isRConnected(1) != r2) mc::fail("state", "the shared reader reports %s", r2 ? "disconnected" : "connected");
    for (int i = 0; i < 8; i++) { R->processFrame(ret); if (R2) R2->processFrame(ret); }
    size_t a2, a3; int s0; { sched::Atomic a; a2 = got[2].size(); a3 = got[3].size(); s0 = seq; }
    W->processFrame(ret); 
    for (int i = 0; i < 3; i++) { R->processFrame(ret); if (R2) R2->processFrame(ret); }
    {
        sched::Atomic a;
        size_t want = any && !rgone ? (two ? 2 : 1) : 0;
        if (got[2].size() - a2 != want) mc::fail("flow", "%zu frames reached filter 2 after the change, expected %zu", got[2].size() - a2, want);
        if (R2 && got[3].size() - a3 != (r2 ? 1u : 0u)) mc::fail("flow", "%zu frames reached filter 3 after the change", got[3].size() - a3);
        int live = (any ? (two ? 2 : 1) : 0) + (W2 != NULL);
        if (SmallQueue::live != live) mc::fail("queues", "%d queues alive, %d connections", SmallQueue::live, live);
        mc::Hash h; h.add(variant).add(got[2].size()).add(got[3].size()).add(s0).add(routed_events.size()); for (int v : got[2]) h.add(v); for (int v : got[3]) h.add(v);
        mc::outcome(h.h); mc::state(h.h);
    }
    for (Gen *g : all) delete g;
    delete W2;
    sched::Atomic a;
    if (SmallQueue::live) mc::fail("queues", "%d queues left after the filters are gone", SmallQueue::live);
}
