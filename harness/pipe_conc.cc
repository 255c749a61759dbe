// The pipeline while it runs: the control thread adds and removes filters and
// paths, sends events and stops, while the workers of the real pool move frames
// and filters send events upstream.  Every schedule within the bound.
#define VERIF_REAL_PIPELINE
#include "pipe_stubs.hh"
#include "filters.hh"
#include "sched.hh"

struct Seen { int alive, emitted, marks[8]; std::map<int, std::vector<int>> got; };
static Seen *seen; static int upstream, ahead;
static void put(Frame *f, unsigned v) { unsigned w[2] = {v, ~v}; memcpy(f->getDataBuf(), w, 8); f->setLength(8); f->setConsumed(true); f->setPresentationTime(usec(v)); }
static bool get(Frame *f, unsigned &v) { unsigned w[2]; if (f->getLength() != 8) return false; memcpy(w, f->getDataBuf(), 8); v = w[0]; return w[1] == ~v; }
#define STUB(S, B, ...) S::S(FilterType t) : B(__VA_ARGS__) { fType = t; BaseFilter::setSync(false); eventMap["mark"] = [this](Jzon::Node*) { sched::Atomic a; seen->marks[getId() & 7]++; return true; }; sched::Atomic a; seen->alive++; } \
    S::~S() { sched::Atomic a; seen->alive--; } \
    FrameQueue *S::allocQueue(ConnectionData c) { sched::Atomic a; return new SmallQueue(c, filter_si, 4); } \
    void S::doGetState(Jzon::Object &o) { }
STUB(StubHead, HeadFilter, 2)
STUB(StubMid, OneToOneFilter)
STUB(StubTail, TailFilter, 2)
STUB(StubMixer, ManyToOneFilter, 2)
STUB(StubSplit, OneToManyFilter, 2)
bool StubHead::doProcessFrame(std::map<int, Frame*> &d, int &ret) {
    ret = 4000; if (d.empty()) return false;
    int v; { sched::Atomic a; if (seen->emitted >= ahead) return false; v = ++seen->emitted; mc::op("source %d writes %d to %zu", getId(), v, d.size()); }
    for (auto &x : d) put(x.second, v); return true; }
bool StubMid::doProcessFrame(Frame *o, Frame *d) { unsigned v; if (!get(o, v)) mc::fail("content", "filter %d receives a damaged frame", getId()); put(d, v); return true; }
bool StubTail::doProcessFrame(std::map<int, Frame*> &o, std::vector<int> n, int &) {
    for (int i : n) { unsigned v; if (!get(o[i], v)) mc::fail("content", "filter %d receives a damaged frame", getId());
        if (upstream) { Jzon::Object e; { sched::Atomic a; e.Add("action", "mark"); Jzon::Object p; e.Add("params", p); } sendEvent(Event(e, std::chrono::system_clock::now()), i); }
        sched::Atomic a; seen->got[getId()].push_back(v); mc::op("filter %d receives %u", getId(), v); }
    return true; }
bool StubMixer::doProcessFrame(std::map<int, Frame*> &, Frame *, std::vector<int>) { return true; }
bool StubSplit::doProcessFrame(Frame *, std::map<int, Frame*> &) { return true; }

static PipelineManager *pm;
static void add(int id, BaseFilter *f) { if (!pm->addFilter(id, f)) mc::fail("add", "filter %d is not added", id); sched::Atomic a; mc::op("filter %d added", id); }
static void path(int id, int org, int ow, std::vector<int> mids, int dst, int dr) { if (!pm->createPath(id, org, dst, ow, dr, mids) || !pm->connectPath(id)) mc::fail("path", "path %d is not connected", id); sched::Atomic a; mc::op("path %d connected", id); }
static void nopath(int id) { if (!pm->removePath(id)) mc::fail("path", "path %d is not removed", id); sched::Atomic a; mc::op("path %d removed", id); }
static void event(int id, bool want) { Jzon::Object e; { sched::Atomic a; e.Add("action", "mark"); Jzon::Object p; e.Add("params", p); } bool ok = pm->processFilterEvent(Event(e, std::chrono::system_clock::now()), id); if (ok != want) mc::fail("event", "the event of filter %d is %s", id, ok ? "accepted" : "refused"); sched::Atomic a; mc::op("event to %d", id); }
// frames written so far reach the end of their path
static size_t got(int f) { sched::Atomic a; return seen->got[f].size(); }
static void flows(int f) { size_t g = got(f); { sched::Atomic a; ahead = seen->emitted + 1; } sched::settle(30000000ll); if (got(f) <= g) mc::fail("stuck", "no frame reaches filter %d", f); }
static void silent(int f) { size_t g = got(f); { sched::Atomic a; ahead = seen->emitted + 1; } sched::settle(30000000ll); if (got(f) != g) mc::fail("delivery", "frames reach filter %d, which is not there", f); }

void sched_body() {
    const std::string mode = mc::sparam("mode", "path");
    { sched::Atomic a; filter_si = new StreamInfo(VIDEO); SmallQueue::live = 0; seen = new Seen(); memset(seen->marks, 0, sizeof seen->marks); seen->alive = seen->emitted = 0; upstream = mc::param("up", 0); ahead = mc::param("frames", 2); }
    pm = PipelineManager::getInstance(mc::param("threads", 2));
    add(1, new SourceManager()); add(5, new SinkManager());
    if (mode == "mid") { add(3, new VideoEncoderX264()); path(1, 1, 1, {3}, 5, 1); flows(5); }
    else if (mode == "add") { path(1, 1, 1, {}, 5, 1); add(2, new SourceManager()); add(6, new SinkManager()); if (mc::param("getstate", 0)) { Jzon::Object o; pm->getStateEvent(NULL, o); } flows(5); }
    else if (mode == "second") { path(1, 1, 1, {}, 5, 1); add(6, new SinkManager()); path(2, 1, mc::param("share", 0) ? 1 : 2, {}, 6, 1); nopath(1); if (pm->getFilter(5)) mc::fail("filters", "filter 5 is left"); flows(6); }
    else if (mode == "remove") { path(1, 1, 1, {}, 5, 1); nopath(1); if (pm->getFilters().size()) mc::fail("filters", "%zu filters left", pm->getFilters().size()); sched::Atomic a; if (seen->alive) mc::fail("leak", "%d filters left", seen->alive); if (SmallQueue::live) mc::fail("queues", "%d queues left", SmallQueue::live); }
    else if (mode == "removefilter") { add(2, new SourceManager()); path(1, 1, 1, {}, 5, 1); if (!pm->removeFilter(2)) mc::fail("filters", "filter 2 is not removed"); flows(5); }
    else if (mode == "replace") { path(1, 1, 1, {}, 5, 1); nopath(1); add(1, new SourceManager()); add(5, new SinkManager()); path(1, 1, 1, {}, 5, 1); flows(5); }
    else if (mode == "event") { path(1, 1, 1, {}, 5, 1); event(1, true); event(5, true); event(9, false); flows(5); sched::Atomic a; if (seen->marks[5] != 1 || (!upstream && seen->marks[1] != 1)) mc::fail("event", "events are executed %d and %d times", seen->marks[1], seen->marks[5]); }
    else if (mode == "stop") { path(1, 1, 1, {}, 5, 1); }
    else if (mode == "restart") { path(1, 1, 1, {}, 5, 1); if (!pm->stop()) mc::fail("stop", "stopping failed"); { sched::Atomic a; mc::op("stopped"); if (seen->alive || SmallQueue::live) mc::fail("leak", "%d filters and %d queues left after stopping", seen->alive, SmallQueue::live); } add(1, new SourceManager()); add(5, new SinkManager()); path(1, 1, 1, {}, 5, 1); flows(5); }
    else mc::harness_error("mode");
    if (!pm->stop() ) mc::fail("stop", "stopping failed");
    {
        sched::Atomic a;
        if (seen->alive) mc::fail("leak", "%d filters left after stopping", seen->alive);
        if (SmallQueue::live) mc::fail("queues", "%d queues left after stopping", SmallQueue::live);
        for (auto &g : seen->got) { for (size_t i = 1; i < g.second.size(); i++) if (g.second[i] <= g.second[i-1]) mc::fail("order", "filter %d receives frame %d after %d", g.first, g.second[i], g.second[i-1]); }
        size_t all = 0; for (auto &g : seen->got) all += g.second.size();
        if (upstream && seen->marks[1] > (int)all + 1) mc::fail("event", "%d upstream events executed, %zu frames received", seen->marks[1], all);
        mc::Hash h; h.add(seen->emitted).add(seen->marks[1]).add(seen->marks[5]); for (auto &g : seen->got) { h.add(g.first); for (int v : g.second) h.add(v); } mc::outcome(h.h); mc::state(h.h);
    }
    PipelineManager::destroyInstance();
}
