// The pipeline graph: every sequence of control events (JSON, as a client sends
// them) on the real pipeline manager, against a model of filters, paths and
// connections.  Filters are stand-ins with the real base classes; the pool is a
// recording stub.  Checked after every event: the answer, the state document,
// the filters alive, the tasks of the pool, the queues alive, and where a frame
// of every source comes out.
#define VERIF_REAL_PIPELINE
#include "pipe_stubs.hh"
#include "filters.hh"
#include "WorkersPool.hh"

static std::map<int, Runnable*> *tasks; static int pools;
TaskQueue::TaskQueue() {}
WorkersPool::WorkersPool(size_t) { pools++; }
WorkersPool::~WorkersPool() { pools--; tasks->clear(); }
bool WorkersPool::addTask(Runnable *const r) { if (r->getId() < 0 || tasks->count(r->getId())) return false; (*tasks)[r->getId()] = r; return true; }
bool WorkersPool::removeTask(const int id) { tasks->erase(id); return true; }
void WorkersPool::stop() { tasks->clear(); }

static std::set<BaseFilter*> *live; static int marked[16]; static unsigned emitted;
typedef std::pair<int,int> Port;
static std::map<Port, unsigned> *out;        // value given to each writer of a source in the last round
static std::multimap<Port, unsigned> *in;    // values delivered to each reader of a tail
template <class F> void born(F *f) { live->insert(f); }
// the filters number their frames themselves: the value travels in the payload
typedef std::vector<unsigned> Vals;   // a mixer passes on all that it gets
static void put(Frame *f, const Vals &v) { unsigned n = 0; for (unsigned x : v) if (8 * n + 8 <= f->getMaxLength()) { unsigned w[2] = {x, ~x}; memcpy(f->getDataBuf() + 8 * n++, w, 8); } f->setLength(8 * n); f->setConsumed(true); f->setPresentationTime(usec(v[0])); }
static bool get(Frame *f, Vals &v) { v.clear(); unsigned w[2]; if (f->getLength() % 8 || !f->getLength()) return false; for (unsigned i = 0; i < f->getLength(); i += 8) { memcpy(w, f->getDataBuf() + i, 8); v.push_back(w[0]); if (w[1] != ~w[0]) return false; } return true; }
#define STUB(S, B, ...) S::S(FilterType t) : B(__VA_ARGS__) { fType = t; BaseFilter::setSync(false); live->insert(this); eventMap["mark"] = [this](Jzon::Node*) { marked[getId() & 15]++; return true; }; eventMap["throw"] = [](Jzon::Node *p) { return p->Get("x").ToInt() > 0; }; } \
    S::~S() { live->erase(this); } \
    FrameQueue *S::allocQueue(ConnectionData c) { return new SmallQueue(c, filter_si, 8); } \
    void S::doGetState(Jzon::Object &o) { o.Add("stub", #S); }
STUB(StubHead, HeadFilter, 2)
STUB(StubMid, OneToOneFilter)
STUB(StubTail, TailFilter, 2)
STUB(StubMixer, ManyToOneFilter, 2)
STUB(StubSplit, OneToManyFilter, 2)
bool StubHead::doProcessFrame(std::map<int, Frame*> &d, int &ret) { ret = WAIT; for (auto &x : d) { put(x.second, Vals(1, ++emitted)); (*out)[Port(getId(), x.first)] = emitted; } return true; }
bool StubMid::doProcessFrame(Frame *o, Frame *d) { Vals v; MC_CHECK(get(o, v), "content", "filter %d receives a damaged frame", getId()); put(d, v); return true; }
bool StubTail::doProcessFrame(std::map<int, Frame*> &o, std::vector<int> n, int &) { for (int i : n) { Vals v; MC_CHECK(get(o[i], v), "content", "filter %d reader %d delivers a damaged frame", getId(), i); for (unsigned y : v) in->insert({Port(getId(), i), y}); } return true; }
bool StubMixer::doProcessFrame(std::map<int, Frame*> &o, Frame *d, std::vector<int> n) { Vals all; for (int i : n) { Vals v; MC_CHECK(get(o[i], v), "content", "filter %d receives a damaged frame", getId()); all.insert(all.end(), v.begin(), v.end()); } if (all.empty()) return false; put(d, all); return true; }
bool StubSplit::doProcessFrame(Frame *o, std::map<int, Frame*> &d) { Vals v; MC_CHECK(get(o, v), "content", "filter %d receives a damaged frame", getId()); for (auto &x : d) put(x.second, v); return true; }

static std::string show(const Jzon::Node &n) { if (n.IsValue()) return n.ToString(); Jzon::Writer w(n, Jzon::NoFormat); w.Write(); return w.GetResult(); }
static Jzon::Object parse(const std::string &s) { Jzon::Object o; Jzon::Parser p(o, s); if (!p.Parse()) mc::harness_error("unparsable event %s: %s", s.c_str(), p.GetError().c_str()); return o; }
static PipelineManager *pm() { return PipelineManager::getInstance(); }

// ---- model -----------------------------------------------------------------
struct MPath { int org, dst, ow, dr; std::vector<int> mids, mr; bool has(int f) const { return org == f || dst == f || std::count(mids.begin(), mids.end(), f); } };
struct Model { int fresh = 2000000;   // ports the manager chooses
    std::map<int, std::string> types; std::map<int, MPath> paths;
    std::map<Port, std::set<Port>> conns;    // writer -> readers
    static unsigned cap(const std::string &t, bool w) { bool head = t == "receiver" || t == "demuxer" || t == "v4lcapture", tail = t == "transmitter" || t == "dasher";
        if (head) return w ? 2 : 0; if (tail) return w ? 0 : 2; if (t == "videoSplitter") return w ? 2 : 1; if (t == "videoMixer" || t == "audioMixer") return w ? 1 : 2; return 1; }
    std::string type(int f) const { auto it = types.find(f); return it == types.end() ? "" : it->second; }
    bool rUsed(Port p) const { for (auto &c : conns) if (c.second.count(p)) return true; return false; }
    unsigned nW(int f) const { unsigned n = 0; for (auto &c : conns) n += c.first.first == f; return n; }
    unsigned nR(int f) const { unsigned n = 0; for (auto &c : conns) for (auto &r : c.second) n += r.first == f; return n; }
    bool conn(Port w, Port r) { if (w.first == r.first || rUsed(r) || conns.count(w) || nW(w.first) >= cap(types[w.first], true) || nR(r.first) >= cap(types[r.first], false)) return false; conns[w].insert(r); return true; }
    bool share(Port w, Port r) { if (!conns.count(w) || rUsed(r) || nR(r.first) >= cap(types[r.first], false)) return false; for (auto &x : conns[w]) if (x.first == r.first) return false; conns[w].insert(r); return true; }
    void dropR(Port r) { for (auto it = conns.begin(); it != conns.end(); ) { it->second.erase(r); if (it->second.empty()) it = conns.erase(it); else ++it; } }
    // filters that feed themselves: frames of earlier rounds go on circling, nothing can be said about them
    bool circle() const { for (auto &t : types) { std::set<int> seen; std::vector<int> todo(1, t.first); while (!todo.empty()) { int f = todo.back(); todo.pop_back(); for (auto &c : conns) if (c.first.first == f) for (auto &r : c.second) { if (r.first == t.first) return true; if (seen.insert(r.first).second) todo.push_back(r.first); } } } return false; }
    bool used(int f, int but) const { for (auto &p : paths) if (p.first != but && p.second.has(f)) return true; return false; }
    int freeW(int f) { return cap(types[f], true) == 1 ? 1 : ++fresh; }
    bool addPath(int id, MPath p) {
        if (paths.count(id) || !types.count(p.org) || !types.count(p.dst)) return false;
        std::set<int> u; for (int m : p.mids) if (!types.count(m) || m == p.org || m == p.dst || !u.insert(m).second) return false;
        auto old = conns;
        auto join = [&](Port w, Port r) { return conn(w, r) || share(w, r); };
        bool ok = true;
        std::vector<int> &mr = p.mr; for (int m : p.mids) mr.push_back(cap(types[m], false) == 1 ? 1 : ++fresh);
        if (p.mids.empty()) ok = join(Port(p.org, p.ow), Port(p.dst, p.dr));
        else { ok = join(Port(p.org, p.ow), Port(p.mids[0], mr[0]));
            for (size_t i = 0; ok && i + 1 < p.mids.size(); i++) ok = conn(Port(p.mids[i], freeW(p.mids[i])), Port(p.mids[i+1], mr[i+1]));
            ok = ok && conn(Port(p.mids.back(), freeW(p.mids.back())), Port(p.dst, p.dr)); }
        if (!ok) { conns = old; return false; }
        paths[id] = p; return true;
    }
    void dropFilter(int f) { for (auto it = conns.begin(); it != conns.end(); ) { if (it->first.first == f) it = conns.erase(it); else ++it; }
        std::vector<Port> rs; for (auto &c : conns) for (auto &r : c.second) if (r.first == f) rs.push_back(r); for (auto &r : rs) dropR(r); types.erase(f); }
    void removePath(int id) { MPath p = paths[id]; dropR(Port(p.dst, p.dr)); for (size_t i = 0; i < p.mids.size(); i++) dropR(Port(p.mids[i], p.mr[i]));
        for (int m : p.mids) if (!used(m, id)) dropFilter(m); if (!used(p.dst, id)) dropFilter(p.dst); if (!used(p.org, id)) dropFilter(p.org); paths.erase(id); }
    void stop() { types.clear(); paths.clear(); conns.clear(); }
};
static Model m;

static int events;
// sends one event; the answer is "" for {"error":null}
static std::string send(const std::string &ev) {
    Jzon::Object o; events++;
    pm()->processEvent(parse(ev), o);
    MC_CHECK(o.GetCount() == 1 && o.Has("error"), "answer", "%s is answered with %s", ev.c_str(), show(o).c_str());
    if (o.Get("error").IsNull()) return "";
    std::string e = o.Get("error").ToString(); MC_CHECK(!e.empty(), "answer", "%s fails without a reason", ev.c_str()); return e;
}
static int num(const Jzon::Object &o, const char *k) { MC_CHECK(o.Has(k) && o.Get(k).IsNumber(), "state", "the state has no number %s in %s", k, show(o).c_str()); return o.Get(k).ToInt(); }

static void check_state() {
    Jzon::Object raw; pm()->processEvent(parse("{\"action\":\"getState\",\"params\":{}}"), raw);
    static const bool reread = mc::param("reread", 0);
    Jzon::Object copy; if (reread) { Jzon::Object r(parse(show(raw))); for (auto it = r.begin(); it != r.end(); ++it) copy.Add((*it).first, (*it).second); }   // as the client reads it
    const Jzon::Object &st = reread ? copy : raw;
    MC_CHECK(st.Has("filters") && st.Has("paths"), "state", "the state is %s", show(raw).c_str());
    std::map<int, std::string> ty; const Jzon::Array &fa = st.Get("filters").AsArray();
    for (auto it = fa.begin(); it != fa.end(); ++it) { const Jzon::Object &o = (*it).AsObject(); int id = num(o, "id"); MC_CHECK(!ty.count(id), "state", "filter %d is listed twice", id); ty[id] = o.Get("type").ToString(); MC_CHECK(o.Get("role").ToString() == "regular", "state", "filter %d has role %s", id, o.Get("role").ToString().c_str()); MC_CHECK(o.Has("stub"), "state", "the state of filter %d is missing", id); }
    std::string a, b; for (auto &x : ty) a += std::to_string(x.first) + ":" + x.second + " "; for (auto &x : m.types) b += std::to_string(x.first) + ":" + x.second + " ";
    MC_CHECK(a == b, "filters", "filters are {%s}, should be {%s}", a.c_str(), b.c_str());
    std::string pa, pb; const Jzon::Array &paa = st.Get("paths").AsArray();
    for (auto it = paa.begin(); it != paa.end(); ++it) { const Jzon::Object &o = (*it).AsObject(); std::vector<int> mids; const Jzon::Array &ma = o.Get("filters").AsArray(); for (auto j = ma.begin(); j != ma.end(); ++j) mids.push_back((*j).ToInt());
        char buf[200]; snprintf(buf, sizeof buf, "%d:%d.%d-%s-%d.%d ", num(o, "id"), num(o, "originFilter"), num(o, "originWriter"), ids(mids).c_str(), num(o, "destinationFilter"), num(o, "destinationReader")); pa += buf;
        num(o, "avgDelay"); MC_CHECK(num(o, "lostBlocs") == 0, "lost", "path %d reports lost frames", num(o, "id")); }
    for (auto &x : m.paths) { char buf[200]; snprintf(buf, sizeof buf, "%d:%d.%d-%s-%d.%d ", x.first, x.second.org, x.second.ow, ids(x.second.mids).c_str(), x.second.dst, x.second.dr); pb += buf; }
    MC_CHECK(pa == pb, "paths", "paths are {%s}, should be {%s}", pa.c_str(), pb.c_str());
    MC_CHECK(live->size() == m.types.size(), "leak", "%zu filters are alive, %zu should be", live->size(), m.types.size());
    MC_CHECK(tasks->size() == m.types.size(), "tasks", "the pool has %zu tasks for %zu filters", tasks->size(), m.types.size());
    for (auto &t : m.types) { BaseFilter *f = pm()->getFilter(t.first); MC_CHECK(f && live->count(f) && tasks->count(t.first) && (*tasks)[t.first] == f && f->getId() == t.first, "tasks", "filter %d is not the task of the pool", t.first);
        for (int r = 1; r <= 3; r++) MC_CHECK(f->isRConnected(r) == m.rUsed(Port(t.first, r)), "ports", "reader %d of filter %d is %sconnected", r, t.first, f->isRConnected(r) ? "" : "not ");
        for (int w = 1; w <= 3; w++) MC_CHECK(f->isWConnected(w) == (m.conns.count(Port(t.first, w)) > 0), "ports", "writer %d of filter %d is %sconnected", w, t.first, f->isWConnected(w) ? "" : "not "); }
}
// one frame of every connected source must come out exactly where the paths lead
static void check_flow() {
    out->clear(); in->clear();
    for (auto &t : m.types) if (Model::cap(t.second, false) == 0) { int r; pm()->getFilter(t.first)->processFrame(r); }
    static const int rounds = mc::param("many", 0) ? 6 : 4;
    for (int round = 0; round < rounds; round++) for (auto &t : m.types) if (Model::cap(t.second, false)) { mc::vclock_ns += 1000000; int r; pm()->getFilter(t.first)->processFrame(r); }
    std::set<std::pair<Port, unsigned>> got; std::map<std::pair<Port, unsigned>, unsigned> want;
    std::function<void(Port, unsigned, int)> follow = [&](Port w, unsigned v, int depth) { if (depth > 8) return; auto it = m.conns.find(w); if (it == m.conns.end()) return;
        for (auto &r : it->second) { if (Model::cap(m.types[r.first], true) == 0) want[{r, v}]++; else for (auto &c : m.conns) if (c.first.first == r.first) follow(c.first, v, depth + 1); } };
    for (auto &o : *out) follow(o.first, o.second, 0);
    std::map<std::pair<Port, unsigned>, unsigned> times;
    for (auto &i : *in) { got.insert(i); auto w = want.find(i); MC_CHECK(++times[i] <= (w == want.end() ? 1 : w->second), "delivery", "filter %d reader %d received a frame twice", i.first.first, i.first.second); }
    for (auto &w : want) MC_CHECK(got.count(w.first), "delivery", "the frame of a path does not reach filter %d reader %d", w.first.first.first, w.first.first.second);
    for (auto &g : got) MC_CHECK(want.count(g), "delivery", "filter %d reader %d received a frame which no path leads there", g.first.first, g.first.second);
    // every path delivers, unless what feeds it was removed
    size_t nout = 0; for (auto &c : m.conns) nout += Model::cap(m.types[c.first.first], false) == 0; MC_CHECK(out->size() == nout, "delivery", "%zu sources wrote, %zu are connected", out->size(), nout);
}
// a writer keeps the queue of its last connection until it is connected again
static void check_all() { check_state(); check_flow(); int most = 0; for (auto &t : m.types) most += Model::cap(t.second, true); MC_CHECK(SmallQueue::live >= (int)m.conns.size() && SmallQueue::live <= most, "queues", "%d queues alive for %zu connections", SmallQueue::live, m.conns.size()); }
static uint64_t mhash() { mc::Hash h; for (auto &t : m.types) h.add(t.first).add(t.second); for (auto &p : m.paths) h.add(p.first).add(p.second.org).add(p.second.dst).add(p.second.ow < 3 ? p.second.ow : 3).add(p.second.dr < 3 ? p.second.dr : 3).add(ids(p.second.mids)); for (auto &c : m.conns) { h.add(c.first.first).add(c.first.second < 3 ? c.first.second : 3); for (auto &r : c.second) h.add(r.first); } return h.h; }

static bool create(int id, const std::string &type) { return send("{\"action\":\"createFilter\",\"params\":{\"id\":" + std::to_string(id) + ",\"type\":\"" + type + "\"}}") == ""; }
static void add(int id, const std::string &type) { MC_CHECK(create(id, type), "create", "filter %d of type %s is not created", id, type.c_str()); m.types[id] = type; }
static std::string path_event(int id, const MPath &p) { std::string mids; for (int x : p.mids) mids += (mids.empty() ? "" : ",") + std::to_string(x);
    char b[300]; snprintf(b, sizeof b, "{\"action\":\"createPath\",\"params\":{\"id\":%d,\"orgFilterId\":%d,\"dstFilterId\":%d,\"orgWriterId\":%d,\"dstReaderId\":%d,\"midFiltersIds\":[%s]}}", id, p.org, p.dst, p.ow, p.dr, mids.c_str()); return b; }
static std::string id_event(const char *a, int id) { char b[100]; snprintf(b, sizeof b, "{\"action\":\"%s\",\"params\":{\"id\":%d}}", a, id); return b; }

static void op_path(int id, MPath p) {
    bool ow = p.ow < 0, dr = p.dr < 0;
    std::string e = send(path_event(id, p));
    mc::op("create path %d: %d.%d %s %d.%d: %s", id, p.org, p.ow, ids(p.mids).c_str(), p.dst, p.dr, e.empty() ? "ok" : "refused");
    if (e.empty() && (ow || dr)) { Path *q = pm()->getPath(id); MC_CHECK(q, "paths", "path %d is not there", id); if (ow) p.ow = q->getOrgWriterID(); if (dr) p.dr = q->getDstReaderID();
        MC_CHECK(p.ow >= 0 && p.dr >= 0, "ports", "path %d uses ports %d and %d", id, p.ow, p.dr); }
    else { if (ow) p.ow = Model::cap(m.type(p.org), true) == 1 ? 1 : 1000000; if (dr) p.dr = Model::cap(m.type(p.dst), false) == 1 ? 1 : 1000000; }
    bool want = m.addPath(id, p);
    MC_CHECK(e.empty() == want, "accept", "creating path %d %s, it should %s", id, e.empty() ? "succeeded" : ("failed: " + e).c_str(), want ? "succeed" : "fail");
}
static void op_remove_path(int id) { std::string e = send(id_event("removePath", id)); mc::op("remove path %d: %s", id, e.empty() ? "ok" : "refused");
    MC_CHECK(e.empty(), "accept", "removing path %d failed: %s", id, e.c_str()); if (m.paths.count(id)) m.removePath(id); }
static void op_remove_filter(int id) { std::string e = send(id_event("removeFilter", id)); mc::op("remove filter %d: %s", id, e.empty() ? "ok" : "refused");
    bool want = m.types.count(id) && !m.used(id, -1); MC_CHECK(e.empty() == want, "accept", "removing filter %d %s", id, e.empty() ? "succeeded" : "failed"); if (want) m.dropFilter(id); }
static void op_create_filter(int id, const char *t) { bool ok = create(id, t); mc::op("create filter %d (%s): %s", id, t, ok ? "ok" : "refused");
    bool want = id >= 0 && !m.types.count(id); MC_CHECK(ok == want, "accept", "creating filter %d %s", id, ok ? "succeeded" : "failed"); if (want) m.types[id] = t; }
static void op_event(int id, const char *a) { int n = marked[id & 15]; char b[100]; snprintf(b, sizeof b, "{\"action\":\"%s\",\"filterId\":%d,\"params\":{}}", a, id);
    std::string e = send(b); mc::op("event %s to filter %d: %s", a, id, e.empty() ? "ok" : "refused"); bool want = m.types.count(id);
    MC_CHECK(e.empty() == want, "event", "the event of filter %d is %s", id, e.empty() ? "accepted" : "refused");
    if (want) { mc::vclock_ns += 1000000; check_flow(); } MC_CHECK(marked[id & 15] == n + (want && !strcmp(a, "mark")), "event", "filter %d executed its event %d times", id, marked[id & 15] - n); }

static const std::vector<std::vector<int>> MIDS = {{}, {3}, {4}, {3, 4}, {4, 3}, {3, 3}, {1}, {5}, {9}, {7}, {8}, {3, 7}, {8, 3}, {3, 4, 3}, {7, 3, 7}};
template <class T> static T pick(const std::vector<T> &v) { return v[mc::choose(v.size())]; }
static std::vector<int> list(const char *k, const char *d) { std::vector<int> v; std::string s = mc::sparam(k, d); for (size_t i = 0; i < s.size(); ) { size_t j = s.find(',', i); if (j == std::string::npos) j = s.size(); v.push_back(atoi(s.substr(i, j - i).c_str())); i = j + 1; } return v; }

static void mode_ops() {
    add(1, "receiver"); add(2, "receiver"); add(3, "videoEncoder"); add(4, "videoEncoder"); add(5, "transmitter"); add(6, "transmitter");
    if (mc::param("many", 0)) { add(7, "audioMixer"); add(8, "videoSplitter"); }
    check_all();
    std::vector<int> orgs = list("orgs", "1,2"), dsts = list("dsts", "5,6"), ows = list("ows", "1,2"), drs = list("drs", "1,2"), mids = list("mids", "0,1,2,3"), kinds = list("kinds", "0,1");
    int depth = mc::param("depth", 3), next = 1;
    if (mc::param("first", 0)) { MPath p = {1, 5, 1, 1, MIDS[mc::param("first", 0)]}; op_path(next++, p); check_all(); }
    for (int d = 0; d < depth; d++) {
        std::vector<int> ks; for (int x : kinds) if (x != 2 || next > 1) ks.push_back(x);
        int k = pick(ks);
        if (k == 0) { MPath p; p.org = pick(orgs); p.dst = pick(dsts); p.ow = pick(ows); p.dr = pick(drs); p.mids = MIDS[pick(mids)]; op_path(next, p); if (m.paths.count(next)) next++; }
        else if (k == 1) { int n = next; op_remove_path(mc::param("ghost", 0) ? mc::choose(n) + 1 : n == 1 ? 1 : mc::choose(n - 1) + 1); }
        else if (k == 2) { MPath p = {pick(orgs), pick(dsts), 1, 2, {}}; op_path(1 + mc::choose(next - 1), p); }   // an id which may be in use
        else if (k == 3) op_remove_filter(pick(std::vector<int>{1, 3, 5, 6, 9}));
        else if (k == 4) op_create_filter(pick(std::vector<int>{-1, 0, 1, 3, 5}), pick(std::vector<const char*>{"receiver", "videoEncoder", "transmitter"}));
        else if (k == 5) { std::string e = send("{\"action\":\"stop\",\"params\":{}}"); mc::op("stop: %s", e.empty() ? "ok" : "refused"); MC_CHECK(e.empty() || m.types.empty(), "stop", "stopping failed: %s", e.c_str()); m.stop(); MC_CHECK(pools == 0, "stop", "the pool is still there after stopping"); }
        else if (k == 6) op_event(pick(std::vector<int>{1, 3, 5, 9}), pick(std::vector<const char*>{"mark", "throw"}));
        if (m.circle()) break;
        check_all(); mc::state(mhash());
    }
    mc::outcome(mc::Hash().add(mhash()).h);
}

// every event with one or two of its values replaced by something else
static void mode_bad() {
    add(1, "receiver"); add(3, "videoEncoder"); add(5, "transmitter"); add(6, "transmitter");
    MPath p = {1, 5, 1, 1, {3}}; MC_CHECK(send(path_event(1, p)) == "", "accept", "the first path is refused"); m.addPath(1, p); check_all();
    static const char *V[] = {NULL, "null", "true", "\"\"", "\"x\"", "\"5\"", "-1", "-2147483649", "99999999999", "1e400", "1.5", "{}", "{\"id\":1}", "[]", "[1]", "[[]]", "[null]", "[\"x\"]", "[-1]", "1", "3", "5", "6"};
    const int NV = sizeof V / sizeof V[0];
    static const char *E[][9] = {{"createPath", "id", "orgFilterId", "dstFilterId", "orgWriterId", "dstReaderId", "midFiltersIds", NULL}, {"removePath", "id", NULL}, {"createFilter", "id", "type", NULL}, {"removeFilter", "id", NULL}, {"stop", NULL}, {"getState", NULL}, {"mark", "filterId", "delay", NULL}, {"throw", "filterId", "delay", NULL}};
    static const char *D[][9] = {{"", "2", "1", "6", "2", "1", "[]"}, {"", "1"}, {"", "7", "\"dasher\""}, {"", "9"}, {""}, {""}, {"", "3", "0"}, {"", "3", "0"}};
    int e = mc::choose(8), nf = 0; while (E[e][nf + 1]) nf++;
    std::vector<std::string> val; std::vector<bool> has; for (int i = 1; i <= nf; i++) { val.push_back(D[e][i]); has.push_back(true); }
    std::string action = std::string("\"") + E[e][0] + "\"", params; bool hasA = true, hasP = true;
    int changes = mc::param("changes", 1), last = -1; std::string params_v;
    bool routed = e >= 6;
    for (int c = 0; c < changes; c++) {
        int f = last + 1 + mc::choose(nf + 2 - last); if (f > nf + 1) break;   // fields, then action, params
        const char *v = V[mc::choose(NV)];
        if (f < nf) { has[f] = v; if (v) val[f] = v; } else if (f == nf) { hasA = v; if (v) action = v; } else { hasP = v; params_v = v ? v : ""; }
        last = f;
    }
    std::string inner, outer; for (int i = 0; i < nf; i++) if (has[i]) (routed ? outer : inner) += std::string((routed ? outer : inner).empty() ? "" : ",") + "\"" + E[e][i + 1] + "\":" + val[i];
    std::string ev = "{"; if (hasA) ev += "\"action\":" + action; if (!outer.empty()) ev += (ev.size() > 1 ? "," : "") + outer; if (hasP) ev += std::string(ev.size() > 1 ? "," : "") + "\"params\":" + (params_v.empty() ? "{" + inner + "}" : params_v); ev += "}";
    Jzon::Object o; pm()->processEvent(parse(ev), o);
    mc::op("%s -> %s", ev.c_str(), show(o).substr(0, 60).c_str());
    bool state = o.Has("filters");
    MC_CHECK(state || (o.GetCount() == 1 && o.Has("error")), "answer", "%s is answered with %s", ev.c_str(), show(o).c_str());
    bool ok = state || o.Get("error").IsNull();
    std::string a = hasA ? parse("{\"a\":" + action + "}").Get("a").IsValue() ? parse("{\"a\":" + action + "}").Get("a").ToString() : "" : "";
    // read the model's new content from the manager when the event was accepted: the event's own effect is checked by mode=ops,
    // here it has to leave a consistent pipeline
    if (!ok || state || routed) { check_all(); }
    else {
        std::set<int> before; for (auto &t : m.types) before.insert(t.first);
        if (a == "stop") m.stop();
        else if (a == "removePath") { if (!pm()->getPath(1)) m.removePath(1); }
        else if (a == "removeFilter") { for (int f : before) if (!pm()->getFilters().count(f)) { MC_CHECK(!m.used(f, -1), "bad-remove", "a filter in use was removed"); m.dropFilter(f); } }
        else if (a == "createFilter") { for (auto &f : pm()->getFilters()) if (!m.types.count(f.first)) { MC_CHECK(f.first >= 0, "bad-create", "filter %d was created", f.first); m.types[f.first] = utils::getFilterTypeAsString(f.second->getType()); } MC_CHECK(m.types.size() == before.size() + 1, "bad-create", "creating a filter succeeded and there are %zu filters", m.types.size()); }
        else if (a == "createPath") { MC_CHECK(pm()->getPaths().size() == 2, "bad-path", "creating a path succeeded and there are %zu paths", pm()->getPaths().size()); for (auto &q : pm()->getPaths()) if (!m.paths.count(q.first)) { MPath n = {q.second->getOriginFilterID(), q.second->getDestinationFilterID(), q.second->getOrgWriterID(), q.second->getDstReaderID(), q.second->getFilters()}; MC_CHECK(m.addPath(q.first, n), "bad-path", "%s is accepted", ev.c_str()); } }
        else mc::fail("answer", "%s is accepted", ev.c_str());
        check_all();
    }
    mc::state(mhash()); mc::outcome(mc::Hash().add(ok).add(a).h);
}

// events with a delay (milliseconds): executed by the first processing after it has passed, in order
static void mode_delay() {
    add(1, "receiver"); add(3, "videoEncoder"); add(5, "transmitter");
    static const int D[] = {0, 1, 40, 999, 1000, 30000, 60000, 65000, 70000, 100000, 3600000, 86400000, 2000000000};
    int n = mc::param("count", 2); std::vector<int64_t> due; int64_t t0 = mc::vclock_ns, latest = 0;
    for (int i = 0; i < n; i++) { int d = D[mc::choose(13)]; char b[120]; snprintf(b, sizeof b, "{\"action\":\"mark\",\"filterId\":3,\"delay\":%d,\"params\":{}}", d); std::string e = send(b); mc::op("event to filter 3 in %d ms", d); MC_CHECK(e.empty(), "event", "the event is refused: %s", e.c_str()); mc::vclock_ns += 1000; latest = std::max<int64_t>(latest, mc::vclock_ns + d * 1000000ll); due.push_back(latest); }
    // a delayed event holds back those behind it
    for (int i = 0; i < n; i++) for (int side = -1; side <= 1; side += 2) { int64_t t = due[i] + side * 500000; if (t < mc::vclock_ns) continue; mc::vclock_ns = t; int r; for (int k = 0; k < n; k++) pm()->getFilter(3)->processFrame(r);
        int want = 0; for (int64_t x : due) want += x <= t; MC_CHECK(marked[3] == want, "delay", "%d events are executed after %lld ms, %d are due", marked[3], (long long)((t - t0) / 1000000), want); }
    mc::state(mc::Hash().add(n).h); mc::outcome(mc::Hash().add((uint64_t)(latest - t0)).h);
}

static void mode_types() {
    static const char *T[] = {"receiver", "transmitter", "videoDecoder", "videoEncoder", "videoResampler", "videoMixer", "audioDecoder", "audioEncoder", "audioMixer", "sharedMemory", "dasher", "demuxer", "videoSplitter", "v4lcapture"};
    int n = 14; std::vector<std::string> t(T, T + n); t.push_back(""); t.push_back("Receiver"); t.push_back("receiver "); t.push_back("none");
    for (int i = 0; i < (int)mc::param("count", 2); i++) { int k = mc::choose(t.size()); bool ok = create(i, t[k]); mc::op("create filter %d of type '%s': %s", i, t[k].c_str(), ok ? "ok" : "refused");
        MC_CHECK(ok == (k < n), "types", "creating a filter of type '%s' %s", t[k].c_str(), ok ? "succeeded" : "failed"); if (ok) { m.types[i] = t[k];
            MC_CHECK(pm()->getFilter(i)->getType() == (FilterType)utils::getFilterTypeFromString(t[k]), "types", "filter of type '%s' is of another type", t[k].c_str());
            BaseFilter *f = pm()->getFilter(i); const char *c = dynamic_cast<SourceManager*>(f) ? "receiver" : dynamic_cast<SinkManager*>(f) ? "transmitter" : dynamic_cast<VideoDecoderLibav*>(f) ? "videoDecoder" : dynamic_cast<VideoEncoderX264*>(f) ? "videoEncoder" : dynamic_cast<VideoResampler*>(f) ? "videoResampler" : dynamic_cast<VideoMixer*>(f) ? "videoMixer" : dynamic_cast<AudioDecoderLibav*>(f) ? "audioDecoder" : dynamic_cast<AudioEncoderLibav*>(f) ? "audioEncoder" : dynamic_cast<AudioMixer*>(f) ? "audioMixer" : dynamic_cast<SharedMemory*>(f) ? "sharedMemory" : dynamic_cast<Dasher*>(f) ? "dasher" : dynamic_cast<HeadDemuxerLibav*>(f) ? "demuxer" : dynamic_cast<VideoSplitter*>(f) ? "videoSplitter" : dynamic_cast<V4LCapture*>(f) ? "v4lcapture" : "?";
            MC_CHECK(t[k] == c, "types", "the filter of type '%s' is a %s", t[k].c_str(), c); }
        check_state(); mc::state(mhash()); }
    mc::outcome(mhash());
}

void mc_body() {
    static StreamInfo si(VIDEO); filter_si = &si; SmallQueue::live = 0; emitted = 0; memset(marked, 0, sizeof marked); pools = 0; events = 0;
    std::map<int, Runnable*> t; std::set<BaseFilter*> l; std::map<Port, unsigned> o; std::multimap<Port, unsigned> i; tasks = &t; live = &l; out = &o; in = &i;
    m = Model();
    std::string mode = mc::sparam("mode", "ops");
    if (mode == "ops") mode_ops(); else if (mode == "bad") mode_bad(); else if (mode == "delay") mode_delay(); else mode_types();
    PipelineManager::destroyInstance();
    MC_CHECK(l.empty(), "leak", "%zu filters left after the manager is destroyed", l.size());
    MC_CHECK(SmallQueue::live == 0, "queues", "%d queues left after the manager is destroyed", SmallQueue::live);
    MC_CHECK(pools == 0, "leak", "the pool is left after the manager is destroyed");
}
