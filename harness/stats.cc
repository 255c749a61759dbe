// The delays and losses that the state document reports for every path: three
// paths (one sharing the reader of another), every sequence of pictures of any
// delay and spacing, processing steps and losses, against the averages computed
// from what was consumed when.
#define VERIF_REAL_PIPELINE
#include "pipe_stubs.hh"
#include "filters.hh"
#include "WorkersPool.hh"
TaskQueue::TaskQueue() {}
WorkersPool::WorkersPool(size_t) {}
WorkersPool::~WorkersPool() {}
bool WorkersPool::addTask(Runnable *const) { return true; }
bool WorkersPool::removeTask(const int) { return true; }
void WorkersPool::stop() {}
#define STUB(S, B, ...) S::S(FilterType t) : B(__VA_ARGS__) { fType = t; } S::~S() {} FrameQueue *S::allocQueue(ConnectionData c) { return new SmallQueue(c, filter_si, 4); } void S::doGetState(Jzon::Object &) {}
STUB(StubHead, HeadFilter, 2) STUB(StubMid, OneToOneFilter) STUB(StubTail, TailFilter, 2) STUB(StubMixer, ManyToOneFilter, 2) STUB(StubSplit, OneToManyFilter, 2)
bool StubHead::doProcessFrame(std::map<int, Frame*> &, int &) { return false; }
bool StubMid::doProcessFrame(Frame *, Frame *) { return false; }
bool StubTail::doProcessFrame(std::map<int, Frame*> &, std::vector<int>, int &) { return true; }
bool StubMixer::doProcessFrame(std::map<int, Frame*> &, Frame *, std::vector<int>) { return false; }
bool StubSplit::doProcessFrame(Frame *, std::map<int, Frame*> &) { return false; }

typedef std::chrono::system_clock::time_point tp;
static int64_t now_us() { return std::chrono::duration_cast<usec>(std::chrono::system_clock::now().time_since_epoch()).count(); }
// reference: mean delay of the pictures released in the last complete second of stream time
struct Delay {
    bool started = false; int64_t last = 0, span = 0, sum = 0, n = 0, avg = 0;
    void release(int64_t t, int64_t delay) {
        if (!started) { started = true; last = t; return; }
        if (t == last) return;
        span += t - last; last = t;
        if (span >= 1000000 && n) { avg = sum / n; span = sum = n = 0; }
        sum += delay; n++;
    }
};
static PipelineManager *pm() { return PipelineManager::getInstance(); }
static void path(int id, int org, int ow, std::vector<int> mids, int dst, int dr) {
    std::string ms; for (int x : mids) ms += (ms.empty() ? "" : ",") + std::to_string(x); char b[300];
    snprintf(b, sizeof b, "{\"action\":\"createPath\",\"params\":{\"id\":%d,\"orgFilterId\":%d,\"dstFilterId\":%d,\"orgWriterId\":%d,\"dstReaderId\":%d,\"midFiltersIds\":[%s]}}", id, org, dst, ow, dr, ms.c_str());
    Jzon::Object o, a; Jzon::Parser p(o, b); p.Parse(); pm()->processEvent(o, a); if (!a.Get("error").IsNull()) mc::fail("harness", "path %d: %s", id, a.Get("error").ToString().c_str());
}
void mc_body() {
    const int depth = mc::param("depth", 4), warm = mc::param("warm", 0); const std::string menu = mc::sparam("menu", "EOmtsw"); const bool share = mc::param("share", 1);
    mc::vclock_ns = 1700000000000000000ll;
    static StreamInfo si(VIDEO); si.video.codec = H264; filter_si = &si;
    { Src *h = new Src(2); Mid *m = new Mid, *m2 = mc::param("mids", 1) > 1 ? new Mid : NULL; Snk *t = new Snk(2), *s = new Snk(1); h->qsize = m->qsize = mc::param("size", 6);
    m->alloc_ok = true;
    if (!pm()->addFilter(10, h) || !pm()->addFilter(20, m) || !pm()->addFilter(30, t) || !pm()->addFilter(40, s) || (m2 && !pm()->addFilter(21, m2))) mc::fail("harness", "filters");
    if (m2) { m2->qsize = m->qsize; path(1, 10, 1, {20, 21}, 30, 1); } else path(1, 10, 1, {20}, 30, 1); if (share) path(2, 10, 1, {}, 40, 1); path(3, 10, 2, {}, 30, 2);
    int64_t pts = 3000000; int mask = 0; int64_t dtsgap = 0; unsigned no = 0;
    h->body = [&](std::map<int, Frame*> &d, int &ret) { ret = WAIT; no++; bool any = false;
        for (auto &x : d) if (mask & x.first) { x.second->setConsumed(true); x.second->setLength(4); x.second->setPresentationTime(usec(pts)); x.second->setDecodeTime(dtsgap < 0 ? usec(NO_DTS) : usec(pts - dtsgap)); any = true; } return any; };
    struct Got { int64_t t; int64_t org; size_t seq; };
    auto look = [&](Frame *f) { Got g; g.t = f->getFrameTime().count(); g.org = std::chrono::duration_cast<usec>(f->getOriginTime().time_since_epoch()).count(); g.seq = f->getSequenceNumber(); return g; };
    std::vector<Got> byMid, byMid2, byS, r1, r2;   // what each consumer took in this step
    m->body = [&](Frame *o, Frame *d) { byMid.push_back(look(o)); d->setConsumed(true); d->setLength(4); d->setPresentationTime(o->getPresentationTime()); d->setDecodeTime(o->getDecodeTime()); d->setOriginTime(o->getOriginTime()); return true; };
    if (m2) m2->body = [&](Frame *o, Frame *d) { byMid2.push_back(look(o)); d->setConsumed(true); d->setLength(4); d->setPresentationTime(o->getPresentationTime()); d->setDecodeTime(o->getDecodeTime()); d->setOriginTime(o->getOriginTime()); return true; };
    t->body = [&](std::map<int, Frame*> &o, std::vector<int> nf, int &) { for (int i : nf) (i == 1 ? r1 : r2).push_back(look(o[i])); return true; };
    s->body = [&](std::map<int, Frame*> &o, std::vector<int> nf, int &) { for (int i : nf) byS.push_back(look(o[i])); return true; };
    size_t put1 = 0, put2 = 0, putm = 0, putm2 = 0, dmn = 0, dm2n = 0, d1n = 0, d2n = 0; Delay dm, dm2, d1, d2; std::deque<Got> pendM, pendS;      // shared reader: taken by one, not yet by the other
    auto shared = [&](Got g, std::deque<Got> &mine, std::deque<Got> &other) {
        if (!share) { dmn++; dm.release(g.t, now_us() - g.org); return; }
        if (!other.empty() && other.front().seq == g.seq) { other.pop_front(); dmn++; dm.release(g.t, now_us() - g.org); } else mine.push_back(g); };
    auto run = [&](BaseFilter *f) { int r; byMid.clear(); byMid2.clear(); byS.clear(); r1.clear(); r2.clear(); f->processFrame(r);
        if (f == (BaseFilter*)h) { if (mask & 1) put1++; if (mask & 2) put2++; } putm += byMid.size(); putm2 += byMid2.size(); for (auto &g : byMid2) { dm2n++; dm2.release(g.t, now_us() - g.org); }
        for (auto &g : byMid) shared(g, pendM, pendS); for (auto &g : byS) shared(g, pendS, pendM);
        for (auto &g : r1) { d1n++; d1.release(g.t, now_us() - g.org); } for (auto &g : r2) { d2n++; d2.release(g.t, now_us() - g.org); } };
    auto check = [&]() {
        Jzon::Object o, st; { Jzon::Parser pr(o, "{\"action\":\"getState\",\"params\":{}}"); pr.Parse(); } pm()->processEvent(o, st);
        const Jzon::Array &a = st.Get("paths").AsArray(); int n = 0; size_t midReader = 0; 
        for (auto it = a.begin(); it != a.end(); ++it) {
            const Jzon::Object &p = (*it).AsObject(); int id = p.Get("id").ToInt(); n++; BaseFilter *df = id == 2 ? (BaseFilter*)s : t; int rd = id == 3 ? 2 : 1;
            int64_t want = (id == 1 ? d1 : id == 2 ? dm : d2).avg;
            MC_CHECK(p.Get("avgDelay").ToInt() == want, "delay", "path %d reports an average delay of %d us, expected %ld", id, p.Get("avgDelay").ToInt(), (long)want);
            MC_CHECK(df->getAvgReaderDelay(rd).count() == want, "delay", "reader %d of path %d reports %ld us, expected %ld", rd, id, (long)df->getAvgReaderDelay(rd).count(), (long)want);
            auto missing = [&](BaseFilter *f, int r, size_t put, size_t taken) { size_t in = f->getReader(r)->queue->getElements(); return put - taken - in; };
            midReader = pm()->getPath(1)->getMidReaderIDs()[0]; const size_t lm = missing(m, midReader, put1, dmn), lm2 = m2 ? missing(m2, pm()->getPath(1)->getMidReaderIDs()[1], putm, dm2n) : 0, l1 = missing(t, 1, m2 ? putm2 : putm, d1n), l2 = missing(t, 2, put2, d2n);
            const size_t lost = id == 1 ? lm + lm2 + l1 : id == 2 ? lm : l2;
            MC_CHECK((size_t)p.Get("lostBlocs").ToInt() == lost, "lost", "path %d reports %d lost pictures, %zu did not arrive", id, p.Get("lostBlocs").ToInt(), lost);
        }
        MC_CHECK(n == (share ? 3 : 2), "paths", "%d paths in the state", n);
        MC_CHECK(m->getAvgReaderDelay(midReader).count() == dm.avg, "delay", "the middle filter reports %ld us, expected %ld", (long)m->getAvgReaderDelay(midReader).count(), (long)dm.avg);
        if (m2) { int r2 = pm()->getPath(1)->getMidReaderIDs()[1]; MC_CHECK(m2->getAvgReaderDelay(r2).count() == dm2.avg, "delay", "the second middle filter reports %ld us, expected %ld", (long)m2->getAvgReaderDelay(r2).count(), (long)dm2.avg); }
        MC_CHECK(t->getAvgReaderDelay(77).count() == -1 && t->getLostBlocs(77) == 0, "delay", "statistics of a reader that does not exist");
    };
    static const int64_t DT[] = {40000, 0, 1000000, 999999, -30000, 3500000, 500000}; static const int64_t AGE[] = {0, 12345, 700000};
    auto emit = [&](int64_t dt, int64_t a, int mk) { pts += dt; mask = mk; mc::op("picture at %+ld us, to writers %d, %ld us pass", (long)dt, mk, (long)a); run(h); mc::vclock_ns += a * 1000; };
    for (int i = 0; i < warm; i++) { emit(40000, 4000 + 37 * i, 3); run(m); if (m2) run(m2); run(t); run(s); }
    check();
    const bool few = mc::param("few", 0); auto count = [&]() { return few ? 1 + 4 * mc::choose(2) : 1 + mc::choose(4); };
    const int ndt = mc::param("dts", 3), nage = mc::param("ages", 3);
    for (int d = 0; d < depth; d++) {
        char c = menu[mc::choose(menu.size())];
        switch (c) {
        case 'E': { int k = mc::choose(ndt); emit(DT[k], 0, 3); break; }
        case 'O': emit(40000, 0, 1 + mc::choose(2)); break;
        case 'F': { int k = mc::choose(ndt), a = mc::choose(nage); emit(DT[k], AGE[a], 3); run(m); if (m2) run(m2); run(t); run(s); mc::op("everything runs"); break; }    // straight through
        case 'm': mc::op("the middle filter runs"); run(m); break;
        case 'n': if (!m2) mc::prune(); mc::op("the second middle filter runs"); run(m2); break;
        case 'N': { int n = count(); for (int i = 0; i < n; i++) { emit(40000, 900, 1); run(m); run(m2); } mc::op("both middle filters run after each"); break; }
        case 't': mc::op("sink 30 runs"); run(t); break;
        case 's': if (!share) mc::prune(); mc::op("sink 40 runs"); run(s); break;
        case 'w': mc::op("7 ms pass"); mc::vclock_ns += 7000000; break;
        case 'd': mc::op("decode times are %s", dtsgap ? "equal to" : "earlier than the presentation times"); dtsgap = dtsgap ? 0 : 25000; break;
        case 'M': { int n = count(); for (int i = 0; i < n; i++) { emit(40000, 900, 1); run(m); } mc::op("the middle filter runs after each"); break; }
        case 'L': { int n = count(); for (int i = 0; i < n; i++) emit(40000, 900, 1); break; }
        }
        check();
        mc::Hash hh; hh.add(dm.avg).add(d1.avg).add(d2.avg).add(dm.n).add(d1.n).add(d2.n).add(pendM.size()).add(pendS.size()); mc::state(hh.h); mc::outcome(hh.h);
    }
    }
    pm()->destroyInstance();
}
