// Control events sent by several threads, and upstream by a filter that is
// processing, while the destination processes frames: every schedule.
#include "filters.hh"
#include "sched.hh"

static Event mkevent(int id) {
    sched::Atomic a; sched::advance_ns(1000); Jzon::Object o, p; p.Add("id", id); o.Add("action", "act"); o.Add("params", p);
    return Event(o, std::chrono::system_clock::now(), 0);
}
void sched_body() {
    const std::string mode = mc::sparam("mode", "mid");
    const int n = mc::param("events", 2), pushers = mc::param("pushers", 1), frames = mc::param("frames", 2);
    Mid *mid; Src *src; Snk *snk; Gen *down; 
    { sched::Atomic a; filter_si = new StreamInfo(VIDEO); SmallQueue::live = 0; routed_events.clear(); route_hook = nullptr;
      mid = new Mid(); src = new Src(); snk = new Snk(); down = new Gen(1, 0); src->setId(1); mid->setId(2); snk->setId(3); down->setId(4); }
    if (!src->connectManyToOne(mid, 1)) mc::fail("connect", "plain connection refused");
    if (!(mode == "tail" ? mid->connectOneToOne(snk) : mid->connectOneToOne(down))) mc::fail("connect", "plain connection refused");
    BaseFilter *f = mode == "head" ? (BaseFilter*)src : mode == "tail" ? (BaseFilter*)snk : (BaseFilter*)mid;
    bool inside = false, handling = false; std::vector<int> ran; { sched::Atomic a; ran.reserve(32); }
    auto enter = [&](const char *w) { { sched::Atomic a; if (inside) mc::fail("overlap", "two frames processed at once"); if (handling) mc::fail("overlap", "a frame is processed while an event is being executed"); inside = true; } sched::point(); sched::Atomic a; inside = false; };
    auto act = [&](Jzon::Node *p) {
        { sched::Atomic a; if (inside) mc::fail("overlap", "an event is executed while a frame is being processed"); if (handling) mc::fail("overlap", "two events are executed at once"); handling = true; }
        sched::point();
        sched::Atomic a; handling = false; ran.push_back(p->Get("id").ToInt()); mc::op("event %d executed", ran.back());
        return true;
    };
    { sched::Atomic a; mid->events("act", act); src->events("act", act); snk->events("act", act); }
    src->body = [&](std::map<int, Frame*> &d, int &) { if (mode == "head") enter("head"); d.begin()->second->setConsumed(true); return true; };
    mid->body = [&](Frame *o, Frame *d) { if (mode != "head" && mode != "tail") enter("mid"); d->setConsumed(true); return true; };
    snk->body = [&](std::map<int, Frame*> &, std::vector<int> &, int &) { enter("tail"); return true; };
    if (mode == "up") { sched::Atomic a; route_hook = [&](Event e, int id) { if (id != 2) mc::fail("route", "the event was sent to filter %d", id); mid->pushEvent(e); }; }
    int sent = 0;
    down->body = [&](std::map<int, Frame*> &, std::map<int, Frame*> &, std::vector<int> &, int &) { if (mode == "up") down->sendEvent(mkevent(900 + sent++), 1); };
    int ret;
    src->processFrame(ret); mid->processFrame(ret);
    std::vector<std::thread> th;
    th.emplace_back([&] { int ret; for (int i = 0; i < frames; i++) f->processFrame(ret); });
    if (mode == "up") th.emplace_back([&] { int ret; for (int i = 0; i < frames; i++) down->processFrame(ret); });
    else th.emplace_back([&] { int ret; for (int i = 0; i < frames; i++) { if (mode != "head") src->processFrame(ret); if (mode == "tail") mid->processFrame(ret); } });
    for (int k = 1; k < pushers; k++) th.emplace_back([&, k] { for (int i = 0; i < n; i++) f->pushEvent(mkevent(100 * k + i)); });
    for (int i = 0; i < n; i++) f->pushEvent(mkevent(i));
    for (auto &t : th) t.join();
    for (int i = 0; i < 2; i++) f->processFrame(ret);
    sched::Atomic a;
    if ((int)ran.size() != n * pushers + sent) mc::fail("events", "%d events sent, executed %s", n * pushers + sent, ids(ran).c_str());
    std::map<int, int> last;
    for (int v : ran) { int g = v / 100; if (last.count(g) && v <= last[g]) mc::fail("order", "executed %s", ids(ran).c_str()); last[g] = v; }
    mc::Hash h; for (int v : ran) h.add(v); mc::outcome(h.h); mc::state(h.h);
}
