// Control events of a filter: every sequence of sending events (ordered and
// late timestamps, delays, unknown or failing actions), letting time pass and
// processing, under a virtual clock.
#include "filters.hh"

struct Sent { int id; int64_t ts; int64_t delay; int kind; };
static int64_t now_us() { return mc::vclock_ns / 1000; }
static Event mkevent(int kind, int id, int64_t ts_us, int delay) {
    Jzon::Object o, p; p.Add("id", id);
    if (kind != 3) o.Add("action", kind == 2 ? "nonsense" : kind == 1 ? "failing" : "act");
    if (kind != 4) o.Add("params", p);
    return Event(o, std::chrono::system_clock::time_point(std::chrono::microseconds(ts_us)), delay);
}

void mc_body() {
    const int depth = mc::param("depth", 5);
    const std::string kind = mc::sparam("filter", "mid");
    StreamInfo si(VIDEO); filter_si = &si; routed_events.clear(); route_hook = nullptr;
    mc::vclock_ns = 1000000000000ll;
    std::vector<int> ran;                       // ids in execution order; -1: without parameters
    std::vector<int> tried;
    auto act = [&](Jzon::Node *p) { ran.push_back(p ? p->Get("id").ToInt() : -1); return true; };
    auto fail = [&](Jzon::Node *p) { ran.push_back(p ? p->Get("id").ToInt() : -1); return false; };
    Mid mid; Gen other(1, 1), up(0, 1); mid.setId(5); other.setId(6); up.setId(4);
    Src src; src.setId(7); Snk snk; snk.setId(8);
    BaseFilter *f = kind == "head" ? (BaseFilter*)&src : kind == "tail" ? (BaseFilter*)&snk : (BaseFilter*)&mid;
    const bool direct = kind != "mid";
    mid.events("act", act); mid.events("failing", fail); src.events("act", act); src.events("failing", fail); snk.events("act", act); snk.events("failing", fail);
    if (!direct && !up.connectManyToOne(&mid, 1)) mc::fail("connect", "plain connection refused");
    std::vector<Sent> pend; std::vector<int> want; int id = 1; bool linked = false;
    auto process_model = [&] {
        for (;;) {
            if (pend.empty()) return;
            size_t k = 0; for (size_t i = 1; i < pend.size(); i++) if (pend[i].ts < pend[k].ts) k = i;
            if (now_us() - pend[k].ts < pend[k].delay * 1000) return;
            if (pend[k].kind == 0 || pend[k].kind == 1) want.push_back(pend[k].id);
            if (pend[k].kind == 4) want.push_back(-1);
            pend.erase(pend.begin() + k);
        }
    };
    for (int d = 0; d < depth; d++) {
        int op = mc::choose(3);
        if (op == 0) {
            static const int delays[] = {0, 10, 25};
            int k = mc::choose(5), dl = delays[mc::choose(3)], late = mc::choose(2);
            int64_t ts = now_us() - (late ? 15003 : 0) + id * 7;   // never two equal times
            if (!late) mc::vclock_ns += 1000000;
            mc::op("send event %d%s%s, delay %d ms", id, k == 1 ? " (failing)" : k == 2 ? " (unknown action)" : k == 3 ? " (no action)" : k == 4 ? " (no parameters)" : "", late ? ", stamped in the past" : "", dl);
            f->pushEvent(mkevent(k, id, ts, dl));
            Sent s = {id, ts, dl, k}; id++;
            if (direct) { if (k == 0 || k == 1) want.push_back(s.id); if (k == 4) want.push_back(-1); }
            else pend.push_back(s);
        } else if (op == 1) {
            static const int steps[] = {4, 12, 30};
            int st = steps[mc::choose(3)]; mc::vclock_ns += st * 1000000ll; mc::op("%d ms pass", st);
        } else {
            int w = direct ? 0 : mc::choose(linked ? 2 : 3);
            int ret;
            if (w == 0) { mc::op("process"); f->processFrame(ret); }
            else if (w == 1) { mc::op("process with a frame"); up.body = [](std::map<int, Frame*> &, std::map<int, Frame*> &d, std::vector<int> &, int &) { for (auto x : d) x.second->setConsumed(true); }; up.processFrame(ret); f->processFrame(ret); }
            else { mc::op("connect"); if (!mid.connectManyToMany(&other, 1, 1)) mc::fail("connect", "connecting failed"); linked = true; }
            process_model();
        }
        if (ran != want) mc::fail("events", "executed %s, expected %s", ids(ran).c_str(), ids(want).c_str());
        mc::Hash h; for (auto &s : pend) h.add(s.id).add(now_us() - s.ts).add(s.delay).add(s.kind); h.add(want.size()); mc::state(h.h);
    }
    mc::vclock_ns += 100000000; int ret; f->processFrame(ret); if (!direct) process_model();
    if (ran != want) mc::fail("events", "executed %s, expected %s in the end", ids(ran).c_str(), ids(want).c_str());
    if (!pend.empty()) mc::harness_error("model keeps events");
    mc::Hash h; for (int v : want) h.add(v); mc::outcome(h.h);
}
