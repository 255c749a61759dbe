// Frame accounting of the filter classes: every sequence of processing the
// filters of a small graph, with every answer of the processing step
// (produces, produces on some outputs, declines), against a model of the
// queues.  What each step is offered, what it takes, what it publishes, whom
// it wakes and how frames are numbered and stamped is checked.
#include "filters.hh"

struct Item { int v; int seq; int64_t org; };
struct Q { std::deque<Item> pend; Item last; bool any; size_t lost; int reader; Q() : any(false), lost(0), reader(0) { last.v = 0; } };
static const int CAP = 3;       // usable slots
static int64_t org_us(Frame *f) { return std::chrono::duration_cast<std::chrono::microseconds>(f->getOriginTime().time_since_epoch()).count(); }
static void mark(Frame *f, int v) { unsigned n = 3 + v % 5; for (unsigned i = 0; i < n; i++) f->getDataBuf()[i] = (unsigned char)(v * 7 + i); f->setLength(n); f->setPresentationTime(usec(1000 + v)); }
static bool marked(Frame *f, int v) { unsigned n = 3 + v % 5; if (f->getLength() != n || f->getPresentationTime() != usec(1000 + v)) return false; for (unsigned i = 0; i < n; i++) if (f->getDataBuf()[i] != (unsigned char)(v * 7 + i)) return false; return true; }

struct Node {
    BaseFilter *f; int id; bool periodic, server; bool head, tail;
    std::map<int, Q*> in, out;
    std::function<void()> detach;
    Node() : f(0), id(0), periodic(false), server(false), head(false), tail(false) {}
};

void mc_body() {
    mc::vclock_ns = 1000000000000ll;
    StreamInfo si(VIDEO); filter_si = &si; SmallQueue::live = 0;
    const std::string topo = mc::sparam("topo", "line");
    const int depth = mc::param("depth", 6);
    const FilterRole role = mc::param("server", 0) ? SERVER : REGULAR;
    const bool periodic = mc::param("periodic", 0);
    std::vector<Node> N; std::vector<std::unique_ptr<Q>> qs;
    auto newq = [&](int reader) { qs.emplace_back(new Q()); qs.back()->reader = reader; return qs.back().get(); };
    const FilterRole erole = topo == "direct" ? role : REGULAR;      // receivers and transmitters are servers
    std::unique_ptr<Src> s1(new Src(2, erole)), s2(new Src(2)); std::unique_ptr<Mid> m; std::unique_ptr<Spl> sp; std::unique_ptr<Mix> mx; std::unique_ptr<Snk> k1(new Snk(2, erole)), k2(new Snk(2));
    s1->setId(1); s2->setId(2); k1->setId(8); k2->setId(9);
    auto add = [&](BaseFilter *f, bool per, bool head, bool tail, bool server) { Node n; n.f = f; n.id = f->getId(); n.periodic = per; n.head = head; n.tail = tail; n.server = server; N.push_back(n); return N.size() - 1; };
    auto link = [&](size_t a, int w, size_t b, int r) { if (!N[a].f->connectManyToMany(N[b].f, r, w)) mc::fail("connect", "plain connection refused"); Q *q = newq(N[b].id); N[a].out[w] = q; N[b].in[r] = q; };
    if (topo == "line") { m.reset(new Mid(role, periodic)); m->setId(5); size_t a = add(s1.get(), true, true, false, false), b = add(m.get(), periodic, false, false, role == SERVER), c = add(k1.get(), false, false, true, false); link(a, 1, b, 1); link(b, 1, c, 1); }
    else if (topo == "split") { sp.reset(new Spl(2, role, periodic)); sp->setId(5); size_t a = add(s1.get(), true, true, false, false), b = add(sp.get(), periodic, false, false, role == SERVER), c = add(k1.get(), false, false, true, false), d = add(k2.get(), false, false, true, false); link(a, 1, b, 1); link(b, 1, c, 1); link(b, 2, d, 1); }
    else if (topo == "mix") { mx.reset(new Mix(2, role, periodic)); mx->setId(5); size_t a = add(s1.get(), true, true, false, false), a2 = add(s2.get(), true, true, false, false), b = add(mx.get(), periodic, false, false, role == SERVER), c = add(k1.get(), false, false, true, false); if (!mc::param("noin", 0)) { link(a, 1, b, 1); link(a2, 1, b, 2); } link(b, 1, c, 1); }     // noin: nothing feeds the mixer
    else { size_t a = add(s1.get(), true, true, false, erole == SERVER), c = add(k1.get(), false, false, true, erole == SERVER); link(a, 1, c, 1); link(a, 2, c, 2); }
    for (Node &n : N) if (n.tail) { Snk *k = dynamic_cast<Snk*>(n.f); k->setSync(false); }
    std::map<std::pair<int,int>, int> headseq; int mixseq = 0; int next = 1;
    // what the processing step sees and answers
    int cur = -1, answer = 0; bool called = false; std::vector<int> expectNew;
    std::map<int, Item> produced;           // by writer
    auto seen_inputs = [&](std::map<int, Frame*> &o, std::vector<int> *nf) {
        Node &n = N[cur];
        std::vector<int> want; for (auto &x : n.in) if (!x.second->pend.empty()) want.push_back(x.first);
        if (nf) { std::vector<int> g = *nf; std::sort(g.begin(), g.end()); MC_CHECK(g == want, "inputs", "filter %d is told that inputs %s have a new frame, they are %s", n.id, ids(g).c_str(), ids(want).c_str()); }
        MC_CHECK(o.size() == n.in.size(), "inputs", "filter %d is offered %zu inputs of %zu", n.id, o.size(), n.in.size());
        for (auto &x : n.in) {
            MC_CHECK(o.count(x.first) && o[x.first], "inputs", "filter %d is not offered input %d", n.id, x.first);
            Frame *f = o[x.first]; bool nw = !x.second->pend.empty();
            MC_CHECK(f->getConsumed() == nw, "inputs", "input %d of filter %d is marked %s", x.first, n.id, nw ? "old" : "new");
            if (nw || x.second->any) { Item &it = nw ? x.second->pend.front() : x.second->last;
                MC_CHECK(marked(f, it.v), "content", "input %d of filter %d is not frame %d", x.first, n.id, it.v);
                if (it.seq >= 0) MC_CHECK((int)f->getSequenceNumber() == it.seq, "sequence", "frame %d has sequence number %zu, expected %d", it.v, f->getSequenceNumber(), it.seq);
                if (it.org >= 0) MC_CHECK(org_us(f) == it.org, "origin", "frame %d carries origin time %ld, expected %ld", it.v, (long)org_us(f), (long)it.org); }
        }
    };
    auto produce = [&](int w, Frame *d) { MC_CHECK(d, "outputs", "no frame to fill"); MC_CHECK(!d->getConsumed(), "outputs", "the frame to fill on output %d is already marked as filled", w); Item it; it.v = next++; mark(d, it.v); d->setConsumed(true); produced[w] = it; };
    auto outs = [&](std::map<int, Frame*> &d) { Node &n = N[cur]; MC_CHECK(d.size() == n.out.size(), "outputs", "filter %d is offered %zu outputs of %zu", n.id, d.size(), n.out.size()); std::set<Frame*> u; for (auto &x : d) { MC_CHECK(n.out.count(x.first), "outputs", "filter %d is offered output %d, which is not connected", n.id, x.first); u.insert(x.second); } MC_CHECK(u.size() == d.size(), "outputs", "two outputs share a frame"); };
    // a consumer may go while the step that fills a frame for it is under way
    bool leave = false; int left = 0;
    auto go_away = [&](Node &n) {
        auto x = n.out.begin(); for (Node &k : N) for (auto y = k.in.begin(); y != k.in.end(); ) if (y->second == x->second) { k.f->disconnectReader(y->first); mc::op("consumer %d leaves", k.id); y = k.in.erase(y); } else ++y;
        n.out.erase(x);
    };
    auto leaving = [&]() { Node &n = N[cur]; if (leave && !n.out.empty()) { left = n.out.begin()->first; go_away(n); produced.erase(left); } };
    auto headbody = [&](std::map<int, Frame*> &d, int &ret) { called = true; outs(d); int i = 0; for (auto &x : d) if (answer & (1 << i++)) produce(x.first, x.second); ret = 70 + answer; leaving(); return answer != 0; };
    s1->body = headbody; s2->body = headbody;
    auto tailbody = [&](std::map<int, Frame*> &o, std::vector<int> &nf, int &ret) { called = true; seen_inputs(o, &nf); ret = 70; return answer != 0; };
    k1->body = tailbody; k2->body = tailbody;
    if (m) m->body = [&](Frame *o, Frame *d) { called = true; if (o) { std::map<int, Frame*> t; t[1] = o; if (!N[cur].in.empty()) seen_inputs(t, NULL); } if (answer == 1) produce(1, d); if (answer == 1) { d->setSequenceNumber(o->getSequenceNumber()); d->setOriginTime(o->getOriginTime()); } leaving(); return answer != 0; };
    if (sp) sp->body = [&](Frame *o, std::map<int, Frame*> &d) { called = true; std::map<int, Frame*> t; t[1] = o; seen_inputs(t, NULL); outs(d); int i = 0; for (auto &x : d) if (answer & (1 << i++)) produce(x.first, x.second); leaving(); return answer != 0; };
    if (mx) mx->body = [&](std::map<int, Frame*> &o, Frame *d, std::vector<int> &nf) { called = true; seen_inputs(o, &nf); if (answer == 1) produce(1, d); leaving(); return answer != 0; };
    for (int step = 0; step < depth; step++) {
        cur = mc::choose(N.size()); Node &n = N[cur];
        answer = mc::choose(n.out.size() > 1 ? 4 : 2);
        bool unlink = false;
        if (mc::param("unlink", 0) && !n.out.empty() && answer == 0 && mc::flip()) unlink = true;
        mc::vclock_ns += 5000000;
        if (unlink) {                                    // the first consumer goes away
            go_away(n);
            continue;
        }
        leave = mc::param("unlink", 0) == 2 && answer != 0 && !n.out.empty() && mc::flip(); left = 0;
        called = false; produced.clear();
        bool anynew = false; for (auto &x : n.in) anynew |= !x.second->pend.empty();
        bool has_in = !n.head, has_out = !n.tail;
        bool go = n.server ? true : (!has_in || anynew) && (!has_out || !n.out.empty());
        if (n.server && !n.head && !n.tail && ((n.in.empty() && !mx) || n.out.empty())) { mc::op("(skipped)"); continue; }   // a server without ends gets nothing to work on
        int ret = 5;
        mc::op("process filter %d, answer %d", n.id, answer);
        std::map<int, size_t> lost0; for (auto &x : n.out) lost0[x.first] = x.second->lost;
        std::vector<int> en = n.f->processFrame(ret);
        MC_CHECK(called == go, "called", "the processing step of filter %d was %s", n.id, called ? "called although it had nothing to do" : "not called although it had work");
        if (!go) MC_CHECK(ret == WAIT, "ret", "filter %d asks to wait %d us", n.id, ret);
        if (go && (n.head || n.tail)) MC_CHECK(ret == (n.tail ? 70 : 70 + answer), "ret", "filter %d returns %d", n.id, ret);
        // inputs are taken exactly once, whatever the answer
        Item first; first.v = 0; bool hasfirst = false;
        for (auto &x : n.in) if (!x.second->pend.empty()) { if (!hasfirst) { first = x.second->pend.front(); hasfirst = true; } x.second->last = x.second->pend.front(); x.second->any = true; x.second->pend.pop_front(); } else if (!hasfirst && x.second->any) { first = x.second->last; hasfirst = true; }
        // offering an output when the queue is full discards its newest frame
        if (go || (has_in ? anynew : true)) for (auto &x : n.out) if ((int)x.second->pend.size() == CAP) { x.second->pend.pop_back(); x.second->lost++; }
        std::multiset<int> wantEn;
        int64_t now = mc::vclock_ns / 1000;
        if (called && mx && n.f == mx.get() && produced.count(1)) { produced[1].seq = mixseq++; produced[1].org = now; }
        for (auto &x : produced) {
            Item it = x.second;
            if (n.head) { it.seq = headseq[std::make_pair(n.id, x.first)]++; it.org = now; }
            else if (m || sp) { it.seq = hasfirst ? first.seq : -1; it.org = hasfirst ? first.org : -1; }
            n.out[x.first]->pend.push_back(it); wantEn.insert(n.out[x.first]->reader);
        }
        if (n.periodic) wantEn.insert(n.id);
        MC_CHECK(std::multiset<int>(en.begin(), en.end()) == wantEn, "enabled", "filter %d wakes %s", n.id, ids(en).c_str());
        for (Node &k : N) { bool p = false; for (auto &x : k.in) p |= !x.second->pend.empty(); MC_CHECK(((Runnable*)k.f)->pendingJobs() == p, "pending", "filter %d reports %s pending", k.id, p ? "nothing" : "something"); }
        for (auto &x : n.in) MC_CHECK(n.f->getLostBlocs(x.first) == x.second->lost, "lost", "input %d of filter %d counts %zu discarded frames, expected %zu", x.first, n.id, n.f->getLostBlocs(x.first), x.second->lost);
        mc::Hash h; for (auto &q : qs) { h.add(q->pend.size()).add(q->lost); } h.add(cur).add(next); mc::state(h.h);
    }
    mc::Hash h; for (auto &q : qs) h.add(q->pend.size()).add(q->lost).add(q->any); mc::outcome(h.add(next).h);
    s1.reset(); s2.reset(); m.reset(); sp.reset(); mx.reset(); k1.reset(); k2.reset();
    MC_CHECK(SmallQueue::live == 0, "queue-leak", "%d queues left", SmallQueue::live);
}
