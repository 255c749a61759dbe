// Connection lifecycle: every sequence of connecting, disconnecting from either
// end, sharing, refusing and processing on a small set of filters, against a
// model of which ends are attached.  Memory errors are caught by ASan, and the
// number of queues alive must equal the number of connections with an end left.
#include "filters.hh"

struct Conn { bool w, connected; std::set<std::pair<int,int>> r; };   // writer end attached, usable, reader ends (filter, reader)

void mc_body() {
    StreamInfo si(VIDEO); filter_si = &si;
    SmallQueue::live = 0;
    const int depth = mc::param("depth", 5);
    const int nP = mc::param("producers", 2), nC = 2, W = mc::param("writers", 1), R = mc::param("readers", 1);
    const bool refusals = mc::param("refuse", 1);
    
    std::vector<Gen*> p, c;
    for (int i = 0; i < nP; i++) { p.push_back(new Gen(0, W)); p[i]->setId(10 + i); }
    for (int i = 0; i < nC; i++) { c.push_back(new Gen(R, 0)); c[i]->setId(20 + i); }
    std::vector<Conn*> conns;
    std::map<std::pair<int,int>, Conn*> wend, rend;     // what each end is attached to
    int seq = 1; std::map<Conn*, std::deque<int>> content;
    int seen = 0;
    for (int i = 0; i < nP; i++) p[i]->body = [&, i](std::map<int, Frame*> &, std::map<int, Frame*> &d, std::vector<int> &, int &) {
        for (auto &x : d) { Conn *k = wend[{i, x.first}]; MC_CHECK(k && k->connected, "dangling", "writer %d of producer %d is offered a frame although it is not connected", x.first, i); stamp(x.second, seq); x.second->setConsumed(true); content[k].push_back(seq); if (content[k].size() > 3) content[k].erase(content[k].end() - 2); seq++; }
    };
    for (int i = 0; i < nC; i++) c[i]->body = [&, i](std::map<int, Frame*> &o, std::map<int, Frame*> &, std::vector<int> &nf, int &) {
        for (int id : nf) { auto it = rend.find({i, id}); MC_CHECK(it != rend.end() && it->second->connected, "dangling", "reader %d of consumer %d delivers although it is not connected", id, i);
            Frame *f = o[id]; int v = f->getSequenceNumber();
            MC_CHECK(stamped(f, v), "content", "reader %d of consumer %d delivers a damaged frame", id, i);
            std::deque<int> &q = content[it->second];
            MC_CHECK(std::find(q.begin(), q.end(), v) != q.end(), "foreign", "reader %d of consumer %d delivers frame %d, which was not sent on this connection", id, i, v);
            seen++; }
    };
    auto drop_w = [&](std::pair<int,int> k) { Conn *x = wend[k]; wend.erase(k); x->w = false; x->connected = false; };
    auto drop_r = [&](std::pair<int,int> k) { Conn *x = rend[k]; rend.erase(k); x->r.erase(k); if (x->r.empty()) x->connected = false; };
    auto alive = [&] { int n = 0; for (Conn *x : conns) n += x->w || !x->r.empty(); return n; };
    for (int d = 0; d < depth; d++) {
        int op = mc::choose(refusals ? 7 : 6); if (!refusals && op) op++;
        if (op == 0 || op == 1) {                    // connect; 1: some step is refused
            int i = mc::choose(nP), w = 1 + mc::choose(W + (W > 1)), j = mc::choose(nC), r = 1 + mc::choose(R + (R > 1));
            int refuse = op == 1 ? 1 + mc::choose(3) : 0;
            if (refuse == 1) p[i]->alloc_ok = false;
            if (refuse == 2) p[i]->wconf_ok = false;
            if (refuse == 3) c[j]->rconf_ok = false;
            bool ok = p[i]->connectManyToMany(c[j], r, w);
            p[i]->alloc_ok = p[i]->wconf_ok = c[j]->rconf_ok = true;
            // writers whose reader has gone give their place back
            auto busy = rend.find({j, r});
            if (busy == rend.end() || !busy->second->connected) { std::vector<std::pair<int,int>> stale; for (auto &x : wend) if (x.first.first == i && !x.second->connected) stale.push_back(x.first); for (auto &k : stale) drop_w(k); }
            int nw = 0, nr = 0; for (auto &x : wend) nw += x.first.first == i; for (auto &x : rend) nr += x.first.first == j;
            bool want = !refuse && !rend.count({j, r}) && nr < R && nw < W && !wend.count({i, w});
            mc::op("connect producer %d writer %d to consumer %d reader %d%s: %s", i, w, j, r, refuse == 1 ? " (no queue)" : refuse == 2 ? " (writer refused)" : refuse == 3 ? " (reader refused)" : "", ok ? "ok" : "refused");
            MC_CHECK(ok == want, "connect", "connecting %s but should %s", ok ? "succeeded" : "failed", want ? "succeed" : "fail");
            if (ok) { Conn *x = new Conn{true, true, {{j, r}}}; conns.push_back(x); wend[{i, w}] = x; rend[{j, r}] = x; }
        } else if (op == 2) {
            int i = mc::choose(nP), w = 1 + mc::choose(W);
            bool ok = p[i]->disconnectWriter(w);
            mc::op("disconnect writer %d of producer %d", w, i);
            MC_CHECK(ok, "disconnect", "disconnecting a writer failed");
            if (wend.count({i, w})) drop_w({i, w});
        } else if (op == 3) {
            int j = mc::choose(nC), r = 1 + mc::choose(R);
            bool ok = c[j]->disconnectReader(r);
            mc::op("disconnect reader %d of consumer %d", r, j);
            MC_CHECK(ok, "disconnect", "disconnecting a reader failed");
            if (rend.count({j, r})) drop_r({j, r});
        } else if (op == 4) {                        // share consumer 0's reader with consumer 1, or the other way round
            int j = mc::choose(2), r = 1, r2 = 1 + mc::choose(R + 1);
            bool refuse = refusals && mc::flip();
            if (refuse) c[1-j]->rconf_ok = false;
            bool ok = c[j]->shareReader(c[1-j], r2, r);
            c[1-j]->rconf_ok = true;
            auto o = rend.find({j, r}); auto t = rend.find({1-j, r2});
            bool want = o != rend.end() && o->second->connected && !(t != rend.end() && t->second->connected) && !refuse;
            int nr = 0; for (auto &x : rend) nr += x.first.first == 1-j;
            if (t == rend.end() && nr >= R) want = false;      // no more readers than the filter has
            if (want) for (auto &x : o->second->r) if (x.first == 1-j) { mc::prune(); } // one filter sharing the same queue twice is outside the interface
            mc::op("share reader of consumer %d with consumer %d reader %d: %s", j, 1-j, r2, ok ? "ok" : "refused");
            MC_CHECK(ok == want, "share", "sharing %s but should %s", ok ? "succeeded" : "failed", want ? "succeed" : "fail");
            if (ok) { Conn *x = o->second; if (t != rend.end()) { drop_r({1-j, r2}); } rend[{1-j, r2}] = x; x->r.insert({1-j, r2}); }
        } else if (op == 5) {
            int i = mc::choose(nP), ret;
            mc::op("process producer %d", i);
            std::vector<std::pair<int,int>> stale; for (auto &x : wend) if (x.first.first == i && !x.second->connected) stale.push_back(x.first);
            std::vector<int> en = p[i]->processFrame(ret);
            for (auto &k : stale) drop_w(k);
            std::multiset<int> want; for (auto &x : wend) if (x.first.first == i) for (auto &y : x.second->r) want.insert(20 + y.first);
            MC_CHECK(std::multiset<int>(en.begin(), en.end()) == want, "enabled", "publishing enabled %s", ids(en).c_str());
        } else {
            int j = mc::choose(nC), ret;
            mc::op("process consumer %d", j);
            std::vector<std::pair<int,int>> stale; for (auto &x : rend) if (x.first.first == j && !x.second->connected) stale.push_back(x.first);
            c[j]->processFrame(ret);
            for (auto &k : stale) drop_r(k);
        }
        for (int i = 0; i < nP; i++) for (int w = 1; w <= W + 1; w++) {
            bool want = wend.count(std::make_pair(i, w)) && wend[std::make_pair(i, w)]->connected;
            MC_CHECK(p[i]->isWConnected(w) == want, "state", "writer %d of producer %d reports %s", w, i, want ? "disconnected" : "connected");
            ConnectionData cd = p[i]->getWConnectionData(w);
            if (want) { std::set<std::pair<int,int>> rs; for (auto &x : cd.readers) rs.insert({x.rFilterId - 20, x.readerId});
                MC_CHECK(cd.wFilterId == 10 + i && cd.writerId == w && rs == wend[std::make_pair(i, w)]->r, "cdata", "the connection data of writer %d of producer %d do not describe its connection", w, i); }
            else MC_CHECK(cd.wFilterId == -1, "cdata", "connection data of a writer that is not connected");
        }
        for (int j = 0; j < nC; j++) for (int r = 1; r <= R + 1; r++) {
            bool want = rend.count({j, r}) && rend[{j, r}]->connected;
            MC_CHECK(c[j]->isRConnected(r) == want, "state", "reader %d of consumer %d reports %s", r, j, want ? "disconnected" : "connected");
        }
        MC_CHECK(SmallQueue::live == alive(), "queues", "%d queues alive, %d connections have an end left", SmallQueue::live, alive());
        mc::Hash h; for (Conn *x : conns) if (x->w || !x->r.empty()) { h.add(x->w).add(x->connected); for (auto &y : x->r) h.add(y.first).add(y.second); }
        for (auto &x : wend) h.add(x.first.first).add(x.first.second).add(x.second->r.size()); mc::state(h.h);
    }
    mc::outcome(mc::Hash().add(conns.size()).add(seen).add(alive()).h);
    // everything is released whatever the order of destruction
    if (mc::flip()) { for (auto f : p) delete f; for (auto f : c) delete f; }
    else { for (auto f : c) delete f; for (auto f : p) delete f; }
    MC_CHECK(SmallQueue::live == 0, "queue-leak", "%d queues left after all filters are destroyed", SmallQueue::live);
    for (auto x : conns) delete x;
}
