// A queue read by several filters through one shared reader: every sequence of
// publishing, obtaining, releasing, joining and leaving up to a depth.
#include "common.hh"
#include "IOInterface.hh"

void mc_body() {
    const int nf = mc::param("filters", 2), depth = mc::param("depth", 8), size = mc::param("size", 3);
    StreamInfo si(VIDEO);
    SmallQueue::live = 0;
    SmallQueue *q = new SmallQueue(cdata(1, 1, 2, 1), &si, size);
    std::shared_ptr<Writer> w(new Writer());
    std::shared_ptr<Reader> r(new Reader());
    w->setQueue(q);
    MC_CHECK(w->connect(r), "connect", "connection refused");
    struct M { bool member, need, hold; };
    std::vector<M> m(nf, M{false, false, false});
    m[0].member = true;
    int joined = mc::param("joined", nf);
    for (int i = 1; i < joined; i++) { r->addReader(2 + i, 1); m[i].member = true; }
    std::deque<int> unread; bool cur = false; int next = 10, pub = 0; std::vector<int> seen(nf, 0), last(nf, -1);
    auto members = [&] { int n = 0; for (auto &x : m) n += x.member; return n; };
    auto settle = [&] { // the current frame goes away when nobody needs or holds it
        if (!cur) return false;
        for (auto &x : m) if (x.member && (x.need || x.hold)) return false;
        cur = false; unread.pop_front(); return true;
    };
    auto pubd = [&]() -> bool {
        Frame *f = w->getFrame(false);
        if ((int)unread.size() == size - 1) { MC_CHECK(!f, "overrun", "a slot was offered although the queue is full of unread frames"); return false; }
        MC_CHECK(f, "slot", "no slot although the queue is not full");
        stamp(f, next); std::vector<int> en = w->addFrame();
        MC_CHECK((int)en.size() == members(), "enabled", "%zu filters enabled by a new frame, %d share the queue", en.size(), members());
        for (int i = 0; i < nf; i++) MC_CHECK(std::count(en.begin(), en.end(), 2 + i) == (m[i].member ? 1 : 0), "enabled", "filter %d enabled wrongly", 2 + i);
        mc::op("publish %d", next - 10);
        unread.push_back(next++); pub++;
        return true;
    };
    auto get = [&](int i) -> bool {
        bool nw = !m[i].need;
        Frame *f = r->getFrame(2 + i, nw);
        if (!cur && !unread.empty()) { cur = true; for (auto &x : m) if (x.member) x.need = x.hold = true; }
        bool want = cur && m[i].need;
        mc::op("filter %d obtains: %s", 2 + i, nw ? "new frame" : "nothing new");
        MC_CHECK(f, "null", "a connected reader returned no frame at all");
        MC_CHECK(nw == want, want ? "missed" : "repeated", "filter %d %s", 2 + i, want ? "was not given a frame it has not seen" : "was given a frame it had already seen, or that was never published");
        if (want) {
            MC_CHECK(stamped(f, unread.front()), "content", "filter %d obtained something that is not frame %d", 2 + i, unread.front() - 10);
            MC_CHECK(unread.front() > last[i], "order", "out of order");
            last[i] = unread.front(); seen[i]++; m[i].need = false;
        }
        return want;
    };
    auto rel = [&](int i) {
        int en = r->removeFrame(2 + i);
        mc::op("filter %d releases", 2 + i);
        m[i].hold = false;
        bool gone = settle();
        MC_CHECK(en == (gone ? 1 : -1), "release", "releasing returned %d although the frame was %s", en, gone ? "the last one needed" : "still needed by another filter");
    };
    for (int d = 0; d < depth && members(); d++) {
        int k = mc::choose(1 + 3 * nf);
        if (k == 0) { if (!pubd()) mc::prune(); }
        else {
            int i = (k - 1) % nf, what = (k - 1) / nf;
            if (what == 0) { if (!m[i].member || (m[i].hold && !m[i].need)) mc::prune(); get(i); }
            else if (what == 1) { if (!m[i].member || !(cur && m[i].hold && !m[i].need)) mc::prune(); rel(i); }
            else if (m[i].member) {
                bool ok = r->disconnect(2 + i);
                mc::op("filter %d leaves", 2 + i);
                m[i] = M{false, false, false};
                MC_CHECK(ok, "leave", "leaving failed");
                if (members()) settle();
            } else { r->addReader(2 + i, 1); mc::op("filter %d joins", 2 + i); m[i] = M{true, false, false}; last[i] = unread.empty() ? -1 : cur ? unread.front() : -1; }
        }
        MC_CHECK(r->isConnected() == (members() > 0) , "connected", "reader reports %d with %d filters", r->isConnected(), members());
        if (members()) MC_CHECK(r->getQueueElements() == unread.size(), "elements", "%zu frames in the queue, %zu unread", r->getQueueElements(), unread.size());
        mc::Hash h; h.add(unread.size()).add(cur); for (auto &x : m) h.add(x.member).add(x.need).add(x.hold); mc::state(h.h);
    }
    // nobody is left waiting: the remaining filters finish everything
    for (int round = 0; members() && !unread.empty(); round++) {
        MC_CHECK(round < 20, "stall", "%zu published frames can no longer be obtained by the remaining filters", unread.size());
        for (int i = 0; i < nf; i++) if (m[i].member) { if (!(m[i].hold && !m[i].need)) get(i); if (cur && m[i].hold && !m[i].need) rel(i); }
    }
    mc::Hash h; for (int s : seen) h.add(s); h.add(pub); mc::outcome(h.h);
    w.reset();
    r.reset();
    MC_CHECK(SmallQueue::live == 0, "queue-leak", "%d queues left after both ends are gone", SmallQueue::live);
}
