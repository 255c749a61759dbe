// A producer thread and two or three consumer threads sharing one reader; every
// schedule within the bound.  A member may leave half way (between frames).
#include "common.hh"
#include "sched.hh"
#include "IOInterface.hh"

void sched_body() {
    const int nf = mc::param("filters", 2), n = mc::param("frames", 2), size = mc::param("size", 4);
    const int leave = mc::param("leave", -1);        // this filter leaves after its first poll
    const int join = mc::param("join", -1);          // this one joins while the others process
    const bool forced = mc::param("forced", 0);
    StreamInfo *si; SmallQueue *q;
    std::vector<std::vector<int>> got(nf); std::vector<int> pub;
    { sched::Atomic a; si = new StreamInfo(VIDEO); q = new SmallQueue(cdata(1, 1, 2, 1), si, size); for (auto &g : got) g.reserve(n + 2); pub.reserve(n); }
    std::shared_ptr<Writer> w(new Writer());
    std::shared_ptr<Reader> r(new Reader());
    w->setQueue(q); w->connect(r);
    for (int i = 1; i < nf; i++) if (i != join) r->addReader(2 + i, 1);
    auto poll = [&](int i) -> bool {
        bool nw = false;
        Frame *f = r->getFrame(2 + i, nw);
        if (!f) mc::fail("null", "no frame from a connected reader");
        if (!nw) return false;
        int v;
        { sched::Atomic a; v = f->getSequenceNumber(); if (!stamped(f, v)) mc::fail("content", "filter %d obtained something that was not published", 2 + i); mc::op("filter %d obtains %d", 2 + i, v - 10); }
        sched::point();
        { sched::Atomic a; if ((int)f->getSequenceNumber() != v || !stamped(f, v)) mc::fail("overwritten", "frame %d was overwritten while filter %d reads it", v - 10, 2 + i);
          if (!got[i].empty() && v <= got[i].back()) mc::fail("repeated", "filter %d obtains %d after %d", 2 + i, v - 10, got[i].back() - 10);
          got[i].push_back(v); }
        r->removeFrame(2 + i);
        return true;
    };
    std::vector<std::thread> th;
    for (int i = 1; i < nf; i++) th.emplace_back([&, i] {
        if (i == join) { r->addReader(2 + i, 1); sched::Atomic a; mc::op("filter %d joins", 2 + i); }
        for (int k = 0; k < n; k++) {
            poll(i);
            if (i == leave) { r->disconnect(2 + i); sched::Atomic a; mc::op("filter %d leaves", 2 + i); return; }
        }
    });
    std::thread prod([&] {
        for (int i = 0; i < n; i++) {
            Frame *f = w->getFrame(forced);
            if (!f) continue;
            stamp(f, 10 + i);
            w->addFrame();
            sched::Atomic a; pub.push_back(10 + i); mc::op("published %d", i);
        }
    });
    for (int k = 0; k < n; k++) poll(0);
    prod.join();
    for (auto &t : th) t.join();
    for (int k = 0; k < 2 * n + 2; k++) for (int i = 0; i < nf; i++) if (i != leave) poll(i);
    sched::Atomic a;
    size_t lost = q->getLostBlocs();
    mc::Hash h;
    for (int i = 0; i < nf; i++) {
        h.add(got[i].size());
        if (i == leave) continue;
        if (i == join) { if (got[i].size() > got[0].size() || !std::equal(got[i].begin(), got[i].end(), got[0].end() - got[i].size())) mc::fail("missed", "filter %d joined and obtained %zu frames, not the last ones of the %zu others obtained", 2 + i, got[i].size(), got[0].size()); continue; }
        if (got[i].size() + lost != pub.size()) mc::fail("missed", "filter %d obtained %zu of %zu published frames (%zu discarded)", 2 + i, got[i].size(), pub.size(), lost);
    }
    for (int i = 1; i < nf; i++) if (i != leave && i != join && leave < 0 && got[i] != got[0]) mc::fail("missed", "filters saw different frames");
    if (q->getElements()) mc::fail("stall", "%u frames stay in the queue", q->getElements());
    mc::outcome(h.h); mc::state(h.h);
    w.reset(); r.reset();
}
