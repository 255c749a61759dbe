// One producer thread and one consumer thread on a discrete frame queue; every
// schedule.  The consumer must see published frames whole, in order, at most
// once; a frame may be missing only if the queue was full and the producer
// forced room, and every such discard is counted.
#include "common.hh"
#include "sched.hh"

static const char *KEY_TORN = "torn-frame";

void sched_body() {
    const int size = mc::param("size", 3);          // slots; size-1 usable
    const int n = mc::param("frames", 4);
    const bool forced = mc::param("forced", 1);
    const int pre = mc::param("pre", 0);            // ring offset
    StreamInfo *si;
    SmallQueue *q;
    {
        sched::Atomic a;
        si = new StreamInfo(VIDEO);
        q = new SmallQueue(cdata(1, 1, 2, 1), si, size);
        for (int i = 0; i < pre; i++) { Frame *f = q->getRear(); stamp(f, 900 + i); q->addFrame(); q->getFront(); q->removeFrame(); }
    }
    std::vector<int> published, consumed;
    bool done = false;
    std::mutex dm;
    {
        sched::Atomic a;
        published.reserve(n); consumed.reserve(n + 8);
    }
    std::thread prod([&] {
        for (int i = 0; i < n; i++) {
            Frame *f = forced ? q->forceGetRear() : q->getRear();
            if (!f) { if (forced) mc::fail("no-room", "forced room was not obtained"); sched::Atomic a; mc::op("producer: full, frame %d skipped", i); continue; }
            { sched::Atomic a; f->setLength(0); }
            stamp(f, 10 + i);
            std::vector<int> en = q->addFrame();
            { sched::Atomic a; mc::op("producer: published %d", i); published.push_back(10 + i); if (en.size() != 1 || en[0] != 2) mc::fail("enabled", "publishing must enable the reader filter"); }
        }
        std::lock_guard<std::mutex> g(dm);
        done = true;
    });
    auto consume = [&]() -> bool {
        Frame *f = q->getFront();
        if (!f) return false;
        int v;
        { sched::Atomic a; v = f->getSequenceNumber(); if (!stamped(f, v)) { mc::fail(KEY_TORN, "the consumer obtained a frame that is not a published one (sequence %d)", v); } mc::op("consumer: obtained %d", v - 10); }
        sched::point();
        { sched::Atomic a; if ((int)f->getSequenceNumber() != v || !stamped(f, v)) mc::fail("overwritten", "frame %d was overwritten while the consumer was reading it", v - 10); }
        int w = q->removeFrame();
        { sched::Atomic a;
          if (w != 1) mc::fail("remove", "removing a held frame must enable the writer filter, got %d", w);
          if (!consumed.empty() && v <= consumed.back()) mc::fail("order", "frame %d consumed after frame %d", v - 10, consumed.back() - 10);
          consumed.push_back(v); mc::op("consumer: released %d", v - 10); }
        return true;
    };
    for (int k = 0; k < mc::param("polls", 3); k++) { consume(); }
    prod.join();
    while (consume()) { if ((int)consumed.size() > n) break; }
    sched::Atomic a;
    size_t lost = q->getLostBlocs();
    for (int v : consumed) if (std::find(published.begin(), published.end(), v) == published.end()) mc::fail("unpublished", "frame %d was consumed but never published", v - 10);
    if (consumed.size() + lost != published.size()) mc::fail("lost", "%zu published, %zu consumed, %zu counted as discarded", published.size(), consumed.size(), lost);
    if (!forced && lost) mc::fail("lost", "%zu discarded without forcing", lost);
    if (q->getElements() != 0) mc::fail("elements", "%u elements in an empty queue", q->getElements());
    mc::Hash h; for (int v : consumed) h.add(v); h.add(lost); mc::outcome(h.h); mc::state(h.h);
    delete q; delete si;
}
