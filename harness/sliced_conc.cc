// An encoder thread publishing groups of slices and a consumer thread, every
// schedule: units arrive whole, in order, at most once, and only counted ones
// are missing.
#include "common.hh"
#include "sched.hh"
#include "SlicedVideoFrameQueue.hh"

static int fill(unsigned char *p, unsigned v) { int n = 2 + v % 3; for (int i = 0; i < n; i++) p[i] = (unsigned char)(v * 16 + i); return n; }
static bool good(Frame *f) { unsigned char *p = f->getDataBuf(); unsigned v = p[0] / 16; if (!v || f->getLength() != 2 + v % 3) return false; for (unsigned i = 0; i < f->getLength(); i++) if (p[i] != (unsigned char)(v * 16 + i)) return false; return f->getSequenceNumber() == (v + 1) / 2 && f->getPresentationTime() == usec(500 + (v + 1) / 2); }

void sched_body() {
    const int size = mc::param("size", 4), n = mc::param("groups", 2);
    StreamInfo *si; SlicedVideoFrameQueue *q;
    { sched::Atomic a; si = new StreamInfo(VIDEO); si->video.codec = H264; q = SlicedVideoFrameQueue::createNew(cdata(1, 1, 2, 1), si, size, 8); }
    std::vector<int> published, consumed; { sched::Atomic a; published.reserve(16); consumed.reserve(16); }
    std::thread prod([&] {
        unsigned char mem[2][8]; unsigned v = 1;
        for (int g = 1; g <= n; g++) {
            SlicedVideoFrame *s = dynamic_cast<SlicedVideoFrame*>(q->forceGetRear());
            s->setSequenceNumber(g); s->setPresentationTime(usec(500 + g));
            for (int i = 0; i < 2; i++) { int k; { sched::Atomic a; k = fill(mem[i], v); published.push_back(v); } s->setSlice(mem[i], k); v++; }
            q->addFrame();
            sched::Atomic a; mc::op("published group %d", g);
        }
    });
    auto consume = [&]() -> bool {
        Frame *f = q->getFront();
        if (!f) return false;
        int v;
        { sched::Atomic a; if (!good(f)) mc::fail("torn", "the consumer obtained something that is not a published unit"); v = f->getDataBuf()[0] / 16; }
        sched::point();
        { sched::Atomic a; if (!good(f) || f->getDataBuf()[0] / 16 != v) mc::fail("overwritten", "unit %d was overwritten while the consumer reads it", v); }
        int w = q->removeFrame();
        sched::Atomic a;
        if (w != 1) mc::fail("remove", "removing a held unit enabled %d", w);
        if (!consumed.empty() && v <= consumed.back()) mc::fail("order", "unit %d consumed after unit %d", v, consumed.back());
        consumed.push_back(v); mc::op("consumed %d", v);
        return true;
    };
    for (int k = 0; k < mc::param("polls", 3); k++) consume();
    prod.join();
    while (consume()) ;
    sched::Atomic a;
    if (consumed.size() + q->getLostBlocs() != published.size()) mc::fail("lost", "%zu published, %zu consumed, %zu counted as lost", published.size(), consumed.size(), q->getLostBlocs());
    mc::Hash h; for (int v : consumed) h.add(v); mc::outcome(h.h); mc::state(h.h);
    delete q; delete si;
}
