// The queue behind a video encoder: coded frames come in as groups of slices
// that live in the encoder's memory; each slice becomes one queued unit.
#include "common.hh"
#include "SlicedVideoFrameQueue.hh"

struct Unit { unsigned v; int size; int group; int w, h; };
static unsigned char byte_of(unsigned v, int i) { return (unsigned char)(v * 37 + i * 11 + 1); }
typedef std::chrono::system_clock::time_point tp;
static tp origin(int g) { return tp(std::chrono::milliseconds(100000 + g)); }

void mc_body() {
    const int depth = mc::param("depth", 5), SZ = mc::param("slice", 12);
    const int slots[] = {3, 4, 6, 19};
    int max = slots[mc::choose(4)];
    VCodecType codec = mc::param("h265", 0) ? H265 : H264;
    StreamInfo si(VIDEO); si.video.codec = codec;
    SlicedVideoFrameQueue *q = SlicedVideoFrameQueue::createNew(cdata(7, 3, 11, 5), &si, max, SZ);
    MC_CHECK(q, "create", "the queue cannot be created");
    std::deque<Unit> m; size_t lost = 0; unsigned v = 1; int g = 1; std::deque<Unit> gone;
    int off = mc::choose(3);                   // position in the ring
    if (off == 2) off = max - 1;
    std::vector<unsigned char> mem(SZ * 20);
    auto publish = [&](int n, bool forced, bool toobig) {
        Frame *f = forced ? q->forceGetRear() : q->getRear();
        bool full = (int)m.size() == max - 1;
        MC_CHECK(!!f == (forced || !full), "rear", "room %s although %zu of %d units are pending", f ? "offered" : "refused", m.size(), max - 1);
        if (!f) return;
        SlicedVideoFrame *s = dynamic_cast<SlicedVideoFrame*>(f);
        MC_CHECK(s && s->getSliceNum() == 0, "rear", "the frame to fill is not an empty group of slices");
        f->setSequenceNumber(g); f->setPresentationTime(usec(5000 + g)); f->setDecodeTime(usec(4000 + g)); f->setOriginTime(origin(g)); s->setSize(100 + g, 50 + g);
        std::vector<Unit> add; int at = 0;
        for (int i = 0; i < n; i++) {
            int size = toobig && i == 0 ? SZ + 1 : i == n - 1 && n > 1 ? SZ : 1 + (v % (SZ - 1));
            unsigned char *p = &mem[at % (mem.size() - SZ - 1)]; at += SZ;
            std::vector<unsigned char> keep;
            if (i < 16) for (int k = 0; k < size; k++) p[k] = byte_of(v, k);
            bool ok = s->setSlice(p, size);
            MC_CHECK(ok == (i < 16), "slices", "slice %d of a group was %s", i, ok ? "accepted" : "refused");
            if (ok) { Unit u = {v, size, g, 100 + g, 50 + g}; add.push_back(u); }
            v++;
        }
        MC_CHECK(s->getSliceNum() == (int)add.size(), "slices", "%d slices in the group, %zu were accepted", s->getSliceNum(), add.size());
        std::vector<int> en = q->addFrame();
        MC_CHECK(en == std::vector<int>(1, 11), "enabled", "publishing enabled %s", ids(en).c_str());
        memset(&mem[0], 0xEE, mem.size());     // the encoder reuses its memory
        for (auto &u : add) {
            if (u.size > SZ) { lost++; continue; }
            if ((int)m.size() == max - 1) { m.pop_back(); lost++; }
            m.push_back(u);
        }
        mc::op("publish group %d of %d slices%s%s", g, n, forced ? " (forced)" : "", toobig ? " with one too large" : "");
        g++;
    };
    auto check_front = [&] {
        Frame *f = q->getFront();
        MC_CHECK(!!f == !m.empty(), "front", "%s at the front although %zu units are pending", f ? "a unit" : "nothing", m.size());
        if (!f) return;
        Unit &u = m.front(); VideoFrame *vf = dynamic_cast<VideoFrame*>(f);
        MC_CHECK(vf && (int)f->getSequenceNumber() == u.group && (int)f->getLength() == u.size, "unit", "unit of group %zu and %u bytes, expected group %d and %d bytes", f->getSequenceNumber(), f->getLength(), u.group, u.size);
        for (int i = 0; i < u.size; i++) MC_CHECK(f->getDataBuf()[i] == byte_of(u.v, i), "payload", "byte %d of unit %u differs from the slice", i, u.v);
        MC_CHECK(f->getPresentationTime() == usec(5000 + u.group) && f->getDecodeTime() == usec(4000 + u.group) && f->getOriginTime() == origin(u.group) && vf->getWidth() == u.w && vf->getHeight() == u.h && vf->getCodec() == codec,
                 "metadata", "times or size of unit %u are not those of its frame", u.v);
    };
    auto consume = [&] {
        bool empty = m.empty(); if (!empty) { q->getFront(); }
        int w = q->removeFrame();
        MC_CHECK(w == (empty ? -1 : 7), "remove", "removing enabled %d", w);
        if (!empty) m.pop_front();
        mc::op("consume");
    };
    for (int i = 0; i < off; i++) { publish(1, false, false); check_front(); consume(); }
    if (max > 6 && mc::flip()) publish(14, false, false);
    for (int d = 0; d < depth; d++) {
        switch (mc::choose(6)) {
        case 0: publish(1 + mc::choose(3), false, false); break;
        case 1: publish(1 + mc::choose(3), true, false); break;
        case 2: consume(); break;
        case 3: publish(mc::flip() ? 17 : 16, mc::flip(), false); break;
        case 4: publish(1 + mc::choose(2), true, true); break;
        case 5: publish(0, true, false); break;
        }
        check_front();
        MC_CHECK(q->getElements() == m.size(), "elements", "%u units pending, expected %zu", q->getElements(), m.size());
        MC_CHECK(q->getLostBlocs() == lost, "lost", "%zu units counted as lost, expected %zu", q->getLostBlocs(), lost);
        bool full = (float)m.size() / max >= 0.9f; MC_CHECK(q->isFull() == full, "full", "reported %s with %zu of %d", full ? "not full" : "full", m.size(), max);
        mc::Hash h; h.add(max).add(m.size()).add(lost); for (auto &u : m) h.add(u.v); mc::state(h.h);
    }
    while (!m.empty()) { check_front(); consume(); }
    MC_CHECK(!q->getFront() && q->getElements() == 0, "drain", "units left after all were consumed");
    mc::outcome(mc::Hash().add(max).add(lost).add(v).h);
    delete q;
}
