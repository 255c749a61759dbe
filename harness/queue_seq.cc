// C01: a discrete frame queue is a bounded FIFO with a counted "drop newest" overflow.
// All operation sequences up to a depth, from every ring position, against a list.
#include "common.hh"

static StreamInfo si(VIDEO);

struct Model {
    unsigned cap; std::deque<unsigned> q; size_t lost; bool any; unsigned last;
};

static void observe(FrameQueue *q, Model &m, bool peek)
{
    MC_CHECK(q->getElements() == m.q.size(), "elements", "queue reports %u frames, %zu are pending", q->getElements(), m.q.size());
    MC_CHECK(q->getLostBlocs() == m.lost, "lost-count", "queue reports %zu lost frames, %zu were discarded", q->getLostBlocs(), m.lost);
    unsigned e = m.q.size(), max = m.cap + 1;
    if (e * 10 > max * 9) MC_CHECK(q->isFull(), "full", "%u of %u: must be reported full", e, max);
    if (e * 10 < max * 9) MC_CHECK(!q->isFull(), "full", "%u of %u: must not be reported full", e, max);
    if (peek) {
        Frame *f = q->getFront();
        if (m.q.empty()) {
            MC_CHECK(!f, "front-of-empty", "a frame was returned although none is pending");
            Frame *l = q->forceGetFront();
            MC_CHECK(l, "last-frame", "no last frame");
            if (m.any) MC_CHECK(stamped(l, m.last), "last-frame", "the frame repeated when none is pending is #%zu, the last consumed was #%u", l->getSequenceNumber(), m.last);
        } else {
            MC_CHECK(f, "front-missing", "no frame returned although %u are pending", e);
            MC_CHECK(stamped(f, m.q.front()), "order", "front is frame #%zu, expected #%u intact", f->getSequenceNumber(), m.q.front());
            MC_CHECK(q->getFront() == f, "front-moves", "reading the front twice returned different frames");
        }
    }
    mc::Hash h; h.add(m.cap); h.add(m.lost); h.add(m.q.size()); h.add(m.any ? m.last : 0); for (unsigned v : m.q) h.add(v);
    mc::state(h.h);
}

static void fifo()
{
    static const unsigned caps[] = {2, 3, 4, 5, 12, 21};
    int ncap = mc::param("caps", 4);
    unsigned max = caps[mc::choose(ncap)];
    bool peek = mc::choose(2) == 0;
    ConnectionData cd = cdata(7, 3, 11, 5);
    bool two = max == 3;
    SmallQueue *q = new SmallQueue(cd, &si, max);
    std::vector<int> expectIds(1, 11);
    if (two) { q->addReaderCData(12, 6); expectIds.push_back(12); }
    Model m; m.cap = max - 1; m.lost = 0; m.any = false; m.last = 0;
    unsigned next = 1;
    // every ring position (all of them for small rings, the boundary ones otherwise)
    unsigned off = max <= 5 ? mc::choose(max) : (mc::choose(2) ? max - 1 : 0);
    for (unsigned i = 0; i < off; i++) {
        Frame *f = q->getRear(); stamp(f, next); q->addFrame(); q->removeFrame(); m.any = true; m.last = next++;
    }
    if (max > 5) // start close to full
        for (unsigned i = 0; i + 3 < max; i++) { Frame *f = q->getRear(); stamp(f, next); q->addFrame(); m.q.push_back(next++); }
    mc::note("queue of %u slots, offset %u, %zu pending", max, off, m.q.size());
    observe(q, m, peek);
    int depth = mc::param("depth", 7);
    for (int d = 0; d < depth; d++) {
        int what = mc::choose(4);
        if (what == 3 && peek) what = 4;
        switch (what) {
        case 0: case 1: case 4: {
            bool force = what != 0;
            Frame *f = force ? q->forceGetRear() : q->getRear();
            mc::op(force ? "produce(force)" : "produce");
            if (m.q.size() == m.cap) {
                if (!force) { MC_CHECK(!f, "overfull", "a slot was offered although %zu frames are pending in a queue of %u", m.q.size(), m.cap); break; }
                m.q.pop_back(); m.lost++;
            }
            MC_CHECK(f, "no-slot", "no slot although only %zu of %u are used", m.q.size(), m.cap);
            stamp(f, next);
            if (what == 4) { mc::op("  not committed"); next++; break; } // filled but never published: must stay invisible
            std::vector<int> r = q->addFrame();
            MC_CHECK(r == expectIds, "consumers", "commit announced to %s, consumers are %s", ids(r).c_str(), ids(expectIds).c_str());
            m.q.push_back(next++);
            break; }
        case 2: {
            int r = q->removeFrame();
            mc::op("consume");
            if (m.q.empty()) MC_CHECK(r == -1, "remove-empty", "removing from an empty queue returned %d", r);
            else { MC_CHECK(r == 7, "producer", "removal reported producer %d, it is 7", r); m.any = true; m.last = m.q.front(); m.q.pop_front(); }
            break; }
        case 3: {
            Frame *f = q->getFront();
            mc::op("read");
            if (m.q.empty()) MC_CHECK(!f, "front-of-empty", "a frame was returned although none is pending");
            else MC_CHECK(f && stamped(f, m.q.front()), "order", "front is not frame #%u", m.q.front());
            break; }
        }
        observe(q, m, peek);
    }
    mc::Hash h; h.add(m.lost); h.add(m.q.size()); h.add(next); mc::outcome(h.h);
    // drain: everything still pending comes out, in order
    while (!m.q.empty()) {
        Frame *f = q->getFront();
        MC_CHECK(f && stamped(f, m.q.front()), "drain", "draining: expected #%u", m.q.front());
        MC_CHECK(q->removeFrame() == 7, "drain", "draining: removal failed");
        m.q.pop_front();
    }
    MC_CHECK(!q->getFront(), "drain", "the drained queue still has frames");
    delete q;
}

// the queues the filters really allocate: every codec / format / size; every slot usable and distinct
static void factory()
{
    static const VCodecType vc[] = {H264, H265, VP8, RAW, MJPEG, VC_NONE};
    static const PixType px[] = {RGB24, RGB32, YUV420P, YUV422P, YUV444P, YUYV422, YUVJ420P, P_NONE};
    static const ACodecType ac[] = {OPUS, AAC, MP3, PCM, PCMU, G711, AC_NONE};
    static const SampleFmt sf[] = {U8, S16, FLT, U8P, S16P, FLTP, S_NONE};
    bool video = mc::choose(2) == 0;
    unsigned n = 2 + mc::choose(2);
    std::unique_ptr<FrameQueue> q;
    bool valid; unsigned need = 0; VCodecType c = VC_NONE; ACodecType a = AC_NONE; unsigned ch = 0, rate = 0; SampleFmt fmt = S_NONE; unsigned bps = 0; bool planar = false;
    std::unique_ptr<StreamInfo> s(new StreamInfo(video ? VIDEO : AUDIO));
    if (video) {
        c = vc[mc::choose(6)]; s->video.codec = c;
        PixType p = c == RAW ? px[mc::choose(8)] : P_NONE; s->video.pixelFormat = p;
        valid = c == H264 || c == H265 || c == VP8 || (c == RAW && p != P_NONE);
        // room for the largest picture / access unit the pipeline handles
        if (c == RAW) need = 1920 * 1080 * (p == RGB32 ? 4 : (p == YUYV422 || p == YUV422P) ? 2 : (p == YUV420P || p == YUVJ420P) ? 1 : 3);
        else need = c == VP8 ? 512 * 1024 : 2 * 1024 * 1024;
        mc::op("video queue codec %d pixel format %d slots %u", c, p, n);
        q.reset(VideoFrameQueue::createNew(cdata(1, 2, 3, 4), s.get(), n));
    } else {
        a = ac[mc::choose(7)]; fmt = sf[mc::choose(7)];
        static const unsigned rates[] = {8000, 44100, 48000};
        ch = 1 + mc::choose(2); rate = rates[mc::choose(3)];
        s->audio.codec = a; s->audio.sampleFormat = fmt; s->audio.channels = ch; s->audio.sampleRate = rate;
        planar = fmt == U8P || fmt == S16P || fmt == FLTP;
        bool raw = a == PCM || a == PCMU;
        if (!raw && (planar || fmt == S_NONE)) mc::prune(); // interleaved storage is the only one for coded audio
        valid = a != AC_NONE && fmt != S_NONE;
        bps = (fmt == U8 || fmt == U8P) ? 1 : (fmt == S16 || fmt == S16P) ? 2 : 4;
        need = rate / 10 * bps;
        mc::op("audio queue codec %d format %d channels %u rate %u slots %u", a, fmt, ch, rate, n);
        q.reset(AudioFrameQueue::createNew(cdata(1, 2, 3, 4), s.get(), n));
    }
    mc::state(mc::Hash().add(video).add(c).add(a).add(fmt).add(ch).add(rate).add(n).h);
    if (!valid) { MC_CHECK(!q, "bad-format", "a queue was created for an unsupported format"); return; }
    MC_CHECK((bool)q, "no-queue", "no queue for a supported format");
    std::set<void*> bufs;
    for (unsigned round = 0; round + 1 < n; round++) {
        Frame *f = q->getRear();
        MC_CHECK(f, "no-slot", "no slot in an empty queue");
        unsigned cap = f->getMaxLength();
        unsigned per = planar ? need : need * (video ? 1 : ch);
        MC_CHECK(cap >= per, "frame-size", "frame holds %u bytes, %u needed", cap, per);
        MC_CHECK(f->isPlanar() == planar, "planar", "wrong storage layout");
        if (video) { VideoFrame *v = dynamic_cast<VideoFrame*>(f); MC_CHECK(v && v->getCodec() == c, "codec", "frame codec differs from the stream's"); }
        else { AudioFrame *v = dynamic_cast<AudioFrame*>(f);
            MC_CHECK(v && v->getCodec() == a && v->getChannels() == ch && v->getSampleRate() == rate && v->getSampleFmt() == fmt, "format", "frame format differs from the stream's"); }
        if (planar) for (unsigned i = 0; i < ch; i++) { unsigned char *b = f->getPlanarDataBuf()[i]; b[0] = round; b[cap - 1] = round + 1; bufs.insert(b); }
        else { unsigned char *b = f->getDataBuf(); b[0] = round; b[cap - 1] = round + 1; bufs.insert(b); }
        f->setSequenceNumber(round);
        q->addFrame();
    }
    unsigned held = n - 1;
    MC_CHECK(q->getElements() == held, "elements", "%u frames pending, %u committed", q->getElements(), held);
    for (unsigned i = 0; i < held; i++) {
        Frame *f = q->getFront();
        MC_CHECK(f && f->getSequenceNumber() == i, "order", "wrong frame");
        unsigned char *b = planar ? f->getPlanarDataBuf()[0] : f->getDataBuf();
        MC_CHECK(b[0] == (unsigned char)i, "payload", "payload of frame %u was overwritten", i);
        q->removeFrame();
    }
    mc::outcome(mc::Hash().add(bufs.size()).h);
}

static void limits()
{
    static const unsigned sizes[] = {2, 249, 250, 251, 300, 1000};
    unsigned n = sizes[mc::choose(6)];
    SmallQueue q(cdata(1, 2, 3, 4), &si, n, 16);
    unsigned max = std::min(n, 250u);
    mc::op("queue of %u slots", n);
    MC_CHECK(q.getMaxFrames() == max, "limit", "asked %u slots: has %u, expected %u", n, q.getMaxFrames(), max);
    // fill, drain, at every point of two turns of the ring
    unsigned in = 0, out = 0;
    for (int turn = 0; turn < 3; turn++) {
        Frame *f;
        while ((f = q.getRear())) { stamp(f, in++); q.addFrame(); mc::state(in); bool must = (in - out) * 10 > max * 9, mustnt = (in - out) * 10 < max * 9;
            MC_CHECK(!(must && !q.isFull()) && !(mustnt && q.isFull()), "full", "%u of %u: full=%d", in - out, max, q.isFull()); }
        MC_CHECK(in - out == max - 1 && q.getElements() == max - 1, "capacity", "holds %u, capacity %u", in - out, max - 1);
        unsigned keep = turn == 1 ? 1 : 0;
        while (in - out > keep) { f = q.getFront(); MC_CHECK(f && stamped(f, out), "order", "expected %u", out); q.removeFrame(); out++; }
    }
}

void mc_body()
{
    std::string mode = mc::sparam("mode", "fifo");
    if (mode == "fifo") fifo();
    else if (mode == "factory") factory();
    else limits();
}
