// The shared memory filter and a reader of the segment in two threads: every
// schedule.  The reader follows the protocol: it looks at the first byte, reads
// header and data when it may, and then gives the memory back.
#include "shm.hh"
#include "sched.hh"
struct Got { Seen s; std::string d; };
static std::string payload(int i) { std::string s(9 + i % 3, 0); for (size_t k = 0; k < s.size(); k++) s[k] = (char)(i * 37 + k * 11 + 1); return s; }
static std::string slice(int i) { std::string s = payload(i); s[0] = 0x65; return s; }

void sched_body() {
    const int n = mc::param("frames", 3), polls = mc::param("polls", 4); const bool h264 = mc::param("h264", 0), two = mc::param("nals", 1) == 2;
    SharedMemory *f; std::unique_ptr<InterleavedVideoFrame> in, out; std::vector<Got> got; std::vector<Got> want;
    volatile uint8_t *mem;
    {
        sched::Atomic a; seg_reset(); f = SharedMemory::createNew(1985, h264 ? H264 : RAW); if (!f) mc::fail("create", "not created"); mem = seg.mem;
        in.reset(InterleavedVideoFrame::createNew(h264 ? H264 : RAW, 64)); out.reset(InterleavedVideoFrame::createNew(h264 ? H264 : RAW, 64)); got.reserve(32);
    }
    const std::string SC("\0\0\0\1", 4), DELIM("\x09");
    int seq = 0;
    auto feed = [&](const std::string &d, int64_t t, int w) {
        { sched::Atomic a; memcpy(in->getDataBuf(), d.data(), d.size()); in->setLength(d.size()); in->setPresentationTime(usec(t)); in->setSequenceNumber(seq++); in->setSize(w, w + 1); in->setPixelFormat(h264 ? P_NONE : RGB24); }
        if (!f->doProcessFrame(in.get(), out.get())) mc::fail("pass", "not processed");
    };
    std::vector<int> seqs;
    std::thread writer([&] {
        for (int i = 0; i < n; i++) {
            int64_t t = 1000000ll * (5 + i) + 100 + i;
            if (h264) { { sched::Atomic a; mc::op("writer: unit %d", i); seqs.push_back(seq + 1); } feed(SC + DELIM, t, 20 + i); feed(SC + slice(i), t, 20 + i); if (two) feed(SC + slice(i + 50), t, 20 + i); }
            else { { sched::Atomic a; mc::op("writer: picture %d", i); seqs.push_back(seq); } feed(payload(i), t, 20 + i); }
        }
        if (h264) { feed(SC + DELIM, 1, 1); feed(SC + slice(99), 1, 1); }
    });
    auto poll = [&]() {
        const uint8_t b = *mem; if (b != '1') { if (b != '0') mc::fail("handshake", "the first byte is %d", b); return false; }
        Got g; uint8_t h[24]; for (int i = 0; i < 24; i++) h[i] = mem[i];
        { sched::Atomic a; g.s = header(h); if (g.s.len > 64) mc::fail("content", "length %u", g.s.len); g.d.resize(g.s.len); }
        for (unsigned i = 0; i < g.s.len; i++) { char c = mem[24 + i]; sched::Atomic a; g.d[i] = c; }
        { sched::Atomic a; mc::op("reader: number %u", g.s.seq); got.push_back(g); }
        *mem = '0';
        return true;
    };
    for (int i = 0; i < polls; i++) { poll(); sched::point(); }
    writer.join();
    poll();
    if (poll()) mc::fail("twice", "a picture was shared after the last one");
    sched::Atomic a;
    int last = -1; mc::Hash hh;
    for (auto &g : got) {
        int i = -1; for (int k = 0; k < n; k++) if (g.s.seq == (unsigned)seqs[k]) i = k;
        if (i < 0) mc::fail("header", "number %u is of no picture", g.s.seq);
        std::string d = h264 ? SC + slice(i) + (two ? SC + slice(i + 50) : "") : payload(i);
        if (g.d != d) mc::fail("content", "picture %d has the header of picture %d and other data", i, i);
        if (g.s.sec != 5u + i || g.s.us != 100u + i || g.s.w != 20u + i || g.s.h != 21u + i || g.s.codec != (h264 ? 1u : 4u)) mc::fail("header", "picture %d has time %u.%06u and size %ux%u", i, g.s.sec, g.s.us, g.s.w, g.s.h);
        if (i <= last) mc::fail("order", "picture %d after picture %d", i, last);
        last = i; hh.add(i);
    }
    if (got.empty()) mc::fail("lost", "no picture was shared"); if ((h264 ? seqs[0] : 0) != (int)got[0].s.seq) mc::fail("lost", "the first picture was not shared");
    mc::outcome(hh.h); mc::state(hh.h);
    delete f; if (seg.exists || seg.attached || !seg.misuse.empty()) mc::fail("left", "the segment was left behind"); seg_reset();
}
