// The video splitter against a reference: every sequence of crop
// configurations, outputs leaving and coming back, and pictures of any size.
#include "filters.hh"
#include "modules/videoSplitter/VideoSplitter.hh"

struct Splitter : VideoSplitter {
    Splitter(usec ft) : VideoSplitter(ft) { setId(50); }
    FrameQueue *allocQueue(ConnectionData c) { return new SmallQueue(c, filter_si, 4); }
    bool split(Frame *o, std::map<int, Frame*> &d) { return doProcessFrame(o, d); }
    usec ft() { return getFrameTime(); }
};
struct Crop { int w = 0, h = 0, x = -1, y = -1, deg = 0; };

void mc_body() {
    const int depth = mc::param("depth", 3), nout = mc::param("outputs", 2);
    mc::vclock_ns = 1000000000000ll;
    MC_CHECK(!VideoSplitter::createNew(usec(-1)), "create", "a splitter with a negative frame time was created");
    Splitter s(usec(0)); int64_t ft = 0;
    std::vector<std::unique_ptr<Snk>> sink(nout); std::map<int, Crop> conf;
    auto join = [&](int i, int fid) { sink[i].reset(new Snk()); sink[i]->setId(fid); if (!s.connectManyToOne(sink[i].get(), i + 1)) mc::fail("connect", "plain connection refused"); conf[i + 1] = Crop(); };
    for (int i = 0; i < nout; i++) join(i, i + 1);
    const int CW = 10, CH = 8; const size_t CAP = CW * CH * 3;           // capacity of the outputs' frames
    std::vector<std::unique_ptr<InterleavedVideoFrame>> out; for (int i = 0; i < nout; i++) out.emplace_back(InterleavedVideoFrame::createNew(RAW, CW, CH, RGB24));
    static const int SZ[][2] = {{12, 8}, {6, 4}, {12, 10}};
    unsigned no = 0;
    auto step = [&](int zi, int mask) {
        no++; int W = SZ[zi][0], H = SZ[zi][1];
        std::unique_ptr<InterleavedVideoFrame> in(InterleavedVideoFrame::createNew(RAW, W, H, RGB24)); in->setLength(W * H * 3);
        std::vector<unsigned char> px(W * H * 3); for (size_t k = 0; k < px.size(); k++) px[k] = (unsigned char)(k * 5 + no * 31 + k / 7); memcpy(in->getDataBuf(), px.data(), px.size());
        int64_t pts = 9000000 + no * 40000; in->setPresentationTime(usec(pts)); in->setDecodeTime(usec(pts - 77)); in->setSequenceNumber(100 + no); in->setOriginTime(std::chrono::system_clock::time_point(std::chrono::microseconds(123456 + no)));
        std::map<int, Frame*> d; int wanted = 0;
        for (auto &c : conf) if (mask >> (c.first - 1) & 1) { auto *f = out[c.first - 1].get(); memset(f->getDataBuf(), 0xEE, CAP); f->setConsumed(false); f->setLength(3); f->setSize(1, 1); f->setPresentationTime(usec(-5)); f->setDecodeTime(usec(-5)); f->setSequenceNumber(7); d[c.first] = f; }
        mc::op("split %dx%d for outputs %x", W, H, mask);
        bool ok = s.split(in.get(), d);
        for (auto &x : d) {
            Crop c = conf[x.first]; auto *f = out[x.first - 1].get();
            bool fits = c.w > 0 && c.x + (int64_t)c.w <= W && c.y + (int64_t)c.h <= H && (size_t)c.w * c.h * 3 <= CAP; wanted += fits;
            MC_CHECK(f->getConsumed() == fits, "delivery", "output %d (crop %dx%d at %d,%d) was %s a frame of a picture of %dx%d", x.first, c.w, c.h, c.x, c.y, fits ? "not given" : "given", W, H);
            size_t n = 0;
            if (fits) {
                n = (size_t)c.w * c.h * 3;
                MC_CHECK_GO(f->getLength() == n || f->getLength() != n / 3, "length-in-pixels", "output %d: length %u for a crop of %dx%d pixels (%zu bytes)", x.first, f->getLength(), c.w, c.h, n);
                MC_CHECK(f->getWidth() == c.w && f->getHeight() == c.h && (f->getLength() == n || f->getLength() == n / 3), "format", "output %d: frame of %dx%d and %u bytes for a crop of %dx%d", x.first, f->getWidth(), f->getHeight(), f->getLength(), c.w, c.h);
                MC_CHECK(f->getPresentationTime() == usec(pts) && f->getDecodeTime() == usec(pts - 77) && f->getSequenceNumber() == 100 + no && f->getOriginTime() == in->getOriginTime(), "stamps", "output %d: frame stamped %ld / %ld, number %zu", x.first, (long)f->getPresentationTime().count(), (long)f->getDecodeTime().count(), f->getSequenceNumber());
                for (int y = 0; y < c.h; y++) MC_CHECK(!memcmp(f->getDataBuf() + y * c.w * 3, &px[((y + c.y) * W + c.x) * 3], c.w * 3), "pixels", "output %d: row %d of the crop %dx%d at %d,%d differs from the picture", x.first, y, c.w, c.h, c.x, c.y);
            }
            for (size_t k = n; k < CAP; k++) MC_CHECK(f->getDataBuf()[k] == 0xEE, "pixels", "output %d: byte %zu beyond the crop was written", x.first, k);
        }
        MC_CHECK(ok == (wanted > 0), "delivery", "processing %s with %d outputs filled", ok ? "succeeded" : "failed", wanted);
        MC_CHECK(!memcmp(in->getDataBuf(), px.data(), px.size()), "pixels", "splitting changed the picture");
    };
    auto check_state = [&] {
        Jzon::Object o; s.getState(o); const Jzon::Array &a = o.Get("crops").AsArray();
        MC_CHECK(a.GetCount() == conf.size() && o.Get("frameTime").ToInt() == ft && s.ft() == usec(ft), "state", "%zu crops and frame time %d reported", a.GetCount(), o.Get("frameTime").ToInt());
        for (size_t i = 0; i < a.GetCount(); i++) { const Jzon::Node &n = a.Get(i); int id = n.Get("id").ToInt(); MC_CHECK(conf.count(id), "state", "crop %d reported", id); Crop c = conf[id];
            MC_CHECK(n.Get("width").ToInt() == c.w && n.Get("height").ToInt() == c.h && n.Get("x").ToInt() == c.x && n.Get("y").ToInt() == c.y && n.Get("degree").ToInt() == c.deg, "state", "crop %d reported as %dx%d at %d,%d", id, n.Get("width").ToInt(), n.Get("height").ToInt(), n.Get("x").ToInt(), n.Get("y").ToInt()); }
    };
    const int BIG = 2147483600;
    struct { Crop c; bool ok; } alpha[] = {
        {{6, 4, 0, 0, 0}, true}, {{6, 4, 6, 4, 0}, true}, {{1, 1, 11, 7, 0}, true}, {{5, 3, 1, 0, 90}, true}, {{6, 5, 0, 4, -360}, true}, {{7, 4, 6, 0, 360}, true}, {{12, 8, 0, 0, 0}, true},
        {{10, 8, 2, 0, 0}, true}, {{2, 2, BIG, 0, 0}, true}, {{BIG, 1, 60, 0, 0}, true}, {{60000, 60000, 0, 0, 0}, true}, {{4, 2, 2, BIG, 0}, true},
        {{0, 4, 0, 0, 0}, false}, {{4, 0, 0, 0, 0}, false}, {{4, 4, -1, 0, 0}, false}, {{4, 4, 0, -1, 0}, false}, {{-4, 4, 6, 0, 0}, false}, {{4, 4, 0, 0, 361}, false}, {{4, 4, 0, 0, -361}, false}};
    const int NA = sizeof alpha / sizeof *alpha; int fid = 30, all = (1 << nout) - 1;
    for (int d = 0; d < depth; d++) {
        int r = 0; mc::vclock_ns += 1000000;
        switch (mc::choose(5)) {
        case 0: { int id = mc::choose(nout + 1) + 1, k = mc::choose(NA); Crop c = alpha[k].c; mc::op("crop of output %d: %dx%d at %d,%d turned %d", id, c.w, c.h, c.x, c.y, c.deg); s.configCrop(id, c.w, c.h, c.x, c.y, c.deg); if (alpha[k].ok && conf.count(id)) conf[id] = c; break; }
        case 1: { int v = (const int[]){40000, 0, -1}[mc::choose(3)]; mc::op("frame time %d", v); s.configure(v); if (v >= 0) ft = v; break; }
        case 2: { static const char *lack[] = {"id", "width", "height", "x", "y"}; int k = mc::choose(6), t = mc::flip(); mc::op("crop without %s%s", k < 5 ? lack[k] : "parameters", t ? " as a number" : "");
            Jzon::Object root, p; root.Add("action", "configCrop"); if (k < 5) for (int j = 0; j < 5; j++) { if (j != k) p.Add(lack[j], 1); else if (t) p.Add(lack[j], "one"); }
            if (k < 5 || !t) root.Add("params", p); s.pushEvent(Event(root, std::chrono::system_clock::now(), 0)); break; }
        case 3: { int i = mc::choose(nout); if (conf.count(i + 1)) { mc::op("output %d leaves", i + 1); s.disconnectWriter(i + 1); conf.erase(i + 1); sink[i].reset(); } else { mc::op("output %d comes back", i + 1); join(i, fid++); } break; }
        case 4: { int z = mc::choose(3), mk = mc::choose(1 << nout); step(z, mk); break; }
        }
        s.processFrame(r); check_state(); step(0, all); step(1, all); step(2, all);
        mc::Hash h; h.add(ft); for (auto &c : conf) h.add(c.first).add(c.second.w).add(c.second.x).add(c.second.y).add(c.second.h).add(c.second.deg); mc::state(h.h); mc::outcome(h.h);
    }
}
