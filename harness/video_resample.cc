// The video resampler against a reference: every sequence of configurations
// and of pictures of any size and format.
#include "filters.hh"
#include "modules/videoResampler/VideoResampler.hh"
#include <math.h>
extern "C" {
#include <libavutil/log.h>
}

struct Resampler : VideoResampler {
    Resampler() { setId(50); }
    bool run(Frame *o, Frame *d) { return doProcessFrame(o, d); }
    usec ft() { return getFrameTime(); }
};
struct RGB { double c[3]; };
static RGB colour(double u, double v, unsigned n) { return {{40.0 + (n * 37) % 60 + 60 * u, 60.0 + (n * 53) % 50 + 60 * v, 70.0 + (n * 29) % 90}}; }
static void yuv(const RGB &p, double *o, bool full) {
    double y = .299 * p.c[0] + .587 * p.c[1] + .114 * p.c[2], cb = (p.c[2] - y) / 1.772, cr = (p.c[0] - y) / 1.402;
    o[0] = full ? y : 16 + y * 219 / 255; o[1] = 128 + (full ? cb : cb * 224 / 255); o[2] = 128 + (full ? cr : cr * 224 / 255);
}
static size_t bytes(int f, int w, int h) {
    switch (f) { case RGB24: return w * h * 3; case RGB32: return w * h * 4; case YUYV422: return w * h * 2; case YUV444P: return w * h * 3; case YUV422P: return w * h + 2 * ((w + 1) / 2) * h; default: return w * h + 2 * ((w + 1) / 2) * ((h + 1) / 2); }
}
// component k (R,G,B or Y,U,V) of the pixel, as a position in the buffer
static size_t place(int f, int w, int h, int x, int y, int k) {
    int cw = (w + 1) / 2, ch = (h + 1) / 2;
    switch (f) {
    case RGB24: return (y * w + x) * 3 + k;
    case RGB32: return (y * w + x) * 4 + 2 - k;
    case YUYV422: return k == 0 ? (y * w + x) * 2 : (y * w + (x & ~1)) * 2 + (k == 1 ? 1 : 3);
    case YUV444P: return k * w * h + y * w + x;
    case YUV422P: return k == 0 ? y * w + x : w * h + (k - 1) * cw * h + y * cw + x / 2;
    default: return k == 0 ? y * w + x : w * h + (k - 1) * cw * ch + y / 2 * cw + x / 2;
    }
}
static double want(int f, int w, int h, int x, int y, int k, unsigned n) {
    RGB p = colour((x + .5) / w, (y + .5) / h, n); if (f == RGB24 || f == RGB32) return p.c[k];
    double o[3]; yuv(p, o, f == YUVJ420P); return o[k];
}
static const char *NAME[] = {"none", "RGB24", "RGB32", "YUV420P", "YUV422P", "YUV444P", "YUYV422", "YUVJ420P"};

void mc_body() {
    const int depth = mc::param("depth", 2);
    mc::vclock_ns = 1000000000000ll; av_log_set_level(AV_LOG_QUIET);
    // the memory the filter is made in is not clean
    void *mem = malloc(sizeof(Resampler)); memset(mem, 0xA5, sizeof(Resampler));
    Resampler *r = new (mem) Resampler(); int64_t ft = 0;
    int ow = 0, oh = 0, of = RGB24; unsigned no = 0;
    const size_t CAP = 64 * 48 * 3, GUARD = 256;
    std::unique_ptr<InterleavedVideoFrame> outbuf(InterleavedVideoFrame::createNew(RAW, (unsigned)(CAP + GUARD)));
    struct Window : VideoFrame { InterleavedVideoFrame *f; unsigned len, cap; Window(InterleavedVideoFrame *f, unsigned cap) : VideoFrame(RAW), f(f), len(0), cap(cap) {} unsigned char **getPlanarDataBuf() { return NULL; } unsigned char *getDataBuf() { return f->getDataBuf(); } unsigned int getLength() { return len; } unsigned int getMaxLength() { return cap; } void setLength(unsigned l) { len = l; } bool isPlanar() { return false; } } out(outbuf.get(), CAP);
    static const int SZ[][2] = {{64, 48}, {32, 24}, {48, 32}, {32, 48}};
    auto step = [&](int z, int f) {
        no++; int W = SZ[z][0], H = SZ[z][1]; size_t n = f < 0 ? W * H * 4 : bytes(f, W, H);
        std::unique_ptr<InterleavedVideoFrame> in(InterleavedVideoFrame::createNew(RAW, n)); in->setSize(W, H); in->setPixelFormat((PixType)f); in->setLength(n); memset(in->getDataBuf(), 0, n);
        if (f >= 0) for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) for (int k = 0; k < 3; k++) {
            in->getDataBuf()[place(f, W, H, x, y, k)] = (unsigned char)lround(want(f, W, H, x, y, k, no));
        }
        int64_t pts = 9000000 + no * 40000; in->setPresentationTime(usec(pts)); in->setDecodeTime(usec(pts - 77)); in->setSequenceNumber(100 + no); in->setOriginTime(std::chrono::system_clock::time_point(std::chrono::microseconds(123456 + no)));
        memset(outbuf->getDataBuf(), 0xEE, CAP + GUARD); out.setConsumed(false); out.setLength(3); out.setSize(1, 1); out.setPresentationTime(usec(-5)); out.setDecodeTime(usec(-5)); out.setSequenceNumber(7); out.setPixelFormat(P_NONE);
        std::vector<unsigned char> before(in->getDataBuf(), in->getDataBuf() + n);
        int w = ow ? ow : W, h = oh ? oh : H; size_t len = bytes(of, w, h); bool ok = f >= 0 && len <= CAP;
        mc::op("resample %dx%d %s to %dx%d %s", W, H, NAME[f + 1], w, h, NAME[of + 1]);
        bool got = r->run(in.get(), &out);
        MC_CHECK(got == ok && out.getConsumed() == ok, "delivery", "a picture of %dx%d %s %s for an output of %dx%d %s", W, H, NAME[f + 1], got ? "was converted" : "was not converted", w, h, NAME[of + 1]);
        for (size_t k = CAP; k < CAP + GUARD; k++) MC_CHECK(outbuf->getDataBuf()[k] == 0xEE, "overflow", "byte %zu of a buffer of %zu was written", k, CAP);
        MC_CHECK(!memcmp(before.data(), in->getDataBuf(), n), "pixels", "resampling changed its input");
        if (!ok) return;
        MC_CHECK(out.getWidth() == w && out.getHeight() == h && out.getLength() == len && out.getPixelFormat() == of, "format", "picture of %dx%d, format %d, %u bytes; expected %dx%d, %s, %zu bytes", out.getWidth(), out.getHeight(), out.getPixelFormat(), out.getLength(), w, h, NAME[of + 1], len);
        MC_CHECK(out.getPresentationTime() == usec(pts) && out.getDecodeTime() == usec(pts - 77) && out.getSequenceNumber() == 100 + no && out.getOriginTime() == in->getOriginTime(), "stamps", "picture stamped %ld / %ld, number %zu", (long)out.getPresentationTime().count(), (long)out.getDecodeTime().count(), out.getSequenceNumber());
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < 3; k++) {
            double g = out.getDataBuf()[place(of, w, h, x, y, k)], e = want(of, w, h, x, y, k, no);
            MC_CHECK(fabs(g - e) <= 14, "pixels", "pixel (%d,%d) component %d is %g, expected %g", x, y, k, g, e);
        }
    };
    struct { int w, h, fps, f; bool ok; } alpha[] = {{32, 24, 25, RGB24, true}, {64, 48, 0, YUV420P, true}, {0, 0, 0, RGB32, true}, {64, 48, 0, RGB32, true}, {0, 32, -1, YUYV422, true}, {48, 0, 50, YUV422P, true}, {32, 16, 0, YUV444P, true}, {32, 32, 0, YUVJ420P, true}, {80, 80, 0, RGB24, true},
        {32, 32, 25, P_NONE, false}, {32, 32, 25, 7, false}, {32, 32, 25, -2, false}, {-32, 32, 25, RGB24, false}, {32, -1, 25, RGB24, false}};
    const int NA = sizeof alpha / sizeof *alpha;
    auto send = [&](Jzon::Object &root) { r->pushEvent(Event(root, std::chrono::system_clock::now(), 0)); int x; mc::vclock_ns += 1000000; r->processFrame(x); };
    int last = 0, lastf = RGB24;
    for (int d = 0; d < depth; d++) {
        switch (mc::choose(3)) {
        case 0: { int k = mc::choose(NA); auto a = alpha[k]; mc::op("configure %dx%d at %d, format %d", a.w, a.h, a.fps, a.f); r->configure(a.w, a.h, a.fps, (PixType)a.f); int x; mc::vclock_ns += 1000000; r->processFrame(x);
            if (a.ok) { ow = a.w; oh = a.h; of = a.f; ft = a.fps > 0 ? 1000000 / a.fps : 0; } break; }
        case 1: { int k = mc::choose(5); Jzon::Object root, p; root.Add("action", "configure"); static const char *key[] = {"width", "height", "fps", "pixelFormat"}; mc::op("configure only the %s", k < 4 ? key[k] : "nothing");
            if (k < 4) { p.Add(key[k], k == 0 ? 40 : k == 1 ? 20 : k == 2 ? 40 : (int)YUYV422); root.Add("params", p); } send(root);
            if (k == 0) ow = 40; if (k == 1) oh = 20; if (k == 2) ft = 25000; if (k == 3) of = YUYV422; break; }
        case 2: { last = mc::choose(4); lastf = mc::choose(8) - 1; step(last, lastf); break; }
        }
        MC_CHECK(r->ft() == usec(ft), "state", "frame time %ld, expected %ld", (long)r->ft().count(), (long)ft);
        step(last, lastf); step((last + 1) % 4, RGB24);
        mc::Hash h; h.add(ow).add(oh).add(of).add(ft).add(last).add(lastf); mc::state(h.h); mc::outcome(h.h);
    }
    r->~Resampler(); free(mem);
}
