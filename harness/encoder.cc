// The video encoders against a reference: every sequence of pictures (times,
// sizes, formats), configurations and requests up to a depth.  What comes out
// is decoded again, and every picture carries its own pattern.
#include "filters.hh"
#include "SlicedVideoFrameQueue.hh"
#include "modules/videoEncoder/VideoEncoderX264.hh"
#include "modules/videoEncoder/VideoEncoderX265.hh"
#include <malloc.h>
#include <unistd.h>
#include <fcntl.h>
extern "C" {
#include <libavutil/log.h>
}

static bool hevc;
struct In : public HeadFilter {
    StreamInfo si; std::function<void(VideoFrame*)> fill; size_t bytes;
    In(size_t bytes) : HeadFilter(1, REGULAR, false), si(VIDEO), bytes(bytes) { fType = RECEIVER; si.video.codec = RAW; si.video.pixelFormat = YUV420P; }
    struct Q : VideoFrameQueue { Q(ConnectionData c, const StreamInfo *si, unsigned n, size_t bytes) : VideoFrameQueue(c, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(RAW, (unsigned)bytes); } };
    FrameQueue *allocQueue(ConnectionData c) { return new Q(c, &si, 4, bytes); }
    bool doProcessFrame(std::map<int, Frame*> &d, int &ret) { ret = 0; if (!fill) return false; VideoFrame *f = dynamic_cast<VideoFrame*>(d.begin()->second); fill(f); f->setConsumed(true); return true; }
    void doGetState(Jzon::Object &) {}
    bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
};

struct Pic { int64_t pts, o; int w, h, f; unsigned n; bool idr, may; int epoch; bool out; };
static int cw(int f, int w) { return f == YUV444P ? w : (w + 1) / 2; }
static int ch(int f, int h) { return f == YUV420P ? (h + 1) / 2 : h; }
static size_t bytes(int f, int w, int h) { return f == RGB24 ? w * h * 3 : w * h + 2 * cw(f, w) * ch(f, h); }
// four quadrants, each of its own colour
static int value(unsigned n, int plane, int q) { return plane == 0 ? 40 + (n * 37 + q * 29) % 160 : 90 + (n * 23 + q * 17 + plane * 31) % 70; }
static void paint(unsigned char *b, const Pic &p) {
    if (p.f == RGB24) { memset(b, 99, bytes(p.f, p.w, p.h)); return; }
    for (int k = 0; k < 3; k++) { int W = k ? cw(p.f, p.w) : p.w, H = k ? ch(p.f, p.h) : p.h; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) *b++ = value(p.n, k, (y >= H / 2) * 2 + (x >= W / 2)); }
}

struct Decoder {
    AVCodecContext *c; AVPacket *pkt; AVFrame *fr;
    Decoder(const std::string &extra) {
        c = avcodec_alloc_context3(avcodec_find_decoder(hevc ? AV_CODEC_ID_HEVC : AV_CODEC_ID_H264)); c->thread_count = 1; c->has_b_frames = 4; c->err_recognition = AV_EF_EXPLODE;
        if (extra.size()) { c->extradata = (uint8_t*)av_mallocz(extra.size() + AV_INPUT_BUFFER_PADDING_SIZE); memcpy(c->extradata, extra.data(), extra.size()); c->extradata_size = extra.size(); }
        if (avcodec_open2(c, c->codec, NULL) < 0) mc::harness_error("no decoder");
        pkt = av_packet_alloc(); fr = av_frame_alloc();
    }
    ~Decoder() { av_packet_free(&pkt); av_frame_free(&fr); avcodec_free_context(&c); }
};

struct Au { int64_t pts, dts, o; std::string data; bool idr; int sets; unsigned w, h; int first; bool slices; };

void mc_setup() {
    mallopt(M_ARENA_MAX, 1); av_log_set_level(AV_LOG_QUIET);
    if (!mc::replaying()) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); close(fd); }       // the encoders' reports
}

struct World {
    std::unique_ptr<In> in; VideoEncoderX264or5 *e; std::unique_ptr<Snk> snk; FrameQueue *q;
    std::vector<Pic> pics; std::vector<Au> aus; std::unique_ptr<Decoder> dec;
    int gop, threads, lookahead, bframes, bitrate, fps, gopTime; std::string preset; bool annexb; int64_t ref; bool pend, dirty; int lw, lh, lf; int epoch, shown;
    int64_t lastDts; int sinceIdr, lastIdrIdx; size_t outs, firstOfEpoch; int outEpoch; int lastOut;
    std::string extra; int64_t now() { return mc::vclock_ns / 1000; }

    void send(const char *action, std::function<void(Jzon::Object&)> f) { Jzon::Object root, p; root.Add("action", action); if (f) { f(p); root.Add("params", p); } e->pushEvent(Event(root, std::chrono::system_clock::now(), 0)); mc::vclock_ns += 1000000; int r; e->processFrame(r); drain(); }

    // what is in the encoder when it starts again is not delivered
    void restart() { epoch++; }

    void feed(int w, int h, int f, int64_t pts) {
        Pic p; p.pts = pts; p.o = now(); p.w = w; p.h = h; p.f = f; p.n = pics.size() + 1; p.idr = false; p.may = false; p.out = false;
        const bool good = f != RGB24 && (!hevc || f != YUV422P) ;
        if (good && (dirty || w != lw || h != lh || f != lf)) { restart(); p.idr = true; lw = w; lh = h; lf = f; dirty = false; }
        if (!good) { lf = -1; }
        if (good && gopTime > 0) { if (!ref) ref = pts; if (pts >= ref) { pend = true; while (ref <= pts) ref += gopTime; } }
        if (good && pend) { p.idr = true; pend = false; }
        p.epoch = epoch;
        mc::op("picture %zu: %dx%d %s at %.1f ms%s", pics.size(), w, h, f == YUV420P ? "4:2:0" : f == YUV422P ? "4:2:2" : f == YUV444P ? "4:4:4" : "RGB", pts / 1000., p.idr ? " (IDR)" : "");
        if (good) pics.push_back(p);
        in->fill = [&](VideoFrame *v) { v->setSize(w, h); v->setPixelFormat((PixType)f); v->setLength(bytes(f, w, h)); paint(v->getDataBuf(), p); v->setPresentationTime(usec(pts)); v->setOriginTime(std::chrono::system_clock::time_point(usec(p.o))); };
        int r; in->processFrame(r); in->fill = nullptr;
        mc::vclock_ns += 40000000;
        size_t before = aus.size();
        e->processFrame(r); drain();
        if (!good) MC_CHECK(aus.size() == before, "format", "a picture in a format that cannot be encoded was encoded");
        else checkDelay();
    }
    // every picture of the epoch is out, up to the delay of the encoder
    size_t inside() { size_t k = 0; for (auto &p : pics) if (p.epoch == epoch && !p.out) k++; return k; }
    std::map<int, size_t> held;
    void checkDelay() {
        size_t k = inside(), n = 0; for (auto &p : pics) n += p.epoch == epoch;
        size_t most = 1 + lookahead + threads + (bframes ? bframes + 2 : 0) + (threads > 1 ? bframes + 2 : 0) + (hevc ? 2 : 0) + (preset != "ultrafast" ? 3 : 0); if (!lookahead && threads == 1 && !bframes && preset == "ultrafast") most = 1;
        MC_CHECK(k <= most, "withheld", "%zu pictures are in the encoder, of %zu", k, n);
        if (n > k) { if (held.count(epoch)) MC_CHECK(held[epoch] == k, "withheld", "%zu pictures are in the encoder, there were %zu", k, held[epoch]); held[epoch] = k; }
    }
    void drain() {
        Au *a = NULL; Frame *f;
        while ((f = q->getFront())) {
            std::string d((char*)f->getDataBuf(), f->getLength());
            MC_CHECK(d.size() > 5 && (!d.compare(0, 4, std::string("\0\0\0\1", 4)) || !d.compare(0, 3, std::string("\0\0\1", 3))), "nal", "a NAL unit without start code, %zu bytes", d.size());
            int at = d[2] == 1 ? 3 : 4, t = hevc ? d[at] >> 1 & 63 : d[at] & 31;
            int64_t pt = f->getPresentationTime().count(), dt = f->getDecodeTime().count(), ot = std::chrono::duration_cast<usec>(f->getOriginTime().time_since_epoch()).count();
            VideoFrame *v = dynamic_cast<VideoFrame*>(f);
            if (!a) { aus.push_back(Au()); a = &aus.back(); a->pts = pt; a->dts = dt; a->o = ot; a->idr = false; a->sets = 0; a->w = v->getWidth(); a->h = v->getHeight(); a->first = t; a->slices = false; }
            MC_CHECK(a->pts == pt && a->dts == dt && a->o == ot && (int)a->w == v->getWidth() && (int)a->h == v->getHeight(), "stamps", "the NAL units of one access unit have different stamps");
            if (hevc ? t == 19 || t == 20 : t == 5) a->idr = true;
            if (hevc ? t < 32 : t >= 1 && t <= 5) a->slices = true;
            if (hevc) a->sets |= t == 32 ? 1 : t == 33 ? 2 : t == 34 ? 4 : 0; else a->sets |= t == 7 ? 2 : t == 8 ? 4 : 0;
            a->data += d; q->removeFrame();
        }
        if (a) examine(*a);
    }
    void examine(Au &a) {
        size_t i = 0; while (i < pics.size() && (pics[i].pts != a.pts || pics[i].out)) i++;
        MC_CHECK(i < pics.size(), "stamps", "an access unit has the presentation time %ld of no picture that is not coded yet", (long)a.pts);
        Pic &p = pics[i]; mc::note("access unit of picture %zu, decoded at %.1f ms%s, %zu bytes", i, a.dts / 1000., a.idr ? ", IDR" : "", a.data.size());
        MC_CHECK((a.first == (hevc ? 35 : 9) || (hevc && !annexb)) && a.slices, "aud", "an access unit begins with type %d", a.first);
        MC_CHECK(a.o == p.o, "stamps", "picture %zu has the origin time %ld, not %ld", i, (long)a.o, (long)p.o);
        MC_CHECK((int)a.w == p.w && (int)a.h == p.h, "stamps", "picture %zu of %dx%d is announced as %ux%u", i, p.w, p.h, a.w, a.h);
        MC_CHECK(p.epoch == epoch, "stale", "picture %zu, from before the encoder started again, was delivered", i);
        bool start = p.epoch != outEpoch; if (start) { outEpoch = p.epoch; firstOfEpoch = outs; lastOut = -1; MC_CHECK(a.idr, "start", "the encoder did not start with an IDR picture"); size_t j = 0; while (pics[j].epoch != epoch) j++; MC_CHECK(i == j, "lost", "the first picture delivered is %zu instead of %zu", i, j); dec.reset(); shown = 0; }
        p.out = true; outs++;
        // decoding order: no picture is missing beyond what reordering explains
        size_t behind = 0; for (size_t j = 0; j < i; j++) behind += pics[j].epoch == epoch && !pics[j].out; int bf = preset == "ultrafast" || bframes >= 0 ? std::max(bframes, 0) : 3;
        MC_CHECK((int)behind <= bf, "lost", "picture %zu was delivered while %zu before it were not", i, behind);
        if (behind && mc::param("reorder", 0)) mc::fail("reordered", "picture %zu", i);
        MC_CHECK(a.dts <= a.pts, "dts", "picture %zu is decoded at %ld, after its presentation at %ld", i, (long)a.dts, (long)a.pts);
        MC_CHECK(outs == 1 || a.dts > lastDts, "dts", "picture %zu is decoded at %ld, the previous one at %ld", i, (long)a.dts, (long)lastDts);
        if (!bf) MC_CHECK(a.dts == a.pts, "dts", "picture %zu is decoded at %ld and presented at %ld, nothing is reordered", i, (long)a.dts, (long)a.pts);
        { size_t j = i; int back = 0; while (j > 0 && back < 2 * bf + 1) { j--; back++; } MC_CHECK(a.dts >= pics[j].pts - 2 * (bf + 1) * step, "dts", "picture %zu, presented at %ld, is decoded at %ld", i, (long)a.pts, (long)a.dts); }
        lastDts = a.dts;
        if (a.idr) { MC_CHECK(!annexb || a.sets == (hevc ? 7 : 6), "sets", "the IDR picture %zu comes without parameter sets", i); for (size_t j = 0; j < i; j++) MC_CHECK(pics[j].epoch != epoch || pics[j].out, "idr-order", "the IDR picture %zu was delivered before picture %zu", i, j); }
        MC_CHECK(!p.idr || a.idr, "no-idr", "picture %zu had to be an IDR picture", i);
        int lastIdr = -1; for (size_t j = 0; j <= i; j++) if (pics[j].epoch == epoch && pics[j].may) lastIdr = j;
        if (a.idr && !p.idr) MC_CHECK(preset != "ultrafast" || (lastIdr >= 0 && (int)i - lastIdr == gop), "undue-idr", "picture %zu is an IDR picture, %d after the last one; nothing asked for it (gop %d)", i, (int)i - lastIdr, gop);
        if (!a.idr) MC_CHECK(lastIdr >= 0 && (int)i - lastIdr < gop, "gop", "picture %zu is not an IDR picture, the last one was %d (gop %d)", i, lastIdr, gop);
        p.may = a.idr;
        decode(a, i);
    }
    int64_t step;
    void decode(const Au &a, size_t i) {
        if (!dec) { std::string x; if (!annexb) { StreamInfo *s = e->outputStreamInfo; x.assign((char*)s->extradata, s->extradata_size); } dec.reset(new Decoder(x)); }
        std::string d = a.data; d.resize(d.size() + AV_INPUT_BUFFER_PADDING_SIZE); av_packet_unref(dec->pkt); dec->pkt->data = (uint8_t*)d.data(); dec->pkt->size = a.data.size(); dec->pkt->pts = i; dec->pkt->dts = AV_NOPTS_VALUE;
        int r = avcodec_send_packet(dec->c, dec->pkt); MC_CHECK(r >= 0, "undecodable", "the access unit of picture %zu cannot be decoded (%d)", i, r);
        show();
    }
    void show() {
        while (dec && avcodec_receive_frame(dec->c, dec->fr) >= 0) {
            AVFrame *f = dec->fr; size_t i = f->pts; MC_CHECK(i < pics.size() && (int)i > lastOut, "order", "picture %zu is shown after picture %d", i, lastOut); lastOut = i; shown++;
            const Pic &p = pics[i]; AVPixelFormat pf = p.f == YUV420P ? AV_PIX_FMT_YUV420P : p.f == YUV422P ? AV_PIX_FMT_YUV422P : AV_PIX_FMT_YUV444P;
            MC_CHECK(f->width == p.w && f->height == p.h && f->format == pf, "picture", "picture %zu was decoded as %dx%d, format %d", i, f->width, f->height, f->format);
            for (int k = 0; k < 3; k++) { int W = k ? cw(p.f, p.w) : p.w, H = k ? ch(p.f, p.h) : p.h; for (int s = 0; s < 4; s++) { int x = W / 4 + (s & 1) * W / 2, y = H / 4 + (s >> 1) * H / 2, g = f->data[k][y * f->linesize[k] + x], want = value(p.n, k, s); MC_CHECK(abs(g - want) <= 8, "picture", "picture %zu: component %d of quadrant %d is %d, not %d", i, k, s, g, want); } }
        }
    }
    void flush() { if (!dec) return; avcodec_send_packet(dec->c, NULL); show(); MC_CHECK(shown == (int)(outs - firstOfEpoch), "undecodable", "%d of %zu access units gave a picture", shown, outs - firstOfEpoch); }
};

static World *W;
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static void run() {
    mc::vclock_ns = 1700000000000000000ll; hevc = mc::sparam("codec", "avc") == "hevc";
    const int depth = mc::param("depth", 6), SW = 64, SH = 64; const std::string menu = mc::sparam("menu", "Fi");
    World w; W = &w; w.step = mc::param("step", 40000); w.in.reset(new In(bytes(YUV444P, 96, 96))); w.in->setId(1);
    if (hevc) w.e = new VideoEncoderX265(); else w.e = new VideoEncoderX264();
    std::unique_ptr<VideoEncoderX264or5> own(w.e); w.e->setId(2); w.snk.reset(new Snk()); w.snk->setId(3); w.snk->fType = TRANSMITTER;
    MC_CHECK(w.in->connectOneToOne(w.e) && w.e->connectOneToOne(w.snk.get()), "connect", "the encoder cannot be connected");
    w.q = w.snk->readers.begin()->second->queue;
    w.gop = mc::param("gop", 25); w.threads = mc::param("threads", 1); w.lookahead = mc::param("lookahead", 0); w.bframes = mc::param("bframes", 0); w.bitrate = 2000; w.fps = mc::param("fps", 0); w.gopTime = mc::param("gopTime", 0); w.preset = mc::sparam("preset", "ultrafast"); w.annexb = mc::param("annexb", 1);
    w.ref = 0; w.pend = false; w.dirty = true; w.lw = w.lh = w.lf = -1; w.epoch = 0; w.shown = 0; w.lastDts = 0; w.outs = w.firstOfEpoch = 0; w.outEpoch = 0; w.lastOut = -1;
    w.e->configure(w.bitrate, w.fps, w.gop, w.lookahead, w.bframes, w.threads, w.annexb, w.preset, w.gopTime); mc::vclock_ns += 1000000; { int r; w.e->processFrame(r); }
    int64_t t = mc::param("t0", 5000000); int cw_ = SW, ch_ = SH, cf = YUV420P; mc::Hash oh;
    for (int k = 0; k < depth; k++) {
        char c = menu[mc::choose(menu.size())]; oh.add(c);
        auto num = [&](const char *key, int v) { mc::op("%s %d", key, v); w.send("configure", [&](Jzon::Object &p) { p.Add(key, v); }); };
        switch (c) {
        case 'F': w.feed(cw_, ch_, cf, t); t += w.step; break;
        case 'J': t += 3500000; w.feed(cw_, ch_, cf, t); t += w.step; break;
        case 'S': cw_ = cw_ == SW ? 96 : SW; w.feed(cw_, ch_, cf, t); t += w.step; break;
        case 'Y': cf = cf == YUV420P ? (hevc ? YUV444P : YUV422P) : cf == YUV422P ? YUV444P : YUV420P; w.feed(cw_, ch_, cf, t); t += w.step; break;
        case 'U': w.feed(cw_, ch_, hevc && mc::choose(2) ? YUV422P : RGB24, t); t += w.step; break;
        case 'i': mc::op("intra requested"); w.send("forceIntra", nullptr); w.pend = true; break;
        case 'b': w.bitrate = w.bitrate == 2000 ? 1000 : 2000; num("bitrate", w.bitrate); w.dirty = true; break;
        case 'g': w.gop = w.gop == 3 ? 2 : 3; num("gop", w.gop); w.dirty = true; break;
        case 'f': w.fps = w.fps == 25 ? 0 : 25; num("fps", w.fps); w.dirty = true; break;
        case 't': w.gopTime = w.gopTime ? 0 : 1000000; num("gopTime", w.gopTime ? 20 : 0); w.dirty = true; break;
        case 'B': w.bframes = w.bframes ? 0 : 2; num("bframes", w.bframes); w.dirty = true; break;
        case 'l': w.lookahead = w.lookahead ? 0 : 4; num("lookahead", w.lookahead); w.dirty = true; break;
        case 'h': w.threads = w.threads == 1 ? 3 : 1; num("threads", w.threads); w.dirty = true; break;
        case 'A': w.annexb = !w.annexb; mc::op("annexb %d", w.annexb); w.send("configure", [&](Jzon::Object &p) { p.Add("annexb", w.annexb); }); w.dirty = true; break;
        case 'p': w.preset = w.preset == "ultrafast" ? "veryfast" : "ultrafast"; mc::op("preset %s", w.preset.c_str()); w.send("configure", [&](Jzon::Object &p) { p.Add("preset", w.preset); }); w.dirty = true; break;
        case 'X': { static const struct { const char *k; int v; } bad[] = {{"bitrate", 0}, {"bitrate", -5}, {"gop", 0}, {"gop", -1}, {"threads", 0}, {"threads", -2}, {"lookahead", -2}, {"preset", 0}}; int b = mc::choose(8); mc::op("refused: %s %d", bad[b].k, bad[b].v);
            w.send("configure", [&](Jzon::Object &p) { if (b == 7) p.Add("preset", ""); else p.Add(bad[b].k, bad[b].v); p.Add("fps", 7); p.Add("bframes", 9); }); break; }
        case 'R': { int64_t r = mc::choose(2) ? t + w.step * 3 / 2 : 1000001; mc::op("reference time %ld", (long)r); w.send("gopReferenceTime", [&](Jzon::Object &p) { p.Add("referenceTime", std::to_string(r)); }); w.ref = r; break; }
        case 'Z': { int b = mc::choose(3); mc::op("refused reference time"); w.send("gopReferenceTime", b == 0 ? std::function<void(Jzon::Object&)>() : [&](Jzon::Object &p) { if (b == 1) p.Add("referenceTime", 5); else p.Add("referenceTime", "soon"); }); break; }
        default: mc::harness_error("menu %c", c);
        }
        Jzon::Object o; w.e->getState(o);
        MC_CHECK(o.Get("bitrate").ToInt() == w.bitrate && o.Get("fps").ToInt() == (w.fps ? w.fps : 25) && o.Get("gop").ToInt() == w.gop && o.Get("gopTime").ToInt() == w.gopTime && o.Get("lookahead").ToInt() == w.lookahead && o.Get("threads").ToInt() == w.threads && o.Get("bframes").ToInt() == w.bframes && o.Get("annexb").ToBool() == w.annexb && o.Get("preset").ToString() == w.preset && o.Get("refTime").ToString() == std::to_string(w.ref), "state", "the state says %d kb/s, %d fps, gop %d, gopTime %d, lookahead %d, %d threads, %d B, reference %s", o.Get("bitrate").ToInt(), o.Get("fps").ToInt(), o.Get("gop").ToInt(), o.Get("gopTime").ToInt(), o.Get("lookahead").ToInt(), o.Get("threads").ToInt(), o.Get("bframes").ToInt(), o.Get("refTime").ToString().c_str());
        MC_CHECK(w.e->getFrameTime() == usec(w.fps ? 1000000 / w.fps : 0), "state", "frame time %ld", (long)w.e->getFrameTime().count());
        mc::Hash h; h.add(w.epoch).add(w.outs).add(w.inside()).add(w.dirty).add(w.pend); mc::state(h.h);
    }
    w.flush(); for (auto &a : w.aus) oh.add(a.idr).add(a.pts); mc::outcome(oh.h);
    MC_CHECK((int)w.e->qFTP.size() <= w.lookahead + w.threads + 30, "leak", "%zu time stamps are kept", w.e->qFTP.size());
    w.dec.reset(); own.reset(); w.snk.reset(); w.in.reset();
}
void mc_body() {
    static int runs = 0; size_t before = &__sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
    run();
    if (before && !hevc && ++runs > 3) { size_t after = __sanitizer_get_current_allocated_bytes(); MC_CHECK(after < before + 1000, "leak", "%zu bytes are left behind", after - before); }
}
