// The video decoder filter against a modelled codec: every sequence of coded
// frames (what decoding them yields is part of the sequence), codec changes and
// failing codec calls.
#include "filters.hh"
#include "libav_model.hh"
#include "modules/videoDecoder/VideoDecoderLibav.hh"
extern "C" {
#include <libavutil/log.h>
}
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static unsigned made; static int decodes;
static AVCodec C264, C265, CVP8, CMJPEG;
static AVCodec *model_codec(int id, bool enc) {
    if (enc) return NULL;
    C264.id = AV_CODEC_ID_H264; C264.capabilities = CODEC_CAP_TRUNCATED | CODEC_CAP_SLICE_THREADS; C265.id = AV_CODEC_ID_HEVC; C265.capabilities = CODEC_CAP_SLICE_THREADS; CVP8.id = AV_CODEC_ID_VP8; CVP8.capabilities = CODEC_CAP_TRUNCATED; CMJPEG.id = AV_CODEC_ID_MJPEG; CMJPEG.capabilities = 0;
    switch (id) { case AV_CODEC_ID_H264: return &C264; case AV_CODEC_ID_HEVC: return &C265; case AV_CODEC_ID_VP8: return &CVP8; case AV_CODEC_ID_MJPEG: return &CMJPEG; default: return NULL; }
}
static bool model_open(AVCodecContext *) { return true; }
struct Pic { int w, h; AVPixelFormat f; PixType p; };
static const Pic PICS[] = {{16, 8, AV_PIX_FMT_YUV420P, YUV420P}, {6, 4, AV_PIX_FMT_RGB24, RGB24}, {8, 6, AV_PIX_FMT_YUV444P, YUV444P}, {10, 4, AV_PIX_FMT_YUYV422, YUYV422}, {18, 6, AV_PIX_FMT_YUV422P, YUV422P}, {8, 8, AV_PIX_FMT_YUVJ420P, YUVJ420P}, {4, 4, AV_PIX_FMT_RGB32, RGB32},
    {5, 3, AV_PIX_FMT_YUV420P, YUV420P}, {8, 4, AV_PIX_FMT_GRAY8, P_NONE}, {64, 48, AV_PIX_FMT_RGB24, RGB24}};
enum { NPIC = 10, BIG = 9 };
static uint8_t pix(unsigned no, int plane, int x, int y) { return no * 61 + plane * 97 + x * 5 + y * 31 + 1; }
static int planes(AVPixelFormat f, int w, int h, int lw[4], int lh[4]) {
    int cw = (w + 1) / 2, ch = (h + 1) / 2;
    switch (f) {
    case AV_PIX_FMT_RGB24: lw[0] = w * 3; lh[0] = h; return 1; case AV_PIX_FMT_RGB32: lw[0] = w * 4; lh[0] = h; return 1; case AV_PIX_FMT_YUYV422: lw[0] = w * 2; lh[0] = h; return 1; case AV_PIX_FMT_GRAY8: lw[0] = w; lh[0] = h; return 1;
    case AV_PIX_FMT_YUV444P: for (int i = 0; i < 3; i++) { lw[i] = w; lh[i] = h; } return 3;
    case AV_PIX_FMT_YUV422P: lw[0] = w; lh[0] = h; lw[1] = lw[2] = cw; lh[1] = lh[2] = h; return 3;
    default: lw[0] = w; lh[0] = h; lw[1] = lw[2] = cw; lh[1] = lh[2] = ch; return 3;
    }
}
static std::string packed(int k, unsigned no) { const Pic &p = PICS[k]; int lw[4], lh[4], n = planes(p.f, p.w, p.h, lw, lh); std::string s; for (int i = 0; i < n; i++) for (int y = 0; y < lh[i]; y++) for (int x = 0; x < lw[i]; x++) s += (char)pix(no, i, x, y); return s; }
static std::vector<std::string> seen;            // what each decode call was given
// A coded frame is a sequence of records, one per decoding step: type, picture, number, size, filler
extern "C" int avcodec_decode_video2(AVCodecContext *c, AVFrame *f, int *got, const AVPacket *p) {
    *got = 0; if (!c || !av_ctx_.count(c) || !av_ctx_[c].open) { av_bad = "decoded with a context that is not open"; return -1; }
    if (++decodes > 1000) { av_bad = "decodes one frame without end"; decodes = -100000; return -1; }
    ModelCtx &m = av_ctx_[c]; for (auto &h : m.held) free(h.second); m.held.clear(); av_frame_unref(f);
    if (p->size < 4 || !p->data) { av_bad = "decoded an incomplete record"; return -1; }
    const uint8_t *d = p->data; int n = d[3]; char t = d[0]; if (n > p->size) { av_bad = "decoded beyond the frame"; return -1; }
    for (int i = 4; i < n; i++) if (d[i] != (uint8_t)(d[2] + i)) { av_bad = "decoded other data than the coded frame's"; return -1; }
    if (t == 'E') return AVERROR(EINVAL);
    auto give = [&](int k, unsigned no) { const Pic &q = PICS[k]; int lw[4], lh[4], np = planes(q.f, q.w, q.h, lw, lh);
        for (int i = 0; i < np; i++) { int pad = 3 + i * 5 + no % 3; uint8_t *b = (uint8_t*)malloc((lw[i] + pad) * lh[i]); memset(b, 0xBB, (lw[i] + pad) * lh[i]); for (int y = 0; y < lh[i]; y++) for (int x = 0; x < lw[i]; x++) b[y * (lw[i] + pad) + x] = pix(no, i, x, y); f->data[i] = b; f->linesize[i] = lw[i] + pad; m.held.push_back(std::make_pair(i, b)); }
        f->width = q.w; f->height = q.h; f->format = q.f; *got = 1; };
    if (t == 'D') { int old = m.delayed.empty() ? -1 : m.delayed[0]; m.delayed.assign(1, d[1] * 256 + d[2]); if (old >= 0) give(old / 256, old % 256); return n; }
    if (t == 'Z') return 0;
    if (t == 'P') give(d[1], d[2]);
    return n;
}

void mc_body() {
    const int depth = mc::param("depth", 3); const std::string menu = mc::sparam("menu", "PNEZBM0c"); const int nf = mc::param("faults", 0), npic = mc::param("pics", 3);
    av_log_set_level(AV_LOG_QUIET); av_model_reset(); made = 0; decodes = 0; mc::vclock_ns = 1000000000000ll;
    if (nf) av_fault_at = mc::choose(nf + 1);
    const size_t CAP = 64 * 48, GUARD = 16384;
    std::unique_ptr<InterleavedVideoFrame> outbuf(InterleavedVideoFrame::createNew(RAW, (unsigned)(CAP + GUARD)));
    struct Window : VideoFrame { InterleavedVideoFrame *f; unsigned len, cap; Window(InterleavedVideoFrame *f, unsigned cap) : VideoFrame(RAW), f(f), len(0), cap(cap) {} unsigned char **getPlanarDataBuf() { return NULL; } unsigned char *getDataBuf() { return f->getDataBuf(); } unsigned int getLength() { return len; } unsigned int getMaxLength() { return cap; } void setLength(unsigned l) { len = l; } bool isPlanar() { return false; } } out(outbuf.get(), CAP);
    static uint8_t EXTRA[] = {1, 100, 7, 42, 9}; StreamInfo si(VIDEO); si.video.codec = H264; if (mc::param("extra", 1)) si.setExtraData(EXTRA, 5); filter_si = &si; std::string extra = mc::param("extra", 1) ? std::string((const char*)EXTRA, 5) : "";
    {
    Src src; src.setId(1); void *mem = malloc(sizeof(VideoDecoderLibav)); memset(mem, 0xA5, sizeof(VideoDecoderLibav)); VideoDecoderLibav *v = new (mem) VideoDecoderLibav(); v->setId(2);
    if (!src.connectOneToOne(v)) mc::fail("harness", "connect");
    int codec = VC_NONE, W = 0, H = 0; bool ok_ctx = false; struct Late { int k; unsigned n; int64_t pts; size_t seq; int64_t org; }; std::deque<Late> late; unsigned no = 0; VCodecType cur = H264;
    auto rec = [&](std::string &s, char t, int k, unsigned n) { int sz = 4 + (n * 3) % 7; s += t; s += (char)k; s += (char)n; s += (char)sz; for (int i = 4; i < sz; i++) s += (char)(n + i); };
    auto frame = [&](VCodecType vc, const std::string &kinds, const std::vector<int> &ks) {
        std::string pay; no++; for (size_t i = 0; i < kinds.size(); i++) rec(pay, kinds[i], ks[i], (no * 3 + i) & 0xff);
        std::unique_ptr<InterleavedVideoFrame> in(InterleavedVideoFrame::createNew(vc, (unsigned)std::max<size_t>(pay.size(), 1))); memcpy(in->getDataBuf(), pay.data(), pay.size()); in->setLength(pay.size());
        int64_t pts = 5000000 + no * 40000; in->setPresentationTime(usec(pts)); in->setDecodeTime(usec(pts - 33)); in->setSequenceNumber(300 + no); in->setOriginTime(std::chrono::system_clock::time_point(usec(777000 + no)));
        memset(outbuf->getDataBuf(), 0xEE, CAP + GUARD); out.setConsumed(false); out.setLength(3); out.setSize(1, 1); out.setPixelFormat(P_NONE); out.setPresentationTime(usec(-5)); out.setDecodeTime(usec(-5)); out.setSequenceNumber(7); decodes = 0;
        std::string tag = "coded frame " + std::to_string(no) + " of " + utils::getVideoCodecAsString(vc) + " (" + kinds + ")"; mc::op("%s", tag.c_str());
        std::string f0 = av_faulted; bool got = v->doProcessFrame(in.get(), &out); bool faulted = av_faulted != f0;
        MC_CHECK(av_bad.empty(), "codec-use", "%s: %s", tag.c_str(), av_bad.c_str());
        MC_CHECK(got == out.getConsumed(), "delivery", "%s: result %d, frame %s as filled", tag.c_str(), got, out.getConsumed() ? "marked" : "not marked");
        for (size_t k = CAP; k < CAP + GUARD; k++) MC_CHECK(outbuf->getDataBuf()[k] == 0xEE, "overflow", "%s: byte %zu of a buffer of %zu was written", tag.c_str(), k, CAP);
        MC_CHECK(std::string((char*)in->getDataBuf(), pay.size()) == pay, "input", "%s: decoding changed it", tag.c_str());
        // reference
        bool supported = vc == H264 || vc == H265 || vc == VP8 || vc == MJPEG; int ek = -1; unsigned en = 0; bool usable = true, error = false;
        if (!supported) { usable = false; if (codec != vc) { codec = VC_NONE; } }
        else if (codec != vc || !ok_ctx) { late.clear(); if (faulted) { usable = false; codec = VC_NONE; ok_ctx = false; } else { codec = vc; ok_ctx = true; } }
        bool delayed = false; int64_t wp = pts; size_t wseq = 300 + no; int64_t worg = 777000 + no;
        if (usable) for (size_t i = 0; i < kinds.size(); i++) {
            unsigned n = (no * 3 + i) & 0xff; char t = kinds[i];
            if (t == 'E') { error = true; late.clear(); break; } if (t == 'Z') break;
            if (t == 'P' && ks[i] != BIG) { ek = ks[i]; en = n; break; }
            if (t == 'D') { int pk = -1; unsigned pn = 0; if (!late.empty()) { pk = late[0].k; pn = late[0].n; wp = late[0].pts; wseq = late[0].seq; worg = late[0].org; late.clear(); } late.push_back(Late{ks[i], n, pts, 300 + no, int64_t(777000 + no)}); if (pk >= 0) { ek = pk; en = pn; delayed = true; break; } }
        }
        if (error && faulted) { codec = VC_NONE; ok_ctx = false; }
        if (faulted && usable && !error) mc::fail("harness", "unexpected fault");
        MC_CHECK(got == (ek >= 0), "delivery", "%s: %s", tag.c_str(), got ? "delivered a picture that was not decoded" : "the decoded picture was not delivered");
        if (got) {
            const Pic &p = PICS[ek]; std::string w = packed(ek, en);
            MC_CHECK(out.getWidth() == p.w && out.getHeight() == p.h && out.getPixelFormat() == p.p && out.getLength() == w.size(), "format", "%s: picture of %dx%d, format %d, %u bytes; decoded %dx%d, format %d, %zu bytes", tag.c_str(), out.getWidth(), out.getHeight(), out.getPixelFormat(), out.getLength(), p.w, p.h, p.p, w.size());
            MC_CHECK(!memcmp(out.getDataBuf(), w.data(), w.size()), "pixels", "%s: the picture delivered is not the one decoded", tag.c_str());
            bool st = out.getPresentationTime() == usec(wp) && out.getSequenceNumber() == wseq && out.getOriginTime() == std::chrono::system_clock::time_point(usec(worg));
            if (delayed) MC_CHECK_GO(st, "late-picture-times", "%s: the picture of an earlier frame (presented at %ld) is stamped %ld, number %zu", tag.c_str(), (long)wp, (long)out.getPresentationTime().count(), out.getSequenceNumber());
            else MC_CHECK(st, "stamps", "%s: stamped %ld, number %zu", tag.c_str(), (long)out.getPresentationTime().count(), out.getSequenceNumber());
            MC_CHECK(out.getDecodeTime() == out.getPresentationTime() , "stamps", "%s: decode time %ld", tag.c_str(), (long)out.getDecodeTime().count());
            W = p.w; H = p.h;
        }
        // an open codec context of the right codec and with the stream's extra data
        MC_CHECK(av_live <= 1, "leak", "%s: %d codec contexts exist", tag.c_str(), av_live);
        if (supported && ok_ctx) { bool good = false; for (auto &c : av_ctx_) if (c.second.open && c.second.codec == model_codec(vc == H264 ? AV_CODEC_ID_H264 : vc == H265 ? AV_CODEC_ID_HEVC : vc == VP8 ? AV_CODEC_ID_VP8 : AV_CODEC_ID_MJPEG, false)) { good = true; MC_CHECK(c.second.extradata == extra, "extradata", "%s: the codec was opened with %zu bytes of extra data, the stream has %zu", tag.c_str(), c.second.extradata.size(), extra.size()); } MC_CHECK(good, "codec-use", "%s: no codec context for it is open", tag.c_str()); }
    };
    static const VCodecType VCS[] = {H264, H265, VP8, MJPEG, RAW, VC_NONE};
    for (int d = 0; d < depth; d++) {
        char a = menu[mc::choose(menu.size())];
        switch (a) {
        case 'P': frame(cur, "P", {mc::choose(npic)}); break;
        case 'A': frame(cur, "P", {mc::choose(NPIC)}); break;
        case 'N': frame(cur, "N", {0}); break;
        case 'E': frame(cur, "E", {0}); break;
        case 'Z': frame(cur, "Z", {0}); break;
        case 'B': frame(cur, "P", {BIG}); break;
        case '0': frame(cur, "", {}); break;
        case 'M': { int n = 2 + mc::choose(2); std::string k; std::vector<int> ks; for (int i = 0; i < n; i++) { static const char T[] = "NPBE"; char t = T[mc::choose(4)]; ks.push_back(t == 'B' ? BIG : mc::choose(2)); k += t == 'B' ? 'P' : t; } frame(cur, k, ks); break; }
        case 'D': frame(cur, "D", {mc::choose(2)}); break;
        case 'c': { VCodecType n = VCS[mc::choose(6)]; if (n == cur) continue; cur = n; frame(cur, "P", {0}); break; }
        }
        Jzon::Object o; v->getState(o); Jzon::Node &ii = o.Get("inputInfo");
        MC_CHECK(ii.Get("width").ToInt() == W && ii.Get("height").ToInt() == H, "state", "state reports %dx%d, the last picture is %dx%d", ii.Get("width").ToInt(), ii.Get("height").ToInt(), W, H);
        if (ok_ctx && codec != VC_NONE) MC_CHECK(ii.Get("codec").ToString() == utils::getVideoCodecAsString((VCodecType)codec), "state", "state reports codec %s, %s is decoded", ii.Get("codec").ToString().c_str(), utils::getVideoCodecAsString((VCodecType)codec).c_str());
        mc::Hash h; h.add(codec).add(W).add(H).add(cur).add(ok_ctx).add(late.size()); mc::state(h.h); mc::outcome(h.h);
    }
    src.disconnectWriter(1); v->disconnectReader(1); v->~VideoDecoderLibav(); free(mem);
    MC_CHECK(av_bad.empty(), "codec-use", "at the end: %s", av_bad.c_str()); MC_CHECK(av_live == 0 && av_opened == 0, "leak", "%d codec contexts remain after the filter was destroyed", av_live);
    }
}
