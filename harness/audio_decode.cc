// The audio decoder filter against a modelled codec and the real resampler:
// every sequence of packets (what decoding them yields is part of the
// sequence), codec changes, configurations and failing codec calls.
#include "filters.hh"
#include "libav_model.hh"
#include "AudioCircularBuffer.hh"
#include "modules/audioDecoder/AudioDecoderLibav.hh"
extern "C" {
#include <libavutil/log.h>
}
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static int decodes; static AVCodec CODECS[4];
static AVCodec *model_codec(int id, bool enc) {
    static const int IDS[] = {AV_CODEC_ID_PCM_MULAW, AV_CODEC_ID_OPUS, AV_CODEC_ID_AAC, AV_CODEC_ID_MP3}; if (enc) return NULL;
    for (int i = 0; i < 4; i++) if (IDS[i] == id) { CODECS[i].id = (AVCodecID)id; return &CODECS[i]; } return NULL;
}
static int declared_ch, declared_rate;
static bool model_open(AVCodecContext *c) { if (c->channels != declared_ch || c->sample_rate != declared_rate) av_bad = "opened the codec for another stream than declared"; return true; }
struct Snd { int ch, rate; AVSampleFormat f; int n; };
static const Snd SNDS[] = {{2, 48000, AV_SAMPLE_FMT_FLTP, 96}, {1, 8000, AV_SAMPLE_FMT_S16, 40}, {2, 44100, AV_SAMPLE_FMT_S16P, 60}, {2, 48000, AV_SAMPLE_FMT_S32P, 20}, {1, 48000, AV_SAMPLE_FMT_FLT, 33}, {6, 48000, AV_SAMPLE_FMT_FLTP, 28}, {2, 48000, AV_SAMPLE_FMT_U8, 10}, {1, 48000, AV_SAMPLE_FMT_DBL, 12},
    {2, 48000, AV_SAMPLE_FMT_S16, 5000}, {0, 0, AV_SAMPLE_FMT_S16, 24}};
enum { NSND = 9, PLAIN = 9 };
static std::vector<std::string> sound(const Snd &s, int ch, unsigned no) {
    const bool pl = av_sample_fmt_is_planar(s.f); std::vector<std::string> v(pl ? ch : 1); const AVSampleFormat f = av_get_packed_sample_fmt(s.f);
    for (int i = 0; i < s.n; i++) for (int c = 0; c < ch; c++) {
        const int x = (int)((no * 7919 + i * 31 + c * 1009 + (i * i) % 251 * 17) % 32768) - 16384; std::string &o = v[pl ? c : 0];
        switch (f) { case AV_SAMPLE_FMT_U8: o += (char)(x / 256 + 128); break; case AV_SAMPLE_FMT_S16: { int16_t y = x; o.append((char*)&y, 2); break; } case AV_SAMPLE_FMT_S32: { int32_t y = x * 65536; o.append((char*)&y, 4); break; } case AV_SAMPLE_FMT_FLT: { float y = x / 32768.f; o.append((char*)&y, 4); break; } default: { double y = x / 32768.; o.append((char*)&y, 8); } }
    }
    return v;
}
extern "C" int avcodec_decode_audio4(AVCodecContext *c, AVFrame *f, int *got, const AVPacket *p) {
    *got = 0; if (!c || !av_ctx_.count(c) || !av_ctx_[c].open) { av_bad = "decoded with a context that is not open"; return -1; }
    if (++decodes > 1000) { av_bad = "decodes one packet without end"; decodes = -100000; return -1; }
    ModelCtx &m = av_ctx_[c]; for (auto &h : m.held) free(h.second); m.held.clear(); av_frame_unref(f);
    if (p->size < 4 || !p->data) { av_bad = "decoded an incomplete record"; return -1; }
    const uint8_t *d = p->data; int n = d[3]; char t = d[0]; if (n > p->size) { av_bad = "decoded beyond the packet"; return -1; }
    for (int i = 4; i < n; i++) if (d[i] != (uint8_t)(d[2] + i)) { av_bad = "decoded other data than the packet's"; return -1; }
    if (t == 'E') return AVERROR(EINVAL);
    if (t == 'P' || t == 'Y') {                         // 'Y': audio comes out, nothing of the packet is taken
        const Snd &s = SNDS[d[1]]; int ch = s.ch ? s.ch : c->channels; if (d[1] != PLAIN) { c->channels = ch; c->sample_rate = s.rate; c->channel_layout = av_get_default_channel_layout(ch); } c->sample_fmt = s.f;
        std::vector<std::string> v = sound(s, ch, d[2]); for (size_t i = 0; i < v.size(); i++) { uint8_t *b = (uint8_t*)malloc(v[i].size()); memcpy(b, v[i].data(), v[i].size()); f->data[i] = b; m.held.push_back(std::make_pair((int)i, b)); }
        f->extended_data = f->data; f->nb_samples = s.n; f->format = s.f; f->channels = ch; f->sample_rate = c->sample_rate; f->channel_layout = c->channel_layout; *got = 1;
    }
    return t == 'Z' || t == 'Y' ? 0 : n;
}
#include "audio_ref.hh"
static void body(bool warm) {
    const bool q_queue = mc::param("queue", 0);
    const int depth = warm ? 0 : mc::param("depth", 3); const std::string menu = mc::sparam("menu", "PNEZM0c"); const int nf = mc::param("faults", 0), nsnd = mc::param("snds", 3), mk = mc::param("mk", 2);
    av_log_set_level(AV_LOG_QUIET); av_model_reset(); decodes = 0; mc::vclock_ns = 1000000000000ll;
    if (nf && !warm) av_fault_at = mc::choose(nf + 1);
    {
    Src src; src.setId(1); void *mem = malloc(sizeof(AudioDecoderLibav)); memset(mem, 0xA5, sizeof(AudioDecoderLibav)); AudioDecoderLibav *v = new (mem) AudioDecoderLibav(); v->setId(2);
    if (!src.connectOneToOne(v)) mc::fail("harness", "connect");
    {
    SampleFmt fmt = FLTP; int ch = 2, rate = 48000; ACodecType cur = AAC, active = AC_NONE; declared_ch = 2; declared_rate = 48000; int ach = 0, arate = 0; unsigned no = 0;
    int cctx[2] = {0, 0}; std::unique_ptr<FrameQueue> q; std::unique_ptr<AudioFrame> own; AudioFrame *dst = NULL; Conv conv;
    auto newq = [&]() { q.reset(); own.reset(); static ConnectionData cd = cdata(2, 1, 3, 1); if (q_queue) q.reset(v->allocQueue(cd)); const bool ok = fmt == U8P || fmt == S16P || fmt == FLTP;
        if (q_queue) MC_CHECK(ok == (bool)q, "queue", "%s queue for %s", q ? "allocated a" : "no", utils::getSampleFormatAsString(fmt).c_str());
        if (!q_queue) q.reset();
        if (q) { dst = dynamic_cast<AudioFrame*>(q->getRear()); MC_CHECK(dst, "queue", "the queue has no audio frame"); }
        else if (ok) { own.reset(PlanarAudioFrame::createNew(ch, rate, AudioFrame::getMaxSamples(rate), PCM, fmt)); dst = own.get(); }
        else { own.reset(InterleavedAudioFrame::createNew(ch, rate, AudioFrame::getMaxSamples(rate), PCM, fmt)); dst = own.get(); }
        MC_CHECK((int)dst->getChannels() == ch && (int)dst->getSampleRate() == rate && dst->getSampleFmt() == fmt, "queue", "the queue is for %u channels, %u Hz, %s; configured %d, %d, %s", dst->getChannels(), dst->getSampleRate(), utils::getSampleFormatAsString(dst->getSampleFmt()).c_str(), ch, rate, utils::getSampleFormatAsString(fmt).c_str()); };
    if (!warm) newq();
    auto packet = [&](const std::string &kinds, const std::vector<int> &ks, int pch, int prate) {
        std::string pay; no++; for (size_t i = 0; i < kinds.size(); i++) { unsigned n = (no * 5 + i) & 0xff; int sz = 4 + (n * 3) % 7; pay += kinds[i]; pay += (char)ks[i]; pay += (char)n; pay += (char)sz; for (int j = 4; j < sz; j++) pay += (char)(n + j); }
        std::unique_ptr<InterleavedAudioFrame> in(InterleavedAudioFrame::createNew(pch, prate, 600, cur, S16)); if (pay.size() > in->getMaxLength()) mc::fail("harness", "packet"); memcpy(in->getDataBuf(), pay.data(), pay.size()); in->setLength(pay.size());
        int64_t pts = 5000000 + no * 20000; in->setPresentationTime(usec(pts)); in->setDecodeTime(usec(pts - 33)); in->setSequenceNumber(300 + no); in->setOriginTime(std::chrono::system_clock::time_point(usec(777000 + no)));
        dst->setConsumed(false); dst->fillWithValue(0xEE); dst->setSamples(11); dst->setLength(22); dst->setPresentationTime(usec(-5)); dst->setDecodeTime(usec(-5)); dst->setSequenceNumber(7); decodes = 0;
        std::string tag = "packet " + std::to_string(no) + " of " + utils::getAudioCodecAsString(cur) + " (" + kinds + ")"; mc::op("%s, declared %d channels, %d Hz", tag.c_str(), pch, prate);
        std::string f0 = av_faulted; bool got = v->doProcessFrame(in.get(), dst); bool faulted = av_faulted != f0;
        MC_CHECK(av_bad.empty(), "codec-use", "%s: %s", tag.c_str(), av_bad.c_str());
        MC_CHECK(got == dst->getConsumed(), "delivery", "%s: result %d, frame %s as filled", tag.c_str(), got, dst->getConsumed() ? "marked" : "not marked");
        MC_CHECK(std::string((char*)in->getDataBuf(), pay.size()) == pay, "input", "%s: decoding changed it", tag.c_str());
        // reference
        bool supported = cur == PCMU || cur == OPUS || cur == AAC || cur == MP3, usable = true;
        if (pch <= 0 || prate <= 0) usable = false;
        else if (active != cur || ach != pch || arate != prate) { if (!supported || faulted) { active = AC_NONE; usable = false; } else { active = cur; } ach = pch; arate = prate; if (active == AC_NONE) ach = 0; if (usable) cctx[0] = pch, cctx[1] = prate; }
        else if (faulted) mc::fail("harness", "unexpected fault");
        std::vector<std::string> want; int n = 0; bool any = false; const int oc = dst->getChannels(), orr = dst->getSampleRate(), room = dst->getMaxSamples(); const AVSampleFormat of = avfmt(dst->getSampleFmt());
        if (usable) for (size_t i = 0; i < kinds.size(); i++) {
            unsigned m = (no * 5 + i) & 0xff; char t = kinds[i]; if (t == 'E' || t == 'Z') break; if (t == 'N') continue;
            const Snd &s = SNDS[ks[i]]; if (ks[i] != PLAIN) { cctx[0] = s.ch; cctx[1] = s.rate; }
            if (!conv.fit(cctx[0], cctx[1], s.f, oc, orr, of)) mc::fail("harness", "reference conversion");
            int r = conv.run(sound(s, cctx[0], m), s.n, want, room - n); if (r < 0) mc::fail("harness", "reference conversion"); n += r; any = true; if (t == 'Y') break;
        }
        MC_CHECK(got == any, "delivery", "%s: %s", tag.c_str(), got ? "delivered audio that was not decoded" : "the decoded audio was not delivered");
        if (got) {
            const int bs = av_get_bytes_per_sample(of); const bool pl = av_sample_fmt_is_planar(of);
            MC_CHECK((int)dst->getSamples() == n && (int)dst->getLength() == n * bs * (pl ? 1 : oc), "length", "%s: %u samples, length %u; %d samples were decoded", tag.c_str(), dst->getSamples(), dst->getLength(), n);
            MC_CHECK((int)dst->getChannels() == oc && (int)dst->getSampleRate() == orr && avfmt(dst->getSampleFmt()) == of, "format", "%s: the output frame changed its format", tag.c_str());
            for (size_t k = 0; k < want.size(); k++) { const uint8_t *o = pl ? dst->getPlanarDataBuf()[k] : dst->getDataBuf(); for (size_t j = 0; j < want[k].size(); j++) MC_CHECK(o[j] == (uint8_t)want[k][j], "samples", "%s: channel %zu differs from what was decoded at byte %zu of %zu", tag.c_str(), k, j, want[k].size()); }
            MC_CHECK(dst->getPresentationTime() == usec(pts) && dst->getSequenceNumber() == 300 + no && dst->getOriginTime() == in->getOriginTime() && dst->getDecodeTime() == usec(NO_DTS), "stamps", "%s: stamped %ld, number %zu, decode time %ld", tag.c_str(), (long)dst->getPresentationTime().count(), dst->getSequenceNumber(), (long)dst->getDecodeTime().count());
        }
        MC_CHECK(av_live <= 1, "leak", "%s: %d codec contexts exist", tag.c_str(), av_live);
        if (active != AC_NONE) { static const std::map<int, int> ID = {{PCMU, AV_CODEC_ID_PCM_MULAW}, {OPUS, AV_CODEC_ID_OPUS}, {AAC, AV_CODEC_ID_AAC}, {MP3, AV_CODEC_ID_MP3}}; bool good = false; for (auto &c : av_ctx_) if (c.second.open && c.second.codec == model_codec(ID.at(active), false)) good = true; MC_CHECK(good, "codec-use", "%s: no codec context for it is open", tag.c_str()); }
    };
    struct Out { SampleFmt f; int ch, rate; }; static const Out OUTS[] = {{FLTP, 2, 48000}, {S16P, 1, 48000}, {U8P, 2, 8000}, {S16P, 2, 44100}, {FLTP, 1, 48000}, {S16, 2, 48000}, {FLT, 1, 32000}, {U8, 2, 48000}};
    static const ACodecType ACS[] = {AAC, OPUS, PCMU, MP3, PCM, G711, AC_NONE}; static const char *BAD[] = {"{\"sampleFormat\":\"nonsense\"}", "{\"channels\":0}", "{\"channels\":3}", "{\"sampleRate\":0}", "{\"sampleRate\":-48000}", "{\"channels\":\"two\"}", "{\"sampleRate\":[48000]}", "{\"sampleFormat\":16}", "{\"sampleFormat\":\"s16p\",\"channels\":-1,\"sampleRate\":44100}"};
    auto settle = [&]() { mc::vclock_ns += 1000000; int r; v->processFrame(r); };
    for (int d = 0; d < depth; d++) {
        char a = menu[mc::choose(menu.size())];
        switch (a) {
        case 'P': packet("P", {mc::choose(nsnd)}, declared_ch, declared_rate); break;
        case 'A': packet("P", {mc::choose(NSND)}, declared_ch, declared_rate); break;
        case 'H': packet("P", {PLAIN}, declared_ch, declared_rate); break;
        case 'N': packet("N", {0}, declared_ch, declared_rate); break;
        case 'E': packet("E", {0}, declared_ch, declared_rate); break;
        case 'Z': packet("Z", {0}, declared_ch, declared_rate); break;
        case '0': packet("", {}, declared_ch, declared_rate); break;
        case 'b': { int k = mc::choose(2); packet("P", {0}, k ? declared_ch : 0, k ? 0 : declared_rate); break; }
        case 'M': { int n = 2 + mc::choose(2); std::string k; std::vector<int> ks; for (int i = 0; i < n; i++) { static const char T[] = "PNEY"; k += T[mc::choose(4)]; static const int LK[] = {0, 8, 1}; ks.push_back(k[i] == 'P' ? LK[mc::choose(mk)] : 0); } packet(k, ks, declared_ch, declared_rate); break; }
        case 'c': { ACodecType n = ACS[mc::choose(7)]; if (n == cur) mc::prune(); cur = n; packet("P", {0}, declared_ch, declared_rate); break; }
        case 's': { static const int CH[] = {2, 1, 2}, RT[] = {48000, 8000, 44100}; int k = mc::choose(3); declared_ch = CH[k]; declared_rate = RT[k]; packet("P", {PLAIN}, declared_ch, declared_rate); break; }
        case 'f': { const Out &o = OUTS[mc::choose(8)]; mc::op("configure(%s, %d, %d)", utils::getSampleFormatAsString(o.f).c_str(), o.ch, o.rate); v->configure(o.f, o.ch, o.rate); settle(); fmt = o.f; ch = o.ch; rate = o.rate; if (mc::choose(2)) { mc::op("new queue"); newq(); } break; }
        case 'x': { const char *b = BAD[mc::choose(9)]; mc::op("configure event %s", b); Jzon::Object root, ps; Jzon::Parser pr(ps, b); if (!pr.Parse()) mc::fail("harness", "json"); root.Add("action", "configure"); root.Add("params", ps); Event e(root, std::chrono::system_clock::now(), 0); v->pushEvent(e); settle(); break; }
        case 'p': { mc::op("configure event with the sample rate only"); Jzon::Object root, ps; ps.Add("sampleRate", 32000); root.Add("action", "configure"); root.Add("params", ps); Event e(root, std::chrono::system_clock::now(), 0); v->pushEvent(e); settle(); rate = 32000; if (mc::choose(2)) { mc::op("new queue"); newq(); } break; }
        }
        Jzon::Object o; v->getState(o);
        MC_CHECK(o.Get("sampleRate").ToInt() == rate && o.Get("channels").ToInt() == ch && o.Get("sampleFormat").ToString() == utils::getSampleFormatAsString(fmt), "state", "state reports %d Hz, %d channels, %s; configured %d, %d, %s", o.Get("sampleRate").ToInt(), o.Get("channels").ToInt(), o.Get("sampleFormat").ToString().c_str(), rate, ch, utils::getSampleFormatAsString(fmt).c_str());
        if (active != AC_NONE) MC_CHECK(o.Get("codec").ToString() == utils::getAudioCodecAsString(active), "state", "state reports codec %s, %s is decoded", o.Get("codec").ToString().c_str(), utils::getAudioCodecAsString(active).c_str());
        mc::Hash h; h.add(active).add(cur).add(ach).add(arate).add(fmt).add(ch).add(rate).add(dst->getSampleFmt()).add(dst->getSampleRate()).add(conv.ic).add(conv.iff).add(conv.orr); mc::state(h.h); mc::outcome(h.h);
    }
    }
    src.disconnectWriter(1); v->disconnectReader(1); v->~AudioDecoderLibav(); free(mem);
    MC_CHECK(av_bad.empty(), "codec-use", "at the end: %s", av_bad.c_str()); MC_CHECK(av_live == 0 && av_opened == 0, "leak", "%d codec contexts remain after the filter was destroyed", av_live);
    }
}
void mc_body() {
    static bool once; if (!once) { once = true; body(true); }
    static int runs; av_model_reset(); const size_t b0 = __sanitizer_get_current_allocated_bytes(); body(false); av_model_reset(); const size_t b1 = __sanitizer_get_current_allocated_bytes();
    if (++runs > 3) MC_CHECK(b1 < b0 + 1500, "leak", "%zu bytes are left behind", b1 - b0);
}
