// The audio encoder filter against a modelled codec and the real resampler:
// every sequence of configurations, chunks of samples, input formats, answers of
// the codec and failing codec calls.
#include "filters.hh"
#include "libav_model.hh"
#include "AudioCircularBuffer.hh"
#include "AVFramedQueue.hh"
#include "modules/audioEncoder/AudioEncoderLibav.hh"
extern "C" {
#include <libavutil/log.h>
}
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include "audio_ref.hh"

struct Kind { ACodecType c; int id, fs; AVSampleFormat f; std::vector<int> rates; std::vector<uint64_t> layouts; };
static const Kind KINDS[] = {{AAC, AV_CODEC_ID_AAC, 64, AV_SAMPLE_FMT_S16, {44100, 48000, 0}, {AV_CH_LAYOUT_MONO, AV_CH_LAYOUT_STEREO, 0}}, {OPUS, AV_CODEC_ID_OPUS, 40, AV_SAMPLE_FMT_S16, {48000, 0}, {AV_CH_LAYOUT_MONO, AV_CH_LAYOUT_STEREO, 0}},
    {MP3, AV_CODEC_ID_MP3, 72, AV_SAMPLE_FMT_S16P, {48000, 44100, 0}, {AV_CH_LAYOUT_STEREO, 0}}, {PCM, AV_CODEC_ID_PCM_S16BE, 0, AV_SAMPLE_FMT_S16, {}, {}}, {PCMU, AV_CODEC_ID_PCM_MULAW, 0, AV_SAMPLE_FMT_S16, {}, {}}};
static AVCodec CODECS[5]; static AVSampleFormat FMTS[5][3];
static AVCodec *model_codec(int id, bool enc) {
    if (!enc) return NULL;
    for (int i = 0; i < 5; i++) if (KINDS[i].id == id) { AVCodec &c = CODECS[i]; c.id = (AVCodecID)id; FMTS[i][0] = AV_SAMPLE_FMT_U8; FMTS[i][1] = KINDS[i].f; FMTS[i][2] = AV_SAMPLE_FMT_NONE; c.sample_fmts = FMTS[i]; c.supported_samplerates = KINDS[i].rates.empty() ? NULL : KINDS[i].rates.data(); c.channel_layouts = KINDS[i].layouts.empty() ? NULL : KINDS[i].layouts.data(); return &c; }
    return NULL;
}
static int opened_with[5];
static bool model_open(AVCodecContext *c) {
    opened_with[0] = c->channels; opened_with[1] = c->sample_rate; opened_with[2] = c->sample_fmt; opened_with[3] = c->bit_rate; opened_with[4] = av_get_channel_layout_nb_channels(c->channel_layout);
    for (auto &k : KINDS) if (av_ctx_[c].codec == model_codec(k.id, true)) c->frame_size = k.fs; return true;
}
struct Enc { std::vector<std::string> planes; }; static std::vector<Enc> encoded; static char script; static unsigned enc_no; static std::string enc_out;
extern "C" int avcodec_encode_audio2(AVCodecContext *c, AVPacket *p, const AVFrame *f, int *got) {
    *got = 0; if (!c || !av_ctx_.count(c) || !av_ctx_[c].open) { av_bad = "encoded with a context that is not open"; return -1; }
    if (!f) { av_bad = "encoded no frame"; return -1; } if (f->format != c->sample_fmt || f->channels != c->channels) { av_bad = "encoded a frame of another format than the codec was opened with"; return -1; }
    if (c->frame_size && f->nb_samples != c->frame_size) { av_bad = "encoded a frame that is not of the codec's size"; return -1; }
    const bool pl = av_sample_fmt_is_planar((AVSampleFormat)f->format); const int n = f->nb_samples * av_get_bytes_per_sample((AVSampleFormat)f->format) * (pl ? 1 : c->channels);
    Enc e; for (int i = 0; i < (pl ? c->channels : 1); i++) e.planes.push_back(std::string((char*)f->data[i], n)); encoded.push_back(e); enc_no++;
    if (script == 'E') return AVERROR(EINVAL); if (script == 'N') return 0;
    enc_out.clear(); int sz = script == 'L' ? 300 : 5 + enc_no % 7; for (int i = 0; i < sz; i++) enc_out += (char)(enc_no * 11 + i);
    if (!p->data) { av_bad = "no room for the packet was given"; return -1; } if (p->size < sz) return AVERROR(EINVAL);
    memcpy(p->data, enc_out.data(), sz); p->size = sz; *got = 1; return 0;
}
struct Cfg { ACodecType c; int ch, rate, br; bool ok; };
static const Cfg CFGS[] = {{AAC, 2, 48000, 128000, true}, {PCMU, 1, 8000, 64000, true}, {MP3, 2, 44100, 192000, true}, {PCM, 2, 48000, 0, true}, {OPUS, 1, 48000, 24000, true}, {PCM, 1, 16000, 1, true}, {AAC, 1, 44100, 96000, true},
    {AAC, 2, 12345, 1, false}, {AAC, 0, 48000, 1, false}, {G711, 1, 8000, 1, false}, {AC_NONE, 2, 48000, 1, false}, {AAC, 5, 48000, 1, false}, {PCM, 2, 0, 1, false}, {MP3, 1, 44100, 1, false}, {OPUS, 2, 44100, 1, false}, {PCM, -1, 48000, 1, false}, {PCM, 3, 48000, 1, false}, {PCM, 2, -48000, 1, false}};
enum { NCFG = 18, NOK = 7 };
struct In { SampleFmt f; int ch, rate; }; static const In INS[] = {{FLTP, 2, 48000}, {S16P, 1, 8000}, {S16, 2, 48000}, {FLTP, 2, 44100}, {U8P, 2, 48000}, {FLT, 1, 16000}, {S16P, 2, 32000}, {FLTP, 1, 48000}}; enum { NIN = 8 };
static const char *BAD[] = {"{\"codec\":7}", "{\"codec\":\"nonsense\",\"channels\":2,\"sampleRate\":48000}", "{\"codec\":\"aac\",\"channels\":\"two\",\"sampleRate\":48000}", "{\"codec\":\"aac\",\"channels\":2,\"sampleRate\":[1]}", "{\"codec\":\"aac\"}", "{\"codec\":\"aac\",\"channels\":2,\"sampleRate\":48000,\"bitrate\":{}}", "{}"};

static void body(bool warm) {
    const int depth = warm ? 0 : mc::param("depth", 3), tries = mc::param("tries", 1), ncfg = mc::param("cfgs", NCFG), nin = mc::param("ins", NIN), nf = mc::param("faults", 0), first = mc::param("in", 0); const std::string menu = mc::sparam("menu", "Ci");
    av_log_set_level(AV_LOG_QUIET); av_model_reset(); encoded.clear(); enc_no = 0; script = 'C'; mc::vclock_ns = 1000000000000ll;
    if (nf && !warm) av_fault_at = mc::choose(nf + 1);
    {
    Src src; src.setId(1); void *mem = malloc(sizeof(AudioEncoderLibav)); memset(mem, 0xA5, sizeof(AudioEncoderLibav)); AudioEncoderLibav *v = new (mem) AudioEncoderLibav(); v->setId(2); BaseFilter *vb = v;
    {
    const Cfg *cfg = NULL; unsigned spf = 0; bool connected = false; 
    auto kind = [&](ACodecType c) -> const Kind * { for (auto &k : KINDS) if (k.c == c) return &k; return NULL; };
    auto check = [&]() { Jzon::Object o; v->getState(o);
        MC_CHECK(v->getCodec() == (cfg ? cfg->c : AC_NONE) && o.Get("codec").ToString() == utils::getAudioCodecAsString(cfg ? cfg->c : AC_NONE), "state", "state reports codec %s, configured %s", o.Get("codec").ToString().c_str(), utils::getAudioCodecAsString(cfg ? cfg->c : AC_NONE).c_str());
        if (cfg) MC_CHECK(o.Get("sampleRate").ToInt() == cfg->rate && o.Get("channels").ToInt() == cfg->ch, "state", "state reports %d Hz, %d channels; configured %d, %d", o.Get("sampleRate").ToInt(), o.Get("channels").ToInt(), cfg->rate, cfg->ch);
        MC_CHECK(v->getSamplesPerFrame() == spf, "state", "%u samples per frame, expected %u", v->getSamplesPerFrame(), spf);
        MC_CHECK(av_live == (cfg ? 1 : 0) && av_opened == av_live, "contexts", "%d codec contexts, %d open", av_live, av_opened); MC_CHECK(av_bad.empty(), "codec-use", "%s", av_bad.c_str()); };
    auto outcome = [&](const Cfg &k) { if (!cfg && k.ok && av_faulted.empty()) { cfg = &k; spf = kind(k.c)->fs ? kind(k.c)->fs : k.rate / 50; const Kind *q = kind(k.c);
            MC_CHECK(av_opened == 1 && opened_with[0] == k.ch && opened_with[1] == k.rate && opened_with[2] == q->f && opened_with[3] == k.br && opened_with[4] == k.ch, "configuration", "the codec was opened %d times, last with %d channels (%d in the layout), %d Hz, format %d, %d bit/s", av_opened, opened_with[0], opened_with[4], opened_with[1], opened_with[2], opened_with[3]); }
        av_faulted.clear(); check(); };
    auto configure = [&](const Cfg &k) { mc::op("configure(%s, %d, %d, %d)", utils::getAudioCodecAsString(k.c).c_str(), k.ch, k.rate, k.br); av_faulted.clear(); v->configure(k.c, k.ch, k.rate, k.br); if (connected) { mc::vclock_ns += 1000000; int r; vb->processFrame(r); } else { mc::vclock_ns += 1000000; v->processEvent(); } outcome(k); };
    auto malformed = [&]() { const char *b = BAD[mc::choose(7)]; mc::op("configure event %s", b); Jzon::Object root, ps; Jzon::Parser pr(ps, b); if (!pr.Parse()) mc::fail("harness", "json"); root.Add("action", "configure"); root.Add("params", ps); Event e(root, std::chrono::system_clock::now(), 0); av_faulted.clear(); v->pushEvent(e); mc::vclock_ns += 1000000; v->processEvent(); av_faulted.clear(); check(); };
    auto ring = [&](int ch, int rate, SampleFmt f) { static ConnectionData cd = cdata(1, 1, 2, 1); return std::unique_ptr<AudioCircularBuffer>(AudioCircularBuffer::createNew(cd, ch, rate, 200, f == S16 ? S16P : f == FLT ? FLTP : f)); };
    if (!warm) for (int t = 0; t < tries; t++) {
        if (mc::param("bad", 0) && mc::choose(2)) { malformed(); continue; }
        configure(CFGS[mc::choose(ncfg)]);
        { auto q = ring(2, 48000, FLTP); unsigned s0 = dynamic_cast<AudioFrame*>(q->forceGetFront())->getSamples(); bool r = v->specificReaderConfig(1, q.get()); unsigned s = dynamic_cast<AudioFrame*>(q->forceGetFront())->getSamples();
          MC_CHECK(r == (bool)cfg && s == (cfg ? std::max(1u, spf * 48000 / cfg->rate) : s0), "reader", "a reader was %s, its chunks have %u samples", r ? "accepted" : "refused", s); }
        { static ConnectionData cd = cdata(2, 1, 3, 1); std::unique_ptr<FrameQueue> q(v->allocQueue(cd)); MC_CHECK((bool)q == (bool)cfg, "queue", "%s output queue", q ? "an" : "no");
          if (q) { AudioFrame *f = dynamic_cast<AudioFrame*>(q->getRear()); MC_CHECK(f && f->getDataBuf() && f->getCodec() == cfg->c && (int)f->getChannels() == cfg->ch && (int)f->getSampleRate() == cfg->rate, "queue", "the output queue has no frames for what was configured"); } }
    }
    if (cfg) {
        static ConnectionData cd = cdata(2, 1, 3, 1); std::unique_ptr<FrameQueue> q(v->allocQueue(cd)); AudioFrame *dst = dynamic_cast<AudioFrame*>(q->getRear());
        In in = INS[first]; unsigned chunk = 0, no = 0; int64_t pts = 5000000; std::vector<std::string> pend; int pn = 0; Conv conv; int64_t fed = 0, made = 0, gone = 0; double frac = 0; const Kind *k = kind(cfg->c);
        auto reader = [&]() { auto r = ring(in.ch, in.rate, in.f); if (!v->specificReaderConfig(1, r.get())) mc::fail("reader", "a reader of %d Hz was refused", in.rate); chunk = dynamic_cast<AudioFrame*>(r->forceGetFront())->getSamples(); 
            MC_CHECK(chunk == std::max(1u, spf * in.rate / cfg->rate), "reader", "chunks of %u samples at %d Hz, a frame has %u at %d Hz", chunk, in.rate, spf, cfg->rate); };
        reader();
        auto give = [&](char s) {
            no++; script = s; const AVSampleFormat af = avfmt(in.f); const bool pl = av_sample_fmt_is_planar(af), opl = av_sample_fmt_is_planar(k->f); const int bs = av_get_bytes_per_sample(af); 
            std::unique_ptr<AudioFrame> f; if (pl) f.reset(PlanarAudioFrame::createNew(in.ch, in.rate, chunk, PCM, in.f)); else f.reset(InterleavedAudioFrame::createNew(in.ch, in.rate, chunk, PCM, in.f));
            std::vector<std::string> d(pl ? in.ch : 1, std::string(chunk * bs * (pl ? 1 : in.ch), 0));
            for (unsigned i = 0; i < chunk; i++) for (int c = 0; c < in.ch; c++) { int x = (int)((no * 7919 + i * 131 + c * 4001 + (i * i) % 251 * 17) % 65536) - 32768; char *o = &d[pl ? c : 0][(pl ? i : i * in.ch + c) * bs]; if (bs == 1) *o = x / 256 + 128; else if (bs == 2) { int16_t y = x; memcpy(o, &y, 2); } else { float y = x / 32768.f; memcpy(o, &y, 4); } }
            for (size_t i = 0; i < d.size(); i++) memcpy(pl ? f->getPlanarDataBuf()[i] : f->getDataBuf(), d[i].data(), d[i].size());
            f->setSamples(chunk); f->setLength(d[0].size()); f->setPresentationTime(usec(pts)); f->setDecodeTime(usec(pts - 5)); f->setSequenceNumber(200 + no); f->setOriginTime(std::chrono::system_clock::time_point(usec(777000 + no)));
            dst->setConsumed(false); dst->setLength(3); dst->setSamples(1); dst->setPresentationTime(usec(-5)); dst->setDecodeTime(usec(-5)); dst->setSequenceNumber(7); memset(dst->getDataBuf(), 0xEE, dst->getMaxLength()); encoded.clear();
            mc::op("chunk %u of %u samples, %d channels, %d Hz, %s%s", no, chunk, in.ch, in.rate, utils::getSampleFormatAsString(in.f).c_str(), s == 'C' ? "" : s == 'N' ? "; the codec keeps it" : s == 'E' ? "; the codec fails" : "; long packet");
            bool got = v->doProcessFrame(f.get(), dst); 
            // reference
            if (!(conv.s && conv.ic == in.ch && conv.ir == in.rate && conv.iff == af)) { pend.clear(); pn = 0; fed = made = gone = 0; }
            if (!conv.fit(in.ch, in.rate, af, cfg->ch, cfg->rate, k->f)) mc::fail("harness", "reference conversion");
            const double t0 = (double)fed / in.rate; int r = conv.run(d, chunk, pend, spf - pn); if (r < 0) mc::fail("harness", "reference conversion"); pn += r; fed += chunk; made += r; bool full = pn == (int)spf;
            MC_CHECK(encoded.size() == (full ? 1 : 0), "frames", "%zu frames were given to the codec, %d of %u samples have come", encoded.size(), pn, spf);
            if (full) { for (size_t i = 0; i < pend.size(); i++) MC_CHECK(encoded[0].planes.size() == pend.size() && encoded[0].planes[i] == pend[i], "samples", "the samples encoded are not those that came (plane %zu, first at byte %ld of %zu)", i, encoded[0].planes.size() == pend.size() ? long(std::mismatch(pend[i].begin(), pend[i].end(), encoded[0].planes[i].begin()).first - pend[i].begin()) : -1l, pend[i].size()); }
            const bool want = full && s != 'E' && s != 'N' && !(s == 'L' && dst->getMaxLength() < 300);
            MC_CHECK(got == want && dst->getConsumed() == want, "delivery", "%s", got ? "delivered what was not encoded" : "what was encoded was not delivered");
            if (got) {
                MC_CHECK(dst->getLength() == enc_out.size() && !memcmp(dst->getDataBuf(), enc_out.data(), enc_out.size()), "content", "the frame delivered is not the packet (%u bytes, %zu)", dst->getLength(), enc_out.size());
                for (unsigned i = enc_out.size(); i < dst->getMaxLength(); i++) MC_CHECK(dst->getDataBuf()[i] == 0xEE, "content", "byte %u behind the packet was written", i);
                MC_CHECK(dst->getSamples() == spf, "content", "%u samples, %u were encoded", dst->getSamples(), spf);
                double start = pts + ((double)gone / cfg->rate - t0) * 1e6, off = dst->getPresentationTime().count() - start, tol = cfg->rate == in.rate ? 1 : 2e6 / std::min(cfg->rate, in.rate) + 2;
                MC_CHECK(fabs(off) <= tol, "times", "the frame is stamped %ld, its samples begin at %.1f", (long)dst->getPresentationTime().count(), start);
                MC_CHECK(dst->getDecodeTime() == usec(NO_DTS) && dst->getSequenceNumber() == 200 + no && dst->getOriginTime() == f->getOriginTime(), "stamps", "number %zu, decode time %ld", dst->getSequenceNumber(), (long)dst->getDecodeTime().count());
            }
            if (full) { pend.clear(); pn = 0; gone += spf; }
            frac += (double)chunk * 1e6 / in.rate; int64_t adv = (int64_t)frac; frac -= adv; pts += adv; check();
        };
        for (int d = 0; d < depth; d++) {
            char a = menu[mc::choose(menu.size())];
            switch (a) {
            case 'C': case 'N': case 'E': case 'L': give(a); break;
            case 'R': for (int i = 0; i < 12; i++) give('C'); break;
            case 'i': { in = INS[mc::choose(nin)]; reader(); give('C'); break; }
            case 'k': { in = INS[mc::choose(nin)]; give('C'); break; }                 // another input without a new reader
            case 'x': configure(CFGS[mc::choose(ncfg)]); break;
            case 'm': malformed(); break;
            case 't': mc::op("a gap of 1 s"); pts += 1000000; break;
            }
            mc::Hash h; h.add(cfg->c).add(cfg->rate).add(cfg->ch).add(in.f).add(in.ch).add(in.rate).add(pn).add(chunk); mc::state(h.h); mc::outcome(h.h);
        }
    } else if (!warm) { mc::Hash h; h.add(-1); mc::state(h.h); mc::outcome(h.h); }
    }
    v->~AudioEncoderLibav(); free(mem);
    MC_CHECK(av_bad.empty(), "codec-use", "at the end: %s", av_bad.c_str()); MC_CHECK(av_live == 0 && av_opened == 0, "leak", "%d codec contexts remain after the filter was destroyed", av_live);
    }
}
void mc_body() {
    static bool once; if (!once) { once = true; body(true); }
    static int runs; av_model_reset(); { Enc e; encoded.clear(); encoded.shrink_to_fit(); } const size_t b0 = __sanitizer_get_current_allocated_bytes(); body(false); av_model_reset(); encoded.clear(); encoded.shrink_to_fit(); const size_t b1 = __sanitizer_get_current_allocated_bytes();
    if (++runs > 3) MC_CHECK(b1 < b0 + 1500, "leak", "%zu bytes are left behind", b1 - b0);
}
