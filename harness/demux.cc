// The demuxer against a modelled source (libavformat of its time): every
// sequence of packets of every kind of stream, connections, changes of the
// source and failing calls.
#include "filters.hh"
#include "AVFramedQueue.hh"
#include "VideoFrame.hh"
#include "AudioFrame.hh"
#include <cmath>
#include <deque>
#include <set>
extern "C" {
#include <libavutil/log.h>
}
#include "modules/headDemuxer/HeadDemuxerLibav.hh"
extern "C" size_t __sanitizer_get_current_allocated_bytes();

typedef std::string Bytes;
static Bytes B(const char *s, int n) { return Bytes(s, n); }
// ---- streams
struct Kind { const char *name; int id; Bytes extra; int ch, rate; AVSampleFormat sf; char framing; };   // framing: 'a' Annex B, 'v' AVCC, '-' none
static std::vector<Kind> KINDS;
enum { KA, KV, KH0, KH5, KAAC, KPCM, KULAW, KPLANAR, KVP8, KRAW, KSUB, KNONE, KA1, KMP3 };
static void kinds() {
    if (!KINDS.empty()) return;
    Bytes ax = B("\0\0\0\1\x67\x42\x1e", 7), vx = B("\1\x42\0\x1e\xff\xe1\0\2\x67\x42\1\0\1\x68", 14);
    KINDS = {{"h264-annexb", AV_CODEC_ID_H264, ax, 0, 0, AV_SAMPLE_FMT_NONE, 'a'}, {"h264-avcc", AV_CODEC_ID_H264, vx, 0, 0, AV_SAMPLE_FMT_NONE, 'v'}, {"h264-noextra", AV_CODEC_ID_H264, "", 0, 0, AV_SAMPLE_FMT_NONE, '-'}, {"hevc", AV_CODEC_ID_HEVC, ax, 0, 0, AV_SAMPLE_FMT_NONE, '-'},
        {"aac", AV_CODEC_ID_AAC, B("\x12\x10", 2), 2, 44100, AV_SAMPLE_FMT_FLTP, '-'}, {"pcm_s16le", AV_CODEC_ID_PCM_S16LE, "", 2, 48000, AV_SAMPLE_FMT_S16, '-'}, {"pcm_mulaw", AV_CODEC_ID_PCM_MULAW, "", 2, 16000, AV_SAMPLE_FMT_S16, '-'}, {"pcm_s16le_planar", AV_CODEC_ID_PCM_S16LE_PLANAR, "", 2, 48000, AV_SAMPLE_FMT_S16P, '-'},
        {"vp8", AV_CODEC_ID_VP8, "", 0, 0, AV_SAMPLE_FMT_NONE, '-'}, {"rawvideo", AV_CODEC_ID_RAWVIDEO, "", 0, 0, AV_SAMPLE_FMT_NONE, '-'}, {"subrip", AV_CODEC_ID_SUBRIP, "", 0, 0, AV_SAMPLE_FMT_NONE, '-'}, {"none", AV_CODEC_ID_NONE, "", 0, 0, AV_SAMPLE_FMT_NONE, '-'}, {"h264-annexb3", AV_CODEC_ID_H264, B("\0\0\1\x67\x42", 5), 0, 0, AV_SAMPLE_FMT_NONE, 'a'}, {"mp3", AV_CODEC_ID_MP3, "", 1, 48000, AV_SAMPLE_FMT_S16P, '-'}};
}
struct Source { const char *uri; std::vector<int> streams; std::vector<AVRational> tb; int64_t start; };
static const std::vector<Source> &sources() {
    static const std::vector<Source> S = {
        {"one.mkv", {KA}, {{1, 90000}}, AV_NOPTS_VALUE}, {"two.mp4", {KV, KAAC}, {{1, 90000}, {1, 44100}}, 1416355200000000ll}, {"mixed.ts", {KAAC, KSUB, KA1, KNONE, KH0}, {{1, 1000}, {1, 1000}, {1, 25}, {1, 1000}, {1001, 30000}}, 0},
        {"sound.wav", {KPCM, KULAW, KPLANAR, KMP3}, {{1, 48000}, {1, 8000}, {1, 48000}, {1, 14112000}}, 5000000}, {"video.mkv", {KH5, KVP8, KRAW, KV}, {{1, 1000}, {1, 30}, {1, 25}, {1, 90000}}, AV_NOPTS_VALUE}, {"empty.bin", {}, {}, 0}};
    return S;
}
// ---- the modelled source
struct Ctx { AVFormatContext f; std::vector<AVStream> st; std::vector<AVStream*> ptr; int src; bool info; };
static std::set<Ctx*> live; static std::set<AVBitStreamFilterContext*> filters; static long packets; static std::string bad, faulted; static int calls, fault_at; static const uint8_t *last_data; static int last_key, last_stream;
static bool fails(const char *w) { if (++calls == fault_at) { faulted = w; mc::note("%s fails", w); return true; } return false; }
struct Pkt { int stream; Bytes data; int64_t pts, dts; bool key; };
static std::deque<Pkt> feed; static bool did_read; static Pkt read_pkt; static int read_err; static int netinit; static int filter_mode;
static std::function<void()> on_read;
extern "C" {
void av_register_all(void) {}
int avformat_network_init(void) { netinit++; return 0; }
int avformat_network_deinit(void) { netinit--; return 0; }
int avformat_open_input(AVFormatContext **ps, const char *url, const AVInputFormat *, AVDictionary **) {
    if (*ps) bad = "opened a source over another"; int k = -1; for (size_t i = 0; i < sources().size(); i++) if (!strcmp(sources()[i].uri, url)) k = i;
    if (k < 0) { *ps = NULL; return AVERROR(ENOENT); } if (fails("open")) { *ps = NULL; return AVERROR(EIO); }
    Ctx *c = new Ctx(); c->src = k; c->info = false; live.insert(c); c->f.start_time_realtime = sources()[k].start; const size_t n = sources()[k].streams.size(); c->st.resize(n);
    for (size_t i = 0; i < n; i++) {
        const Kind &kd = KINDS[sources()[k].streams[i]]; AVCodecContext *cc = (AVCodecContext*)calloc(1, sizeof(AVCodecContext)); cc->codec_id = (AVCodecID)kd.id; cc->sample_fmt = kd.sf; cc->channels = kd.ch; cc->sample_rate = kd.rate; cc->pix_fmt = AV_PIX_FMT_NONE;
        cc->extradata_size = kd.extra.size(); if (!kd.extra.empty()) { cc->extradata = (uint8_t*)malloc(kd.extra.size()); memcpy(cc->extradata, kd.extra.data(), kd.extra.size()); }
        c->st[i].index = i; c->st[i].codec = cc; c->st[i].time_base = sources()[k].tb[i]; c->ptr.push_back(&c->st[i]);
    }
    c->f.nb_streams = n; c->f.streams = c->ptr.data(); *ps = &c->f; return 0;
}
int avformat_find_stream_info(AVFormatContext *f, AVDictionary **) { Ctx *c = (Ctx*)f; if (!live.count(c)) { bad = "looked for streams in no source"; return -1; } if (fails("find_stream_info")) return AVERROR_INVALIDDATA; c->info = true; return 0; }
void avformat_close_input(AVFormatContext **f) {
    Ctx *c = (Ctx*)*f; if (!c) return; if (!live.erase(c)) { bad = "closed a source that is not open"; return; }
    for (auto &s : c->st) { free(s.codec->extradata); free(s.codec); } delete c; *f = NULL;
}
static void freepkt(void *, uint8_t *d) { free(d); packets--; }
int av_read_frame(AVFormatContext *f, AVPacket *p) {
    Ctx *c = (Ctx*)f; if (!live.count(c)) { bad = "read from no source"; return -1; } if (p->data || p->buf) bad = "read over a packet in use"; if (packets) bad = "reads on while it still holds a packet";
    if (on_read) on_read(); did_read = true; if (feed.empty()) { read_err = 1; return AVERROR_EOF; } Pkt k = feed.front(); feed.pop_front(); if (k.stream == -99) { read_err = 1; return AVERROR(EAGAIN); }
    read_err = 0; read_pkt = k; uint8_t *d = (uint8_t*)malloc(k.data.size() ? k.data.size() : 1); memcpy(d, k.data.data(), k.data.size()); p->buf = av_buffer_create(d, k.data.size(), freepkt, NULL, 0); packets++;
    p->data = d; p->size = k.data.size(); p->stream_index = k.stream; p->pts = k.pts; p->dts = k.dts; p->flags = k.key ? AV_PKT_FLAG_KEY : 0; last_data = d; last_key = k.key; last_stream = k.stream; return 0;
}
AVBitStreamFilterContext *av_bitstream_filter_init(const char *n) { if (strcmp(n, "h264_mp4toannexb")) { bad = "asked for another filter"; return NULL; } if (fails("filter_init")) return NULL; AVBitStreamFilterContext *b = new AVBitStreamFilterContext(); filters.insert(b); return b; }
void av_bitstream_filter_close(AVBitStreamFilterContext *b) { if (!filters.erase(b)) { bad = "closed a filter that is not open"; return; } delete b; }
int av_bitstream_filter_filter(AVBitStreamFilterContext *b, AVCodecContext *cc, const char *, uint8_t **out, int *on, const uint8_t *in, int n, int key) {
    if (!filters.count(b)) { bad = "used a filter that is not open"; return -1; } if (in != last_data || n != (int)read_pkt.data.size()) { bad = "filtered other data than the packet"; return -1; } if (!key != !last_key) bad = "told the filter a wrong key flag";
    Ctx *c = live.empty() ? NULL : *live.begin(); if (!c || last_stream < 0 || last_stream >= (int)c->st.size() || c->st[last_stream].codec != cc) bad = "gave the filter another stream's codec";
    *out = (uint8_t*)0x1234; *on = -1; if (fails("filter")) return AVERROR(EINVAL);
    if (filter_mode) { *out = (uint8_t*)in + (n > filter_mode - 1 ? filter_mode - 1 : 0); *on = n - (*out - in); return 0; }   // already in Annex B, maybe behind a prefix
    Bytes r; int i = 0; bool first = true; while (i < n) { if (i + 4 > n) return AVERROR(EINVAL); uint32_t l = in[i] << 24 | in[i + 1] << 16 | in[i + 2] << 8 | in[i + 3]; i += 4; if ((int)l > n - i) return AVERROR(EINVAL); r += first ? B("\0\0\0\1", 4) : B("\0\0\1", 3); first = false; r.append((char*)in + i, l); i += l; }
    uint8_t *o = (uint8_t*)av_malloc(r.size() + AV_INPUT_BUFFER_PADDING_SIZE); memset(o, 0, r.size() + AV_INPUT_BUFFER_PADDING_SIZE); memcpy(o, r.data(), r.size()); *out = o; *on = r.size(); return 1;
}
}
// ---- reference: the units of an Annex B byte stream, without start codes and trailing zeros; empty ones do not count
static std::vector<Bytes> units(const Bytes &s) {
    std::vector<size_t> at; for (size_t i = 0; i + 3 <= s.size(); i++) if (!s[i] && !s[i + 1] && s[i + 2] == 1) at.push_back(i);
    std::vector<Bytes> r; for (size_t k = 0; k < at.size(); k++) { size_t e = k + 1 < at.size() ? at[k + 1] : s.size(); Bytes u = s.substr(at[k] + 3, e - at[k] - 3); while (!u.empty() && !u.back()) u.pop_back(); if (!u.empty()) r.push_back(u); }
    return r;
}
static Bytes nal(int n, int seed) { Bytes r; r += (char)0x65; for (int i = 1; i < n; i++) r += (char)(0x40 + (seed * 29 + i * 7) % 0x70); return r; }

static void body(bool warm) {
    const int depth = warm ? 0 : mc::param("depth", 3), nf = mc::param("faults", 0), room = mc::param("room", 40), raw = mc::param("raw", 0), mid = mc::param("mid", 0); const std::string menu = mc::sparam("menu", "Pu"), srcs = mc::sparam("srcs", "012345");
    kinds(); av_log_set_level(AV_LOG_QUIET); bad.clear(); faulted.clear(); calls = fault_at = 0; packets = 0; feed.clear(); filter_mode = 0; netinit = 0; on_read = nullptr; mc::vclock_ns = 1000000000000ll;
    if (nf && !warm) fault_at = mc::choose(nf + 1);
    void *mem = malloc(sizeof(HeadDemuxerLibav)); memset(mem, 0xA5, sizeof(HeadDemuxerLibav)); HeadDemuxerLibav *v = new (mem) HeadDemuxerLibav(); v->setId(1);
    {
    int src = -1; std::vector<bool> flt; std::string uri; std::map<int, std::unique_ptr<Frame>> fr; std::set<int> conn; std::vector<std::pair<std::unique_ptr<FrameQueue>, Bytes>> qs;
    int64_t lastp[8] = {0}, lastd[8] = {0}; unsigned no = 0; unsigned nreads = 0; bool undefd[8] = {false};
    // the packet in work
    std::deque<Bytes> pend; int pstream = -1; bool whole = false; int idle = 0; Bytes wholed; bool must = false;
    auto kd = [&](int i) -> const Kind & { return KINDS[sources()[src].streams[i]]; };
    auto fits = [&](const Bytes &u, bool w) { Frame *f = fr[pstream].get(); return f->getDataBuf() && u.size() + (w ? 0 : 4) <= f->getMaxLength() && !(w && u.empty()); };
    auto undeliverable = [&]() { while (!pend.empty() && !fits(pend.front(), whole)) pend.pop_front(); };
    auto open = [&](int k, int how) {
        const char *U = k < 0 ? "missing.mp4" : sources()[k].uri; std::string f0 = faulted; int c0 = calls; mc::op("source %s", U); (void)c0; bool ok; pend.clear(); pstream = -1; last_data = NULL;
        if (how) { Jzon::Object root, ps; ps.Add("uri", std::string(U)); root.Add("action", "configure"); root.Add("params", ps); Event e(root, std::chrono::system_clock::now(), 0); v->pushEvent(e); ok = faulted == f0 || faulted == "filter_init"; if (k < 0) ok = false; feed.clear(); mc::vclock_ns += 1000000; int r; v->processEvent(); (void)r; }
        else ok = v->setURI(U);
        uri = U; bool f = faulted != f0; bool want = k >= 0 && !(f && faulted != "filter_init"); if (!how) MC_CHECK(ok == want, "open", "opening %s: answered %d", U, ok);
        src = want ? k : -1; memset(lastp, 0, sizeof lastp); memset(lastd, 0, sizeof lastd); memset(undefd, 0, sizeof undefd); feed.clear(); conn.clear(); fr.clear(); flt.clear();
        MC_CHECK((int)live.size() == (want ? 1 : 0), "leak", "%zu sources are open after opening %s", live.size(), U); MC_CHECK(packets == 0, "leak", "a packet of the old source is kept");
        size_t nv = 0; if (src >= 0) for (size_t i = 0; i < sources()[src].streams.size(); i++) { bool lost = kd(i).framing == 'v' && f && faulted == "filter_init" && flt.size() == i; if (kd(i).framing == 'v') { lost = f && faulted == "filter_init" && nv == 0 && filters.size() < 1; if (!lost) nv++; } flt.push_back(!lost); conn.insert(i);
            AudioFrame *a = NULL; if (KINDS[sources()[src].streams[i]].sf == AV_SAMPLE_FMT_S16P && kd(i).id == AV_CODEC_ID_PCM_S16LE_PLANAR) a = PlanarAudioFrame::createNew(2, 48000, 20, PCM, S16P);
            if (a) fr[i].reset(a); else fr[i].reset(InterleavedVideoFrame::createNew(H264, room)); }
        MC_CHECK(filters.size() == nv, "leak", "%zu bitstream filters are open, %zu streams need one", filters.size(), nv);
    };
    auto state = [&]() {
        Jzon::Object o; v->getState(o); MC_CHECK(o.Get("uri").ToString() == uri, "state", "state reports source %s, it is %s", o.Get("uri").ToString().c_str(), uri.c_str());
        const Jzon::Array &a = o.Get("streams").AsArray(); size_t n = src < 0 ? 0 : sources()[src].streams.size(); MC_CHECK(a.GetCount() == n, "state", "state lists %zu streams of %zu", a.GetCount(), n);
        for (size_t i = 0; i < n; i++) { const Kind &k = kd(i); const Jzon::Object &s = a.Get(i).AsObject(); bool au = k.rate > 0; int ty = au ? AUDIO : k.id == AV_CODEC_ID_SUBRIP || k.id == AV_CODEC_ID_NONE ? ST_NONE : VIDEO; MC_CHECK(s.Get("wId").ToInt() == (int)i && s.Get("type").ToInt() == ty, "state", "stream %zu (%s): state reports writer %d, type %d", i, k.name, s.Get("wId").ToInt(), s.Get("type").ToInt());
            if (au) { static const std::map<int, ACodecType> C = {{AV_CODEC_ID_AAC, AAC}, {AV_CODEC_ID_PCM_S16LE, PCM}, {AV_CODEC_ID_PCM_MULAW, G711}, {AV_CODEC_ID_PCM_S16LE_PLANAR, PCM}, {AV_CODEC_ID_MP3, MP3}}; ACodecType c = C.at(k.id); int sr = c == G711 ? 8000 : k.rate, ch = c == G711 ? 1 : k.ch; SampleFmt sf = c == G711 ? U8 : k.id == AV_CODEC_ID_PCM_S16LE_PLANAR ? S16P : S16;
                MC_CHECK(s.Get("codec").ToInt() == c && s.Get("sampleRate").ToInt() == sr && s.Get("channels").ToInt() == ch && s.Get("sampleFormat").ToInt() == sf, "state", "stream %zu (%s): state reports codec %d, %d Hz, %d channels, format %d", i, k.name, s.Get("codec").ToInt(), s.Get("sampleRate").ToInt(), s.Get("channels").ToInt(), s.Get("sampleFormat").ToInt()); }
            else if (ty == VIDEO) { static const std::map<int, VCodecType> C = {{AV_CODEC_ID_H264, H264}, {AV_CODEC_ID_HEVC, H265}, {AV_CODEC_ID_VP8, VP8}, {AV_CODEC_ID_RAWVIDEO, RAW}}; MC_CHECK(s.Get("codec").ToInt() == C.at(k.id), "state", "stream %zu (%s): state reports codec %d", i, k.name, s.Get("codec").ToInt()); } }
    };
    on_read = [&]() { if (pstream >= 0 && conn.count(pstream)) undeliverable(); else pend.clear(); if (!pend.empty()) mc::fail("lost", "the demuxer reads on although %zu units of the last packet were not passed on", pend.size()); };
    auto call = [&]() {
        std::map<int, Frame*> dst; for (int i : conn) { Frame *f = fr[i].get(); f->setConsumed(false); f->setLength(3); f->setPresentationTime(usec(-5)); f->setDecodeTime(usec(-5)); if (f->getDataBuf()) memset(f->getDataBuf(), 0xEE, f->getMaxLength()); dst[i] = f; }
        int ret = 0; did_read = false; read_err = 0; std::string f0 = faulted; bool held = packets > 0; int ps0 = pstream; bool got = v->doProcessFrame(dst, ret); bool flterr = faulted != f0;
        MC_CHECK(bad.empty(), "source-use", "%s", bad.c_str());
        if (src < 0) { MC_CHECK(!got && !did_read, "delivery", "something was delivered without a source"); return; }
        if (!did_read && !conn.count(pstream)) pend.clear();
        if (!did_read && !held) mc::fail("stuck", "nothing in work, and no packet was read");
        if (did_read && read_err) { MC_CHECK(!got && packets == 0, "delivery", "something was delivered at the end of the source"); pend.clear(); pstream = -1; }
        else if (did_read) {
            idle = 0; nreads++; pstream = read_pkt.stream; pend.clear(); int n = sources()[src].streams.size();
            if (pstream < 0 || pstream >= n) { MC_CHECK(!got && packets == 0, "delivery", "a packet of an unknown stream was delivered or kept"); pstream = -1; }
            else {
                if (read_pkt.pts != AV_NOPTS_VALUE) { lastp[pstream] = read_pkt.pts; lastd[pstream] = read_pkt.dts; undefd[pstream] = read_pkt.dts == AV_NOPTS_VALUE; }
                const Kind &k = kd(pstream); Bytes d = read_pkt.data; whole = k.framing == '-' || (k.framing == 'v' && !flt[pstream]);
                if (whole) { if (!d.empty()) pend.push_back(d); }
                else {
                    bool err = flterr; if (k.framing == 'v' && filter_mode) d = d.substr(std::min<size_t>(filter_mode - 1, d.size() > (size_t)filter_mode - 1 ? filter_mode - 1 : 0));
                    else if (k.framing == 'v' && !err) { Bytes r; size_t i = 0; while (i < d.size()) { if (i + 4 > d.size()) { err = true; break; } size_t l = 0; for (int j = 0; j < 4; j++) l = l << 8 | (uint8_t)d[i + j]; i += 4; if (l > d.size() - i) { err = true; break; } r += B("\0\0\1", 3) + d.substr(i, l); i += l; } d = r; }
                    if (err) { MC_CHECK(!got && packets == 0, "delivery", "a packet that could not be converted was delivered or kept"); }
                    else for (auto &u : units(d)) pend.push_back(u);
                }
                if (!conn.count(pstream)) { MC_CHECK(!got && packets == 0, "delivery", "a packet of an unconnected stream was delivered or kept"); pend.clear(); }
            }
        }
        int hit = -1; for (auto &d : dst) if (d.second->getConsumed()) { MC_CHECK(hit < 0, "delivery", "more than one frame was filled"); hit = d.first; }
        MC_CHECK(got == (hit >= 0), "delivery", "result %d, frame %s as filled", got, hit >= 0 ? "marked" : "not marked");
        if (got) {
            MC_CHECK(hit == pstream, "delivery", "a packet of stream %d went to writer %d", pstream, hit); Frame *f = fr[hit].get(); MC_CHECK(f->getDataBuf() && f->getLength() <= f->getMaxLength(), "length", "length %u of a frame of %u", f->getLength(), f->getMaxLength()); Bytes o((char*)f->getDataBuf(), f->getLength());
            for (unsigned i = o.size(); i < f->getMaxLength(); i++) MC_CHECK(f->getDataBuf()[i] == 0xEE, "length", "bytes beyond the frame's length were written");
            Bytes want; bool skip = false;
            if (whole) { want = pend.empty() ? "" : pend.front(); MC_CHECK(!pend.empty() && o == want, "data", "stream %d (%s): %zu bytes delivered, the packet has %zu%s", hit, kd(hit).name, o.size(), want.size(), o.size() == want.size() ? ", of other content" : ""); pend.pop_front(); }
            else {
                MC_CHECK(o.size() >= 4 && !o[0] && !o[1] && !o[2] && o[3] == 1, "data", "stream %d (%s): the unit has no long start code", hit, kd(hit).name); std::vector<Bytes> u = units(o); MC_CHECK(u.size() <= 1, "data", "%zu units in one frame", u.size());
                if (u.empty()) skip = true; else { MC_CHECK(o.compare(4, u[0].size(), u[0]) == 0, "data", "stream %d (%s): the unit does not follow its start code", hit, kd(hit).name); while (!pend.empty() && pend.front() != u[0] && !fits(pend.front(), false)) pend.pop_front(); MC_CHECK(!pend.empty() && pend.front() == u[0], "data", "stream %d (%s): a unit of %zu bytes was delivered, the next one has %zu", hit, kd(hit).name, u[0].size(), pend.empty() ? 0 : pend.front().size()); pend.pop_front(); }
            }
            if (!skip) {
                const AVRational tb = sources()[src].tb[hit]; const int64_t st = sources()[src].start == AV_NOPTS_VALUE ? 0 : sources()[src].start; long double e = (long double)lastp[hit] * tb.num / tb.den * 1e6L + st; bool none = KINDS[sources()[src].streams[hit]].id == AV_CODEC_ID_NONE;
                if (!none) MC_CHECK(std::fabs((double)((long double)f->getPresentationTime().count() - e)) < 1.5, "stamps", "stream %d: presentation time %ld, the packet's is %.1Lf", hit, (long)f->getPresentationTime().count(), e);
                if (!none) { if (undefd[hit]) MC_CHECK(f->getDecodeTime() == usec(NO_DTS), "stamps", "stream %d: decode time %ld of a packet that has none", hit, (long)f->getDecodeTime().count()); else { long double g = (long double)lastd[hit] * tb.num / tb.den * 1e6L + st; MC_CHECK(std::fabs((double)((long double)f->getDecodeTime().count() - g)) < 1.5, "stamps", "stream %d: decode time %ld, the packet's is %.1Lf", hit, (long)f->getDecodeTime().count(), g); } }
            }
        } else if (!did_read && !pend.empty() && ps0 == pstream && fits(pend.front(), whole)) idle++;
        if (++idle > 60) mc::fail("stuck", "the demuxer neither delivers nor reads");
    };
    auto drain = [&]() { for (int i = 0; i < 200; i++) { call(); if (packets == 0 && feed.empty()) return; } mc::fail("stuck", "a packet is never finished"); };
    auto payload = [&](int st, int form) -> Bytes {
        const Kind &k = kd(st); no++; char fr_ = k.framing;
        if (fr_ == '-') { static const int N[] = {1, 17, 0, 400}; static const int M[] = {12, 1, 0, 40, 41}; (void)N; int n = form < 5 ? M[form] : 12; if (n >= 40) n += room - 40; return nal(n, no); }
        auto code = [&](int l) { return l == 4 ? B("\0\0\0\1", 4) : B("\0\0\1", 3); };
        auto a = [&](std::initializer_list<std::pair<int, int>> us, Bytes pre = "", Bytes post = "") { Bytes r = pre; int i = 0; for (auto &u : us) { if (fr_ == 'v' && !filter_mode) { r += B("\0\0\0", 3); r += (char)u.second; } else r += code(u.first); r += nal(u.second, no * 5 + i++); } return r + post; };
        const int big = room - 4;
        switch (form) {
        case 0: return a({{4, 9}}); case 1: return a({{4, 5}, {3, 6}}); case 2: return a({{3, 2}, {4, 1}, {3, 1}}); case 3: return a({{4, big}}); case 4: return a({{4, 3}, {3, big + 1}, {4, 4}}); case 5: return a({{3, big}});
        case 6: return fr_ == 'v' && !filter_mode ? a({{4, 3}}, "", B("\0\0\0\x7f" "abc", 7)) : nal(12, no); case 7: return fr_ == 'v' && !filter_mode ? a({{4, 0}, {4, 2}}) : a({{4, 2}}, B("\x11\x22\x33", 3)); case 8: return ""; case 9: return fr_ == 'v' && !filter_mode ? B("\0\0", 2) : B("\0\0\1", 3);
        case 10: return a({{4, 3}, {4, 1}}); default: return fr_ == 'v' && !filter_mode ? a({{4, 1}, {4, 1}, {4, 1}, {4, 30}}) : a({{4, 4}, {3, 30}}, B("\0", 1), B("\0\0", 2));
        }
    };
    static const int64_t PTS[] = {90000, 3003, 0, -450, AV_NOPTS_VALUE, 7777777777ll};
    auto feedp = [&](int st, Bytes d, int tm) { int64_t p = PTS[tm] == AV_NOPTS_VALUE ? PTS[tm] : PTS[tm] + (int64_t)no * 3000; int64_t t = PTS[tm] == AV_NOPTS_VALUE ? AV_NOPTS_VALUE : tm == 2 ? AV_NOPTS_VALUE : p - 1500; if (tm == 4) t = 5; Pkt k = {st, d, p, t, no % 2 == 0}; feed.push_back(k); mc::op("packet of stream %d, %zu bytes, pts %ld, dts %ld", st, d.size(), (long)p, (long)t); };
    if (!warm) { open(srcs[mc::choose(srcs.size())] - '0', 0); state(); }
    for (int d = 0; d < depth; d++) {
        char a = menu[mc::choose(menu.size())]; const int n = src < 0 ? 0 : sources()[src].streams.size();
        auto stream = [&]() { if (n == 0) mc::prune(); return mc::choose(n); };
        switch (a) {
        case 'P': { int s = stream(); Bytes p = payload(s, mc::choose(kd(s).framing == '-' ? 5 : 12)); feedp(s, p, no % 3); if (mid) call(); else drain(); break; }       // a packet of any content
        case 'Q': { int s = stream(); Bytes p = payload(s, 1); feedp(s, p, 0); if (mid) call(); else drain(); break; }
        case 'T': { int s = stream(); Bytes p = payload(s, 0); feedp(s, p, mc::choose(6)); drain(); break; }                                          // of any time
        case 'R': { int s = stream(); if (kd(s).framing != 'a') mc::prune(); Bytes p; for (int i = 0; i < raw; i++) p += (char)mc::choose(3); for (auto &c : p) if (c == 2) c = 0x65; feedp(s, p, 0); drain(); break; }
        case 'U': { static const int X[] = {-1, 77}; no++; feedp(n ? mc::choose(2) ? n : X[mc::choose(2)] : 0, "unknown", 0); if (src >= 0) call(); else { call(); feed.clear(); } break; }
        case 'E': { Pkt k = {-99, "", 0, 0, false}; feed.push_back(k); mc::op("an error of the source"); call(); feed.clear(); break; }
        case '0': mc::op("call"); call(); break;
        case 'u': open(mc::choose((int)sources().size() + 1) - 1, 0); break;
        case 'e': open(mc::choose((int)sources().size() + 1) - 1, 1); break;
        case 'd': { int s = stream(); if (conn.count(s)) { mc::op("disconnect writer %d", s); conn.erase(s); } else { mc::op("connect writer %d", s); conn.insert(s); } break; }
        case 'f': filter_mode = mc::choose(4); mc::op("filter mode %d", filter_mode); break;
        case 'x': { static const char *BAD[] = {"{}", "{\"uri\":5}", "{\"uri\":[\"one.mkv\"]}", "{\"url\":\"one.mkv\"}", NULL}; const char *b = BAD[mc::choose(5)]; mc::op("configure event %s", b ? b : "without parameters"); Jzon::Object root, ps; root.Add("action", "configure"); if (b) { Jzon::Parser pr(ps, b); if (!pr.Parse()) mc::fail("harness", "json"); root.Add("params", ps); } Event e(root, std::chrono::system_clock::now(), 0); v->pushEvent(e); mc::vclock_ns += 1000000; v->processEvent(); break; }
        case 'q': { int s = n ? mc::choose(n + 1) : 0; mc::op("allocate the queue of writer %d", s); static ConnectionData cd; cd = cdata(1, s, 2, 1); std::unique_ptr<FrameQueue> q(v->allocQueue(cd)); bool has = s < n && kd(s).id != AV_CODEC_ID_SUBRIP && kd(s).id != AV_CODEC_ID_NONE && kd(s).id != AV_CODEC_ID_RAWVIDEO;
            MC_CHECK(has == (bool)q, "queue", "%s queue for %s", q ? "allocated a" : "no", s < n ? kd(s).name : "a writer that does not exist"); if (q) { const StreamInfo *si = q->getStreamInfo(); MC_CHECK((si->type == AUDIO) == (kd(s).rate > 0), "queue", "the queue of %s is of type %d", kd(s).name, si->type); MC_CHECK((size_t)si->extradata_size == kd(s).extra.size() && Bytes((char*)si->extradata, si->extradata_size) == kd(s).extra, "queue", "the queue of %s has other extra data", kd(s).name);
                bool vid = si->type == VIDEO; MC_CHECK(vid ? (dynamic_cast<VideoFrameQueue*>(q.get()) != NULL) : (dynamic_cast<AudioFrameQueue*>(q.get()) != NULL), "queue", "queue of another kind"); if (vid && (kd(s).id == AV_CODEC_ID_H264 || kd(s).id == AV_CODEC_ID_HEVC)) MC_CHECK(si->video.h264or5.annexb && (si->video.h264or5.framed || kd(s).framing == '-'), "queue", "the queue of %s is not described as framed Annex B", kd(s).name);
                qs.push_back(std::make_pair(std::move(q), kd(s).extra)); } break; }
        }
        state(); MC_CHECK(bad.empty(), "source-use", "%s", bad.c_str());
        for (auto &q : qs) { const StreamInfo *si = q.first->getStreamInfo(); MC_CHECK(Bytes((char*)si->extradata, si->extradata_size) == q.second, "queue", "the stream description of a queue in use changed"); }
        mc::Hash h; h.add(src).add(packets).add((int)pend.size()).add((int)conn.size()).add(filter_mode).add(pstream).add((int)faulted.size()); mc::state(h.h); mc::outcome(h.h);
    }
    on_read = nullptr;
    v->~HeadDemuxerLibav(); free(mem);
    }
    MC_CHECK(bad.empty(), "source-use", "at the end: %s", bad.c_str()); MC_CHECK(live.empty() && filters.empty() && packets == 0, "leak", "%zu sources, %zu bitstream filters and %ld packets remain after the filter was destroyed", live.size(), filters.size(), packets); MC_CHECK(netinit == 0, "leak", "network initialised %d times more than shut down", netinit);
}
void mc_body() {
    static bool once; if (!once) { once = true; body(true); }
    static int runs; live.clear(); filters.clear(); const size_t b0 = __sanitizer_get_current_allocated_bytes(); body(false); const size_t b1 = __sanitizer_get_current_allocated_bytes();
    if (++runs > 3) MC_CHECK(b1 < b0 + 1500, "leak", "%zu bytes are left behind", b1 - b0);
}
