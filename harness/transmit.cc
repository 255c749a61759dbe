// The transmitter against a modelled live555: every sequence of frames, RTP
// and RTSP connections added, refused and removed, clients that come and go
// and readers that are disconnected and connected again.
#include "filters.hh"
#include "live555.hh"
#include "modules/transmitter/SinkManager.hh"
#include "modules/transmitter/H264or5StartCodeInjector.hh"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
l5::World *l5::w; int64_t l5::now() { return mc::vclock_ns / 1000; } void l5::advance(int64_t us) { mc::vclock_ns += us * 1000; }
typedef std::string Bytes;
static Bytes B(const char *s, int n) { return Bytes(s, n); }

struct Kind { char c; bool video; int codec; const char *extra; int elen; SampleFmt sf; unsigned rate, ch; };
static Bytes long_sets() { Bytes d = B("\0\0\1\x67", 4); for (int i = 0; i < 299; i++) d += (char)(i % 250 + 1); return d + B("\0\0\0\1\x06\x05\0\0\1\x68\xce", 11); }
static const Bytes LONG = long_sets();
static const Kind KINDS[] = {
    {'H', true, H264, "\0\0\0\1\x67\x42\x1e\0\0\1\x68\xce", 12, S_NONE, 0, 0}, {'U', true, H264, LONG.data(), (int)LONG.size(), S_NONE, 0, 0}, {'N', true, H264, NULL, 0, S_NONE, 0, 0}, {'5', true, H265, "\0\0\1\x40\1\x0c\0\0\0\1\x42\1\1\0\0\1\x44\1", 18, S_NONE, 0, 0}, {'V', true, VP8, NULL, 0, S_NONE, 0, 0},
    {'A', false, AAC, NULL, 0, S16, 44100, 2}, {'M', false, MP3, NULL, 0, S16, 44100, 2}, {'P', false, PCM, NULL, 0, S16, 48000, 2}, {'L', false, PCM, NULL, 0, S16, 44100, 1}, {'O', false, OPUS, NULL, 0, S16, 48000, 2}, {'G', false, G711, NULL, 0, U8, 8000, 1}, {'R', true, RAW, NULL, 0, S_NONE, 0, 0}};
// sequence parameter sets that the UltraGrid stream takes its format from
struct Sps { Bytes nal; unsigned w, h; double fps; };
static Sps make_sps(int k) {
    std::vector<bool> b; auto u = [&](unsigned long v, int n) { while (n--) b.push_back(v >> n & 1); }; auto ue = [&](unsigned v) { unsigned x = v + 1; int n = 0; while (x >> (n + 1)) n++; u(0, n); u(x, n + 1); };
    const bool inter = k == 2; u(k == 1 ? 100 : k == 2 ? 77 : 66, 8); u(0, 8); u(30, 8); ue(0); if (k == 1) { ue(1); ue(0); ue(0); u(0, 2); }
    ue(0); ue(2); ue(1); u(0, 1); ue(k ? 119 : 3); ue(k == 1 ? 67 : k == 2 ? 33 : 2); u(!inter, 1); if (inter) u(0, 1); u(1, 1); u(k != 0, 1); if (k) { ue(0); ue(0); ue(0); ue(inter ? 2 : 4); }
    u(k != 0, 1); if (k) { u(0, 4); u(1, 1); u(inter ? 1 : 1001, 32); u(inter ? 50 : 60000, 32); u(1, 1); u(0, 4); }
    u(1, 1); while (b.size() % 8) b.push_back(0); Bytes d("\x67"); int z = 0; for (size_t i = 0; i < b.size(); i += 8) { int v = 0; for (int j = 0; j < 8; j++) v = v * 2 + b[i + j]; if (z == 2 && v < 4) { d += '\3'; z = 0; } d += (char)v; z = v ? 0 : z + 1; }
    Sps x = {d, k ? 1920u : 64u, k ? 1080u : 48u, k == 0 ? 0 : inter ? 25 : 60000. / 2002}; return x;
}
static const Sps SPS[3] = {make_sps(0), make_sps(1), make_sps(2)};
static const Kind *kind(char c) { for (auto &k : KINDS) if (k.c == c) return &k; return NULL; }
static bool h26x(const Kind *k) { return k->video && (k->codec == H264 || k->codec == H265); }
static bool tsok(const Kind *k) { return k->video ? k->codec == H264 || k->codec == H265 : k->codec == AAC || k->codec == MP3; }

struct Out : public Src {       // feeds one reader
    StreamInfo *si;
    Out(const Kind *k) : Src(1) { si = new StreamInfo(k->video ? VIDEO : AUDIO); if (k->video) { si->video.codec = (VCodecType)k->codec; if (k->codec == RAW) si->video.pixelFormat = RGB24; } else { si->audio.codec = (ACodecType)k->codec; si->audio.sampleRate = k->rate; si->audio.channels = k->ch; si->audio.sampleFormat = k->sf; } si->setCodecDefaults(); if (!k->video) { si->audio.sampleRate = k->rate; si->audio.channels = k->ch; si->audio.sampleFormat = k->sf; } if (k->extra) si->setExtraData((uint8_t*)k->extra, k->elen); }
    ~Out() { delete si; }
    FrameQueue *allocQueue(ConnectionData c) { if (si->type == VIDEO) return new Small<VideoFrameQueue>(c, si); return new Small<AudioFrameQueue>(c, si); }
    template <class Q> struct Small : public Q { Small(ConnectionData c, const StreamInfo *si) : Q(c, si, 1) { this->frames[0] = InterleavedVideoFrame::createNew(H264, 16); } };
};

struct Sent { Bytes data; int64_t pts; };
struct Feed {                       // what one input of one destination has to receive
    int reader; bool ts; size_t next; int maybe /* frames that it may miss */; const std::vector<l5::Unit> *units; size_t seen; int lag, grace;
};
struct Conn { bool loose; size_t from; char type; std::vector<int> readers; std::string ip, name; int port; std::vector<Feed> feeds; };
struct Client { int conn; std::vector<Feed> feeds; bool playing; };

static int op_no;
static void fail_hook(const char *key, const char *fmt, ...) { char b[300]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); mc::fail(key, "%s", b); }

static void body(bool warm) {
    const std::string menu = warm ? "frspmlxdi" : mc::sparam("menu", "fsxi"), rk = mc::sparam("readers", "HA"); const int depth = warm ? 0 : mc::param("depth", 5), sizes = mc::param("sizes", 2), maxconn = mc::param("conns", 3); const unsigned tsl = mc::param("low", 1);
    std::string pre = mc::sparam("pre", ""); if (warm) pre = "";
    static l5::World world; l5::reset(&world); world.fail = fail_hook; world.ts_low = tsl; mc::vclock_ns = 1416355200000000000ll; l5::now(); 
    {
    const int n = rk.size(); std::vector<std::unique_ptr<Out>> src; std::vector<char> on(n, 0); std::vector<std::vector<Sent>> sent(n); std::vector<const Kind*> kd;
    SinkManager *sm = SinkManager::createNew(16); MC_CHECK(sm, "create", "the transmitter cannot be created");
    sm->setId(900);
    for (int i = 0; i < n; i++) { kd.push_back(kind(rk[i])); src.emplace_back(new Out(kd[i])); src[i]->setId(10 + i); }
    std::map<int, Conn> conns; std::map<unsigned, Client> clients; unsigned nextclient = 1; long no = 0; int nextport = 5004;
    auto good = [&](int i) { return on[i] && !(kd[i]->video && kd[i]->codec == RAW); };
    auto cn = [&](int i) { mc::op("connect reader %d (%c)", i, rk[i]); bool r = src[i]->connectOneToMany(sm, i); bool want = !(kd[i]->video && kd[i]->codec == RAW);
        MC_CHECK(r == want, "reader", "reader %d for %c was %s", i, rk[i], r ? "accepted" : "refused"); on[i] = r; };
    auto units_of = [&](MediaSink *k, FramedSource *s, int r, bool ts) -> const std::vector<l5::Unit>* {
        if (!ts) return &static_cast<RTPSink*>(k)->units;
        auto *t = dynamic_cast<MPEG2TransportStreamFromESSource*>(s); if (!t) mc::fail("container", "a transport stream connection without one");
        for (auto *in : t->ins) if (in->video == kd[r]->video) { int v = in->video ? kd[r]->codec == H264 ? 5 : 6 : kd[r]->codec == AAC ? 4 : 1; MC_CHECK(in->version == v, "container", "the transport stream announces version %d for %c", in->version, rk[r]); return &in->units; }
        mc::fail("container", "the transport stream lacks the input of reader %d", r);
    };
    auto check_feed = [&](Feed &f, const char *who, int stepid) {
        const auto &all = sent[f.reader]; const Kind *k = kd[f.reader];
        for (; f.seen < f.units->size(); f.seen++) {
            const l5::Unit &u = (*f.units)[f.seen]; Bytes got((const char*)u.data.data(), u.data.size());
            auto want = [&](size_t i) { Bytes d = all[i].data; if (h26x(k)) { if (d.compare(0, 4, B("\0\0\0\1", 4)) == 0) d = d.substr(4); else if (d.compare(0, 3, B("\0\0\1", 3)) == 0) d = d.substr(3); if (f.ts) d = B("\0\0\0\1", 4) + d; } return d; };
            while (f.maybe && f.next + 1 < all.size() && (got != want(f.next) || u.pts != all[f.next].pts)) { f.next++; f.maybe--; }
            if (f.next >= all.size()) { bool dup = !all.empty() && got == want(all.size() - 1); mc::fail(dup ? "repeated" : "surplus", "%s: a frame of reader %d is sent %s", who, f.reader, dup ? "again" : "that was never taken"); }
            Bytes w = want(f.next); if (got != w) { const char *key = "content"; const char *txt = "a changed frame"; for (size_t i = 0; i < all.size(); i++) if (got == want(i)) { key = i < f.next ? "repeated" : "lost"; txt = i < f.next ? "a frame again" : "a frame too early, one is missing"; } mc::fail(key, "%s: reader %d got %s (%zu bytes instead of %zu)", who, f.reader, txt, got.size(), w.size()); }
            MC_CHECK(u.pts == all[f.next].pts, "stamps", "%s: a frame of reader %d is sent for %ld instead of %ld", who, f.reader, (long)u.pts, (long)all[f.next].pts); MC_CHECK(!u.cut, "cut", "%s: a frame of reader %d was cut", who, f.reader);
            f.next++; f.grace--;
        }
        f.lag = all.size() - f.next; if (!f.lag && f.grace <= 0) f.maybe = 0;
        MC_CHECK(f.lag <= 1 + f.maybe, "behind", "%s is %d frames of reader %d behind", who, f.lag, f.reader);
    };
    auto clientfeeds = [&](unsigned id) {
        Client &c = clients[id]; auto *ss = world.server->clients[id]; c.playing = true; int i = 0; Conn &co = conns[c.conn];
        bool ts = co.type == 'R'; if (ts) MC_CHECK(ss->subs.size() == 1, "session", "%zu subsessions of a transport stream", ss->subs.size()); else MC_CHECK(ss->subs.size() == co.readers.size(), "session", "a session of %zu readers has %zu subsessions", co.readers.size(), ss->subs.size());
        for (int r : co.readers) { auto *sub = static_cast<OnDemandServerMediaSubsession*>(ss->subs[ts ? 0 : i++]); auto &cl = sub->clients[id]; MC_CHECK(cl.sink && cl.src, "session", "a client of session %s gets nothing for reader %d", co.name.c_str(), r);
            if (!ts && h26x(kd[r])) { std::map<char, Bytes> ps; Bytes e = kd[r]->extra ? Bytes(kd[r]->extra, kd[r]->elen) : Bytes(); for (size_t i = 0; i + 2 < e.size(); i++) if (e.compare(i, 3, B("\0\0\1", 3)) == 0) { size_t q = e.find(B("\0\0\1", 3), i + 3); Bytes u = e.substr(i + 3, q == Bytes::npos ? q : (e[q - 1] ? q : q - 1) - i - 3); ps[kd[r]->codec == H264 ? u[0] & 31 : u[0] >> 1 & 63] = u; }
                auto same = [&](const std::vector<unsigned char> &v, int t) { MC_CHECK(Bytes(v.begin(), v.end()) == ps[t], "parameters", "a client is told parameter sets (%zu bytes) other than those of the stream (%zu bytes)", v.size(), ps[t].size()); };
                if (kd[r]->codec == H264) { auto *k = static_cast<H264VideoRTPSink*>(cl.sink); same(k->sps, 7); same(k->pps, 8); } else { auto *k = static_cast<H265VideoRTPSink*>(cl.sink); same(k->vps, 32); same(k->sps, 33); same(k->pps, 34); } }
            Feed f = {r, ts, sent[r].size() - std::min<size_t>(2, sent[r].size()), (int)std::min<size_t>(2, sent[r].size()), units_of(cl.sink, cl.src, r, ts), 0, 0, 0}; c.feeds.push_back(f); }
    };
    auto joined = [&]() { for (auto &c : clients) if (!c.second.playing && world.server->clients.count(c.first)) clientfeeds(c.first); };
    auto ended = [&](unsigned id) { return !world.server->clients.count(id); };
    auto check_ug = [&](Conn &c, RTPSink *sink, int id) {
        struct Au { Bytes data; unsigned w, h, fps; }; std::vector<Au> got; Bytes cur; unsigned total = 0;
        for (size_t i = 0; i < sink->units.size(); i++) {
            const auto &d = sink->units[i].data; MC_CHECK(d.size() > 24, "header", "an UltraGrid packet of %zu bytes", d.size()); auto w = [&](int i) { return (unsigned)d[4 * i] << 24 | d[4 * i + 1] << 16 | d[4 * i + 2] << 8 | d[4 * i + 3]; };
            MC_CHECK(w(0) == got.size() && w(1) == cur.size() && (cur.empty() || w(2) == total) && d.size() <= 1436, "header", "an UltraGrid packet claims buffer %u offset %u length %u instead of %zu %zu %u", w(0), w(1), w(2), got.size(), cur.size(), total);
            MC_CHECK(w(4) == 0x41564331, "header", "an UltraGrid packet of codec %x", w(4)); total = w(2); cur += Bytes((const char*)&d[24], d.size() - 24); MC_CHECK(cur.size() <= total, "header", "more data than an UltraGrid frame has"); bool last = cur.size() == total;
            if (i < sink->packets.size()) MC_CHECK(sink->packets[i].marker == last, "header", "an UltraGrid packet is %smarked as the last of its frame", sink->packets[i].marker ? "" : "not ");
            if (last) { Au a = {cur, w(3) >> 16, w(3) & 0xffff, w(5)}; got.push_back(a); cur = ""; }
        }
        if (c.loose || rk[c.readers[0]] != 'U') return;
        const auto &all = sent[c.readers[0]]; bool ok = false; std::string why;
        for (int alt = 0; alt < 2 && !ok; alt++) {      // with or without the frame on its way when the connection was made
            std::vector<Au> want; Bytes acc; unsigned w = 0, h = 0; double f = 25; for (size_t i = c.from - (alt && c.from); i < all.size(); i++) { Bytes d = all[i].data; d = d.substr(d[2] == 1 ? 3 : 4); bool had = w; if (d[0] == 9) { if (had && !acc.empty() && w < 65536) { unsigned fd = f > 29 && f < 29.98; Au a = {acc, w, h, (unsigned)(f + .5) << 19 | 1 << 15 | fd << 14}; want.push_back(a); } if (w >= 65536) w -= 65536; acc = ""; } else { acc += B("\0\0\0\1", 4) + d; for (auto &s : SPS) if (s.nal == d) { w = s.w + (w && w < 65536 ? 0 : 65536); h = s.h; if (s.fps) f = s.fps; } } }
            if (got.size() > want.size()) { why = "a frame that was not sent"; continue; } if (got.size() + 1 < want.size()) { why = "too few frames"; continue; } ok = true;
            for (size_t i = 0; i < got.size() && ok; i++) { if (got[i].data != want[i].data) { ok = false; why = "another frame than was sent"; } else if (got[i].w != want[i].w || got[i].h != want[i].h || got[i].fps != want[i].fps) { ok = false; char b[90]; snprintf(b, sizeof b, "%ux%u rate %x instead of %ux%u rate %x", got[i].w, got[i].h, got[i].fps, want[i].w, want[i].h, want[i].fps); why = b; } }
        }
        MC_CHECK(ok, "ultragrid", "UltraGrid connection %d is sent %s", id, why.c_str());
    };
    // the headers this project writes into the packets
    auto check_packets = [&](Conn &c, int id) {
        const Kind *k = kd[c.readers[0]]; RTPSink *sink = static_cast<RTPSink*>(static_cast<RTPConnection*>(sm->connections[id])->fSink); if (k->video) { if (c.type == 'u') check_ug(c, sink, id); return; }
        int whole = 0; for (auto &p : sink->packets) {
            const unsigned full = p.offset + p.data.size() + p.left; const bool last = !p.left; auto w = [&](int i) { return (unsigned)p.head[4 * i] << 24 | p.head[4 * i + 1] << 16 | p.head[4 * i + 2] << 8 | p.head[4 * i + 3]; };
            if (c.type == 's' && k->codec == AAC) { MC_CHECK(p.head.size() == 4 && p.head[0] == 0 && p.head[1] == 16 && (p.head[2] << 5 | p.head[3] >> 3) == (int)full && (p.head[3] & 7) == 0, "header", "the header of an AAC packet does not tell the size of its frame, %u", full); MC_CHECK(p.marker == last, "header", "a packet of an AAC frame is %smarked as its last", p.marker ? "" : "not "); }
            if (c.type == 'u') { MC_CHECK(p.head.size() == 20, "header", "an UltraGrid header of %zu bytes", p.head.size()); MC_CHECK(w(0) == (unsigned)whole && w(1) == (unsigned)p.offset && w(2) == full && w(3) == (16u << 26 | k->rate) && w(4) == 0x55, "header", "an UltraGrid packet claims buffer %u offset %u length %u format %x tag %x instead of %u %u %u", w(0), w(1), w(2), w(3), w(4), whole, (unsigned)p.offset, full); MC_CHECK(p.marker == last, "header", "an UltraGrid packet is %smarked as the last of its frame", p.marker ? "" : "not "); }
            if (last) whole++;
        }
        if (c.type == 's' && k->codec == AAC) { const l5::Unit *u = NULL; for (auto &x : sink->units) if (x.data.size() > 7) u = &x; if (u) { const auto &d = u->data; unsigned cfg = ((d[2] >> 6) + 1) << 11 | (d[2] >> 2 & 15) << 7 | ((d[2] & 1) << 2 | d[3] >> 6) << 3; char b[20]; snprintf(b, sizeof b, "config=%04x", cfg); const char *l = sink->auxSDPLine(); MC_CHECK(l && strcasestr(l, b), "config", "AAC is described by %s instead of %s", l ? l : "nothing", b); } }
    };
    std::vector<std::unique_ptr<Frame>> keep;
    auto check_all = [&](const char *after) {
        for (auto &c : conns) { std::string who = "connection " + std::to_string(c.first); for (auto &f : c.second.feeds) check_feed(f, who.c_str(), 0); }
        for (auto &c : clients) if (c.second.playing) { std::string who = "client " + std::to_string(c.first) + " of " + conns[c.second.conn].name; for (auto &f : c.second.feeds) check_feed(f, who.c_str(), 0); }
        for (auto &c : conns) if (c.second.type == 's' || c.second.type == 'u') check_packets(c.second, c.first);
        // what exists
        std::set<int> a, b; for (auto &c : conns) a.insert(c.first); for (auto &c : sm->getConnections()) b.insert(c.first); MC_CHECK(a == b, "connections", "after %s there are %zu connections instead of %zu", after, b.size(), a.size());
        unsigned nr = 0; for (int i = 0; i < n; i++) nr += on[i]; MC_CHECK(sm->sources.size() == nr && sm->replicators.size() == nr, "readers", "%zu sources and %zu replicators for %u readers after %s", sm->sources.size(), sm->replicators.size(), nr, after);
        MC_CHECK(static_cast<TaskScheduler*>(sm->scheduler)->triggers() == nr, "triggers", "%u event triggers in use for %u readers after %s", static_cast<TaskScheduler*>(sm->scheduler)->triggers(), nr, after);
        if (conns.empty() && clients.empty()) { MC_CHECK(world.media.size() == 1 + 2 * nr, "leak-media", "%zu media objects for %u readers and no connection after %s", world.media.size(), nr, after); MC_CHECK(world.socks.empty() && world.ports.empty(), "leak-socket", "%zu sockets without a connection after %s", world.socks.size(), after); }
        if (clients.empty()) { std::set<std::string> names; size_t rtp = 0; for (auto &c : conns) if (c.second.type == 'r' || c.second.type == 'R') names.insert(c.second.name); else rtp++; std::set<std::string> have; for (auto &s : world.server->sessions) have.insert(s.first); MC_CHECK(names == have, "session", "%zu RTSP sessions offered instead of %zu after %s", have.size(), names.size(), after); MC_CHECK(world.socks.size() == 2 * rtp, "leak-socket", "%zu sockets for %zu connections after %s", world.socks.size(), rtp, after); }
        // the state
        Jzon::Object st; sm->doGetState(st); Jzon::Array &arr = st.Get("sessions").AsArray(); MC_CHECK(arr.GetCount() == conns.size(), "state", "the state lists %zu connections of %zu", arr.GetCount(), conns.size()); auto it = conns.begin();
        for (size_t i = 0; i < arr.GetCount(); i++, ++it) {
            Jzon::Object &o = arr.Get(i).AsObject(); const Conn &c = it->second; std::multiset<int> rs, ws(c.readers.begin(), c.readers.end()); Jzon::Array &ra = o.Get("readers").AsArray(); for (size_t j = 0; j < ra.GetCount(); j++) rs.insert(ra.Get(j).ToInt()); MC_CHECK(rs == ws, "state", "the state lists %zu readers of connection %d", rs.size(), it->first);
            if (c.type == 'r' || c.type == 'R') { MC_CHECK(o.Get("name").ToString() == c.name && o.Get("uri").ToString() == "rtsp://host/" + c.name, "state", "the state names session %s", o.Get("name").ToString().c_str()); }
            else MC_CHECK(o.Get("ip").ToString() == c.ip && o.Get("port").ToString() == std::to_string(c.port), "state", "the state gives destination %s:%s", o.Get("ip").ToString().c_str(), o.Get("port").ToString().c_str());
            size_t subs = 0; if (c.type == 'r' || c.type == 'R') { for (auto &cl : clients) if (cl.second.conn == it->first && cl.second.playing) subs += c.type == 'R' ? 1 : c.readers.size(); } else subs = 1;
            Jzon::Array &ss = o.Get("subsessionsStats").AsArray(); MC_CHECK(ss.GetCount() == subs, "state", "statistics of %zu of the %zu destinations", ss.GetCount(), subs);
            for (size_t j = 0; j < ss.GetCount(); j++) MC_CHECK(ss.Get(j).AsObject().GetCount() == 13, "state-stats", "the statistics of a destination have %zu entries", ss.Get(j).AsObject().GetCount());
        }
    };
    auto send = [&](std::vector<std::pair<int, Bytes>> fr) {
        std::map<int, Frame*> of; std::vector<int> nf; std::vector<std::unique_ptr<Frame>> fs;
        for (int i = 0; i < n; i++) if (on[i]) { Frame *f = InterleavedVideoFrame::createNew(H264, 4000); memset(f->getDataBuf(), 0x55, 40); f->setLength(0); fs.emplace_back(f); of[i] = f; for (auto &x : fr) if (x.first == i) { memcpy(f->getDataBuf(), x.second.data(), x.second.size()); f->setLength(x.second.size()); int64_t p = 1416355200000000ll + no * 40003 + i * 7; f->setPresentationTime(usec(p)); nf.push_back(i); Sent s = {x.second, p}; sent[i].push_back(s); } }
        int ret = 0; world.steps = 0; world.max_steps = 500; bool r = sm->doProcessFrame(of, nf, ret); (void)r; joined(); mc::vclock_ns += 1000000;
    };
    auto idle = [&](int k) { for (int i = 0; i < k; i++) send({}); };
    auto payload = [&](int r, int sz) -> Bytes {
        no++; if (rk[r] == 'U') { Bytes d = no % 2 ? B("\0\0\0\1", 4) : B("\0\0\1", 3); if (sz == 1) return d + B("\x09\xf0", 2); if (sz == 2 || sz > 3) return d + SPS[sz == 2 ? 0 : sz - 3].nal; d += (char)(no % 3 ? 0x41 : 0x65); int len = sz == 0 ? 9 : 3100; while ((int)d.size() < len) d += (char)(0x11 + (no * 37 + d.size() * 5) % 0xe0); return d; }
        int len = sz == 0 ? 11 : sz == 1 ? 1600 : sz == 2 ? 1 : 3100; Bytes d;
        if (h26x(kd[r])) { static const int T4[] = {0x65, 0x41, 0x06, 0x67}, T5[] = {0x26, 0x02, 0x4e, 0x42}; d += sz % 2 == 0 ? B("\0\0\0\1", 4) : B("\0\0\1", 3); if (sz == 4) d = ""; d += (char)(kd[r]->codec == H264 ? T4[no % 4] : T5[no % 4]); }
        else if (!kd[r]->video && kd[r]->codec == AAC && len > 7) { unsigned char hd[7] = {0xff, 0xf1, (unsigned char)((no % 4) << 6 | (no * 3 % 13) << 2 | ((no % 8) >> 2)), (unsigned char)((no % 4) << 6), 2, 0x1f, 0xfc}; d += Bytes((char*)hd, 7); }
        while ((int)d.size() < len) d += (char)(0x11 + (no * 37 + d.size() * 5 + r) % 0xe0); return d;
    };
    auto all_in = [&](const std::vector<int> &rs) { for (int r : rs) if (r < 0 || r >= n || !good(r)) return false; return !rs.empty(); };
    auto event = [&](const char *action, Jzon::Object &ps) { Jzon::Object root; root.Add("action", action); root.Add("params", ps); Event e(root, std::chrono::system_clock::now(), 0); sm->pushEvent(e); };
    // type: s std, m transport stream over RTP, u UltraGrid, r RTSP, R transport stream over RTSP
    auto addc = [&](char type, std::vector<int> rs, int id, int port, std::string name, bool viaEvent) {
        std::string list; for (int r : rs) list += " " + std::to_string(r); mc::op("add %s connection %d of readers%s %s", type == 's' ? "RTP" : type == 'm' ? "MPEG-TS" : type == 'u' ? "UltraGrid" : type == 'r' ? "RTSP" : "RTSP MPEG-TS", id, list.c_str(), name.empty() ? std::to_string(port).c_str() : name.c_str());
        bool ok = all_in(rs) && !conns.count(id); std::set<int> ds(rs.begin(), rs.end()); if (ds.size() != rs.size()) ok = false; if (type != 'r' && type != 'R' && port % 2) ok = false;
        if (type == 's' || type == 'u') ok = ok && rs.size() == 1; if (type == 'm' || type == 'R') { int nv = 0, na = 0; if (ok) for (int r : rs) { (kd[r]->video ? nv : na)++; ok = ok && tsok(kd[r]); } ok = ok && nv <= 1 && na <= 1; }
        if (type == 'u') ok = ok && (kd[rs[0]]->video ? kd[rs[0]]->codec == H264 : kd[rs[0]]->codec == MP3); if (type == 'r' || type == 'R') for (auto &c : conns) if (c.second.name == name) ok = false;
        bool got; TxFormat tf = type == 's' || type == 'r' ? STD_RTP : type == 'u' ? ULTRAGRID : MPEGTS; const std::string ip = "10.0.0." + std::to_string(id % 200 + 1);
        if (viaEvent) { Jzon::Object ps; Jzon::Array a; for (int r : rs) a.Add(r); ps.Add("id", id); ps.Add("readers", a); ps.Add("txFormat", tf == STD_RTP ? "std" : tf == ULTRAGRID ? "ultragrid" : "mpegts"); if (type == 'r' || type == 'R') { ps.Add("name", name); ps.Add("info", "i"); ps.Add("desc", "d"); event("addRTSPConnection", ps); } else { ps.Add("ip", ip); ps.Add("port", port); event("addRTPConnection", ps); } got = ok ? sm->getConnections().count(id) : sm->getConnections().size() > conns.size(); }
        else got = type == 'r' || type == 'R' ? sm->addRTSPConnection(rs, id, tf, name, "i", "d") : sm->addRTPConnection(rs, id, ip, port, tf);
        MC_CHECK(got == ok, "accept", "the connection was %s", got ? "accepted" : "refused"); if (!ok) return;
        Conn c; c.type = type; c.readers = rs; c.port = port; c.name = name; c.ip = ip;
        if (type == 's' || type == 'm' || (type == 'u' && !kd[rs[0]]->video)) { RTPConnection *rc = static_cast<RTPConnection*>(sm->connections[id]); auto *gs = static_cast<RTPSink*>(rc->fSink)->gs; MC_CHECK(gs->addr.s_addr == inet_addr(ip.c_str()) && gs->dest == port, "destination", "the packets go to another destination"); for (int r : rs) { Feed f = {r, type == 'm', sent[r].size() - !sent[r].empty(), !sent[r].empty(), units_of(rc->fSink, rc->fSource, r, type == 'm'), 0, 0, 0}; c.feeds.push_back(f); } 
            if (type != 'u') { RTPSink *k = static_cast<RTPSink*>(rc->fSink); std::string fm; int pt = 97; unsigned fq = 90000; const Kind *kk = kd[rs[0]]; if (type == 'm') { fm = "MP2T"; pt = 33; } else if (kk->video) { fm = kk->codec == H264 ? "H264" : kk->codec == H265 ? "H265" : "VP8"; pt = 96; } else if (kk->codec == MP3) { fm = "MPA"; pt = 14; } else { fq = kk->rate; fm = kk->codec == AAC ? "MPEG4-GENERIC" : kk->codec == PCM ? "L16" : kk->codec == OPUS ? "OPUS" : "PCMU"; if (kk->codec == PCM && kk->rate == 44100) pt = kk->ch == 2 ? 10 : 11; if (kk->codec == G711) pt = 0; }
            std::string low = k->fmt, fml = fm; for (auto &x : low) x = tolower(x); for (auto &x : fml) x = tolower(x); if (low == "g711" && fml == "pcmu") low = fml; MC_CHECK(low == fml && k->payload == pt && k->freq == fq, "format", "%c is announced as %s/%u type %d", rk[rs[0]], k->fmt.c_str(), k->freq, k->payload); if (!kk->video && type != 'm' && kk->codec != MP3) MC_CHECK(k->channels == kk->ch, "format", "%u channels announced instead of %u", k->channels, kk->ch); } }
        c.loose = false; c.from = sent[rs[0]].size(); conns[id] = c;
    };
    auto loosen = [&](const std::vector<int> &rs) { auto l = [&](Feed &f) { for (int r : rs) if (r == f.reader) { f.maybe++; f.grace = 2; } }; for (auto &c : conns) { for (auto &f : c.second.feeds) l(f); for (int r : rs) if (r == c.second.readers[0]) c.second.loose = true; } for (auto &c : clients) for (auto &f : c.second.feeds) l(f); };     // the library drops the frame that the one who leaves holds for the others
    auto dropc = [&](int id) { loosen(conns[id].readers);  for (auto i = clients.begin(); i != clients.end(); ) if (i->second.conn == id) { MC_CHECK(ended(i->first), "session", "a client of a removed session still plays"); i = clients.erase(i); } else ++i; conns.erase(id); };
    auto newid = [&]() { int id = 1; while (conns.count(id)) id++; return id; };
    auto name = [&]() { std::string s = "a"; for (bool again = true; again; ) { again = false; for (auto &c : conns) if (c.second.name == s) again = true; if (again) s[0]++; } return s; };
    auto all = [&]() { std::vector<int> v; for (int i = 0; i < n; i++) if (good(i)) v.push_back(i); return v; };
    auto run = [&](char a, bool fixed) {
        auto pick = [&](int k) { if (k <= 0) mc::prune(); return fixed ? 0 : mc::choose(k); };
        auto reader = [&](bool conn) { std::vector<int> v; for (int i = 0; i < n; i++) if ((bool)on[i] == conn) v.push_back(i); int k = pick(v.size()); return v[k]; };
        auto room = [&]() { if ((int)conns.size() >= maxconn) mc::prune(); };
        switch (a) {
        case 'f': { int r = reader(true); int sz = pick(sizes); Bytes d = payload(r, sz); mc::op("frame of %zu bytes for reader %d", d.size(), r); send({{r, d}}); break; }
        case 'b': { std::vector<std::pair<int, Bytes>> v; for (int i = 0; i < n; i++) if (on[i]) v.push_back(std::make_pair(i, payload(i, 0))); if (v.size() < 2) mc::prune(); mc::op("frames for all readers"); send(v); break; }
        case 'i': mc::op("idle step"); idle(1); break;
        case 's': case 'u': room(); { int r = reader(true); int id = newid(); addc(a, {r}, id, nextport, "", id % 2); nextport += 2; } break;
        case 'm': room(); { int id = newid(); std::vector<int> v; if (!fixed && n > 1 && pick(2)) v = {reader(true)}; else v = all(); addc(a, v, id, nextport, "", id % 2 == 0); nextport += 2; } break;
        case 'r': case 'R': room(); { int id = newid(); addc(a, all(), id, 0, name(), id % 2); } break;
        case 'p': { std::vector<int> v; for (auto &c : conns) if (c.second.type == 'r' || c.second.type == 'R') v.push_back(c.first); if (v.empty() || clients.size() >= 2) mc::prune(); int id = v[pick(v.size())]; unsigned cl = nextclient++; loosen(conns[id].readers); mc::op("client %u plays session %s", cl, conns[id].name.c_str());
            struct J { std::string n; unsigned id; static void go(void *d) { J *j = (J*)d; world.server->play(j->n, j->id); delete j; } }; J *j = new J{conns[id].name, cl}; clients[cl] = Client{id, {}, false}; sm->envir()->taskScheduler().scheduleDelayedTask(0, J::go, j);
            if (pick(2)) { int r = reader(true); Bytes d = payload(r, 0); mc::op("... while a frame for reader %d is sent", r); send({{r, d}}); } for (int q = 0; q < 12 && ended(cl); q++) idle(1); MC_CHECK(!ended(cl), "session", "the client is not served"); break; }
        case 'l': { if (clients.empty()) mc::prune(); auto i = clients.begin(); std::advance(i, pick(clients.size())); unsigned cl = i->first; mc::op("client %u leaves", cl); struct J { unsigned id; static void go(void *d) { J *j = (J*)d; world.server->leave(j->id); delete j; } }; sm->envir()->taskScheduler().scheduleDelayedTask(0, J::go, new J{cl}); loosen(conns[i->second.conn].readers); clients.erase(i); if (pick(2)) { int r = reader(true); Bytes d = payload(r, 0); mc::op("... while a frame for reader %d is sent", r); send({{r, d}}); } for (int q = 0; q < 12 && !ended(cl); q++) idle(1); MC_CHECK(ended(cl), "session", "the client has not left"); break; }
        case 'x': { if (conns.empty()) mc::prune(); auto i = conns.begin(); std::advance(i, pick(conns.size())); int id = i->first; mc::op("remove connection %d", id); if (id % 2) MC_CHECK(sm->removeConnection(id), "accept", "the connection was not removed"); else { Jzon::Object ps; ps.Add("id", id); event("removeConnection", ps); } dropc(id); break; }
        case 'd': { int r = reader(true); mc::op("disconnect reader %d", r); bool far = pick(2); bool ok = far ? src[r]->disconnectWriter(1) : sm->disconnectReader(r); (void)ok; if (far) idle(1); on[r] = 0; std::vector<int> gone; for (auto &c : conns) for (int x : c.second.readers) if (x == r && (gone.empty() || gone.back() != c.first)) gone.push_back(c.first); if (far) sm->disconnectReader(r); else src[r]->disconnectWriter(1); for (int g : gone) dropc(g); sent[r].clear(); break; }
        case 'c': { std::vector<int> v; for (int i = 0; i < n; i++) if (!on[i]) v.push_back(i); if (v.empty()) mc::prune(); cn(v[pick(v.size())]); break; }
        case 'w': {     // requests that make no sense
            int k = pick(14); int one = 0; while (one < n && !good(one)) one++; if (one == n) mc::prune(); int nid = newid();
            if (k == 0) addc('s', {one}, nid, 5005, "", false); else if (k == 1) addc('s', {one, one}, nid, 6000, "", true); else if (k == 2) addc('s', {40}, nid, 6000, "", true); else if (k == 3) addc('m', {one, one}, nid, 6000, "", false); else if (k == 4) addc('R', {one, 41}, nid, 0, "z", true); else if (k == 5) addc('r', {one, one}, nid, 0, "z", false);
            else if (k == 6) { if (conns.empty()) mc::prune(); addc('s', {one}, conns.begin()->first, 6000, "", true); } else if (k == 7) { if (conns.empty()) mc::prune(); addc('r', {one}, conns.begin()->first, 0, "z", false); }
            else if (k == 8) { std::string nm; for (auto &c : conns) if (!c.second.name.empty()) nm = c.second.name; if (nm.empty()) mc::prune(); addc('r', {one}, nid, 0, nm, true); }
            else if (k == 9) { mc::op("remove connection 77"); MC_CHECK(!sm->removeConnection(77), "accept", "removed a connection that does not exist"); }
            else if (k == 10) { mc::op("an event without parameters"); Jzon::Object ps; event("addRTPConnection", ps); event("addRTSPConnection", ps); event("removeConnection", ps); event("nothing", ps); }
            else if (k == 11) { mc::op("events with readers that are no list"); Jzon::Object ps; ps.Add("id", nid); ps.Add("readers", 3); ps.Add("txFormat", "std"); ps.Add("name", "z"); ps.Add("ip", "10.0.0.1"); ps.Add("port", 6000); event("addRTPConnection", ps); event("addRTSPConnection", ps); }
            else if (k == 12) { mc::op("events with an unknown format"); Jzon::Object ps; Jzon::Array ar; ar.Add(one); ps.Add("id", nid); ps.Add("readers", ar); ps.Add("txFormat", "smoke"); ps.Add("ip", "10.0.0.1"); ps.Add("port", 6000); event("addRTPConnection", ps); }
            else { mc::op("connections of no readers"); MC_CHECK(!sm->addRTPConnection({}, nid, "10.0.0.1", 6000, STD_RTP) && !sm->addRTPConnection({}, nid, "10.0.0.1", 6000, MPEGTS) && !sm->addRTSPConnection({}, nid, STD_RTP, "z"), "accept", "a connection of no readers was accepted"); }
            break; }
        }
        check_all("this");
        mc::Hash h; for (auto &c : conns) { h.add(c.first).add(c.second.type); for (auto &f : c.second.feeds) h.add(f.lag); } h.add(0x77); for (auto &c : clients) { h.add(c.second.conn); for (auto &f : c.second.feeds) h.add(f.lag).add(f.maybe); } for (int i = 0; i < n; i++) h.add(on[i]); mc::state(h.h); mc::outcome(h.h);
    };
    if (mc::param("unconnected", 0) == 0) for (int i = 0; i < n; i++) cn(i);
    check_all("the start");
    for (char a : pre) run(a, true);
    for (int d = 0; d < depth; d++) run(menu[mc::choose(menu.size())], false);
    idle(4 + 3 * (int)(conns.size() + clients.size())); check_all("the end");
    for (auto &c : conns) for (auto &f : c.second.feeds) MC_CHECK(f.lag <= f.maybe, "behind", "connection %d never gets the last frame of reader %d", c.first, f.reader);
    for (auto &c : clients) for (auto &f : c.second.feeds) MC_CHECK(f.lag <= f.maybe, "behind", "client %u never gets the last frame of reader %d", c.first, f.reader);
    clients.clear(); conns.clear();
    delete sm;
    }
    MC_CHECK(world.media.empty() && world.socks.empty() && world.ports.empty(), "leak-end", "%zu media objects and %zu sockets are left when the transmitter is gone", world.media.size(), world.socks.size());
    MC_CHECK(world.envs == 0 && world.schedulers == 0, "leak-end", "the event loop outlives the transmitter");
}
void mc_body() {
    static bool once; if (!once) { once = true; body(true); }
    static int runs; const size_t b0 = __sanitizer_get_current_allocated_bytes(); body(false); const size_t b1 = __sanitizer_get_current_allocated_bytes();
    if (++runs > 3) MC_CHECK(b1 < b0 + 30, "leak", "%zu bytes are left behind", b1 - b0);
}
void mc_setup() { srand(1); utils::setLogLevel(ERROR); }
