// The receiver against a modelled live555: every sequence of sessions added
// and removed, answers of RTSP servers, packets, goodbyes, timers, and
// consumers that are connected and disconnected.
#include <math.h>
#include "filters.hh"
#include "live555.hh"
#include "modules/receiver/SourceManager.hh"
#include "modules/receiver/ExtendedRTSPClient.hh"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
l5::World *l5::w; int64_t l5::now() { return mc::vclock_ns / 1000; } void l5::advance(int64_t us) { mc::vclock_ns += us * 1000; }
typedef std::string Bytes;
static const Bytes SC("\0\0\0\1", 4);
static void fail_hook(const char *key, const char *fmt, ...) { char b[300]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); mc::fail(key, "%s", b); }

static Bytes b64(const Bytes &d) { static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; Bytes r; unsigned acc = 0; int n = 0; for (unsigned char c : d) { acc = acc << 8 | c; n += 8; while (n >= 6) { n -= 6; r += A[acc >> n & 63]; } } if (n) r += A[acc << (6 - n) & 63]; while (r.size() % 4) r += '='; return r; }
static Bytes nal(int type, int n) { Bytes d(1, (char)type); while ((int)d.size() < n) d += (char)(1 + d.size() * 7 % 250); return d; }
struct Media { const char *medium, *codec; int pt; unsigned freq, ch; std::vector<Bytes> sets; };
static Bytes describe(const char *eol, const char *extra, const std::vector<Media> &ms, const char *tail = "") {
    Bytes s = Bytes("v=0") + eol + "o=- 1 1 IN IP4 10.0.0.9" + eol + "s=the name of the server" + eol + "t=0 0" + eol + (*extra ? Bytes(extra) + eol : "");
    for (auto &m : ms) { s += Bytes("m=") + m.medium + " 0 RTP/AVP " + std::to_string(m.pt) + eol; if (m.codec) { s += "a=rtpmap:" + std::to_string(m.pt) + " " + m.codec + "/" + std::to_string(m.freq); if (m.ch > 1) s += "/" + std::to_string(m.ch); s += eol; } if (!m.sets.empty()) { s += "a=fmtp:" + std::to_string(m.pt) + " packetization-mode=1;sprop-parameter-sets="; for (size_t i = 0; i < m.sets.size(); i++) s += (i ? "," : "") + b64(m.sets[i]); s += eol; } }
    return s + tail;
}
static const Media MH = {"video", "H264", 96, 90000, 1, {nal(0x67, 9), nal(0x68, 4)}}, MHL = {"video", "H264", 96, 90000, 1, {nal(0x67, 300), nal(0x68, 40)}}, MH0 = {"video", "H264", 96, 90000, 1, {}}, M5 = {"video", "H265", 96, 90000, 1, {}}, MV = {"video", "VP8", 96, 90000, 1, {}}, MA = {"audio", "mpeg4-generic", 97, 44100, 2, {}}, MP = {"audio", NULL, 0, 8000, 1, {}}, MO = {"audio", "opus", 97, 48000, 2, {}}, MX = {"video", "THEORA", 98, 90000, 1, {}}, MU = {"video", "WEIRD", 99, 90000, 1, {}}, MN = {"video", NULL, 99, 90000, 1, {}};
// what a server describes: by letter
static Bytes server_sdp(char c) {
    switch (c) {
    case 'H': return describe("\r\n", "", {MH}); case 'B': return describe("\r\n", "", {MH, MA}); case 'L': return describe("\r\n", "", {MHL}); case '0': return describe("\r\n", "", {MH0});
    case 'n': return describe("\n", "", {MH}); case 'r': return describe("\r\n", "a=range:npt=0-10", {MV}); case 'R': return describe("\r\n", "a=range:npt=0-5000", {MP}); case 'a': return describe("\r\n", "a=range:clock=20141118T120000Z-", {MP});
    case '5': return describe("\r\n", "", {M5}); case 'V': return describe("\r\n", "", {MV}); case 'P': return describe("\r\n", "", {MP}); case 'O': return describe("\r\n", "", {MO}); case 'X': return describe("\r\n", "", {MX, MO}); case 'U': return describe("\r\n", "", {MU, MH});
    case 'e': return describe("\r\n", "", {}); case 'u': return describe("\r\n", "", {MN}); case 'z': return "nonsense"; case 'E': return "";
    } return "";
}
struct Sdp { char c; const char *medium, *codec; int bw, freq, port, ch; };
// what an operator describes
static std::vector<Sdp> local_sdp(char c) {
    switch (c) {
    case 'h': return {{'h', "video", "H264", 5000, 90000, 5004, 0}}; case 'g': return {{'g', "audio", "opus", 128, 48000, 5004, 2}}; case 'b': return {{'b', "video", "H264", 5000, 90000, 5006, 0}, {'b', "audio", "MPEG4-GENERIC", 192, 48000, 5008, 2}};
    case 'c': return {{'c', "audio", "pcmu", 64, 8000, 5010, 1}, {'c', "video", "H264", 5000, 90000, 5004, 0}}; case 'o': return {{'o', "video", "H264", 5000, 90000, 5013, 0}}; case 'p': return {{'p', "audio", "pcm", 64, 48000, 5014, 2}}; case 'm': return {{'m', "audio", "mp3", 64, 90000, 5016, 2}};
    case 'x': return {{'x', "video", "smoke", 64, 90000, 5018, 0}}; case 'q': return {{'q', "audio", "pcm", 64, 48000, 5014, 2}, {'q', "audio", "opus", 64, 48000, 5020, 2}}; case 'd': return {{'d', "audio", "opus", 64, 48000, 5022, 2}, {'d', "audio", "opus", 64, 48000, 5022, 2}}; case '0': return {};
    } return {};
}
struct Pkt { Bytes data; int64_t pts; };
struct Sub { MediaSubsession *ms; std::string sess; int port; std::string codec; bool live; std::vector<Pkt> sent; std::vector<Bytes> sets; unsigned minj, lr, le; double lmin, lmax; };
struct Sess { bool url; bool described, dead, playing; std::vector<int> subs; std::string server; int teardowns; int64_t ends, started; unsigned timeout; bool keep; std::vector<std::string> media; };
struct Con { int sub; int port; size_t next, grace; long seq; bool first; };    // one consumer

static void body(bool warm) {
    const std::string menu = warm ? "s" : mc::sparam("menu", "uarxcdnSbt"), servers = mc::sparam("servers", "HB"), locals = mc::sparam("locals", "hb"); const int depth = warm ? 0 : mc::param("depth", 4), maxsess = warm ? 2 : mc::param("sessions", 2); std::string pre = warm ? "urrraxcnSdxnSbtx" : mc::sparam("pre", "");
    static l5::World world; l5::reset(&world); world.fail = fail_hook; mc::vclock_ns = 1416355200000000000ll; 
    {
    std::unique_ptr<SourceManager> smp(new SourceManager(8)); SourceManager *sm = smp.get(); sm->setId(900); std::unique_ptr<Snk> snk(new Snk(8)); snk->setId(901); snk->fType = VIDEO_DECODER;
    std::map<std::string, Sess> sess; std::vector<Sub> subs; std::map<int, Con> cons; long no = 0; int nextid = 0;
    auto form = [&](Sub &s, const Pkt &p) { return (s.codec == "H264" || s.codec == "H265" ? SC : Bytes()) + p.data; };
    snk->body = [&](std::map<int, Frame*> &o, std::vector<int> &nf, int &) {
        for (int r : nf) {
            Frame *f = o[r]; MC_CHECK(cons.count(r), "surplus", "a frame for reader %d, which is not connected", r); Con &c = cons[r]; Sub &s = subs[c.sub]; Bytes got((const char*)f->getDataBuf(), f->getLength()); const int64_t pts = f->getPresentationTime().count();
            size_t k = 0; for (k = c.next; k < s.sent.size(); k++) if (got == form(s, s.sent[k])) break;
            if (k == s.sent.size()) { for (k = 0; k < c.next; k++) if (got == form(s, s.sent[k])) mc::fail("repeated", "port %d: packet %zu is delivered again or out of order", s.port, k); mc::fail("content", "port %d: a frame of %zu bytes that was never received (%zu packets)", s.port, got.size(), s.sent.size()); }
            MC_CHECK(pts == s.sent[k].pts, "stamps", "port %d: a frame is delivered for %ld instead of %ld", s.port, (long)pts, (long)s.sent[k].pts);
            MC_CHECK(k <= c.next + (c.first ? c.grace : 0), "lost", "port %d: packet %zu is delivered after %zu, %zu are missing", s.port, k, c.next, k - c.next); c.grace = 0;
            MC_CHECK(c.seq < 0 || (long)f->getSequenceNumber() == c.seq + 1, "sequence", "port %d: frame %ld follows frame %ld", s.port, (long)f->getSequenceNumber(), c.seq); c.seq = f->getSequenceNumber();
            c.next = k + 1; c.first = false;
        } return true; };
    auto step = [&](int n) { while (n-- > 0) { int ret = 0; world.steps = 0; world.max_steps = 100; sm->processFrame(ret); for (int i = 0; i < 3; i++) { int r2 = 0; snk->processFrame(r2); } } };
    auto settle = [&]() { int k = 14; for (auto &s : subs) if (s.live && s.ms->rtpSource()) k += 6 * s.ms->rtpSource()->waiting.size(); k += 3 * subs.size(); step(k); };
    auto collect = [&](const std::string &id) { for (auto *m : world.subs) if (m->parentSession().name == id) { bool have = false; for (auto &s : subs) if (s.ms == m && s.sess == id) have = true; if (!have) { Sub s; s.ms = m; s.sess = id; s.port = m->clientPortNum(); s.codec = m->codec; s.live = false; s.minj = ~0u; s.lr = s.le = 0; s.lmin = 1; s.lmax = 0; if (m->codec == "H264") { const char *p = m->sprop.c_str(); if (*p) { unsigned n; SPropRecord *r = parseSPropParameterSets(p, n); for (unsigned i = 0; i < n; i++) s.sets.push_back(Bytes((char*)r[i].sPropBytes, r[i].sPropLength)); delete[] r; } } subs.push_back(s); sess[id].subs.push_back(subs.size() - 1); } } };
    auto consumable = [&](Sub &s) { static const char *OK[] = {"H264", "H265", "VP8", "OPUS", "PCMU", "MPEG4-GENERIC"}; for (auto *c : OK) if (s.codec == c) return true; return false; };
    auto end_sub = [&](Sub &s) { s.live = false; };
    auto end_sess = [&](const std::string &id) { Sess &x = sess[id]; for (int i : x.subs) end_sub(subs[i]); };
    auto livecount = [&](Sess &x) { int n = 0; for (int i : x.subs) n += subs[i].live; return n; };
    auto teardowns = [&](const std::string &url) { int n = 0; for (auto &r : world.sent) if (r.what == "TEARDOWN" && r.url == url) n++; return n; };
    auto event = [&](const char *action, Jzon::Object &ps) { Jzon::Object root; root.Add("action", action); root.Add("params", ps); Event e(root, std::chrono::system_clock::now(), 0); sm->pushEvent(e); };
    auto shut = [&](const std::string &id) { Sess &x = sess[id]; bool act = livecount(x); end_sess(id); x.dead = true; x.playing = false; if (act) x.teardowns++; };
    auto check_all = [&](const char *after) {
        std::set<std::string> a, b; for (auto &s : sess) a.insert(s.first); for (auto &s : sm->getSessions()) b.insert(s.first); MC_CHECK(a == b, "sessions", "after %s there are %zu sessions instead of %zu", after, b.size(), a.size());
        size_t clients = 0, lives = 0, socks = 0; for (auto &s : sess) { if (s.second.url && !s.second.dead) clients++; if (s.second.url) MC_CHECK(teardowns(s.second.server) == s.second.teardowns, "teardown", "%d TEARDOWN requests for session %s instead of %d after %s", teardowns(s.second.server), s.first.c_str(), s.second.teardowns, after); }
        size_t hc = 0; for (auto *m : world.media) if (dynamic_cast<RTSPClient*>(m)) hc++; MC_CHECK(hc == clients, "clients", "%zu RTSP clients instead of %zu after %s", hc, clients, after);
        for (auto &s : subs) lives += s.live; size_t hs = 0; for (auto *m : world.media) if (dynamic_cast<MediaSink*>(m)) hs++; MC_CHECK(hs == lives, "sinks", "%zu sinks instead of %zu after %s", hs, lives, after); MC_CHECK(sm->sinks.size() == lives, "sinks", "%zu sinks are registered instead of %zu after %s", sm->sinks.size(), lives, after);
        if (sess.empty()) { MC_CHECK(world.media.empty() && world.socks.empty(), "leak-media", "%zu media objects and %zu sockets are left without a session after %s", world.media.size(), world.socks.size(), after); MC_CHECK(static_cast<TaskScheduler*>(sm->scheduler)->waiting() == 0, "leak-task", "%zu timers are left without a session after %s", static_cast<TaskScheduler*>(sm->scheduler)->waiting(), after); }
        (void)socks;
        Jzon::Object st; sm->getState(st); Jzon::Array &arr = st.Get("sessions").AsArray(); std::set<std::string> want; for (auto &s : sess) if (s.second.described) want.insert(s.first); MC_CHECK(arr.GetCount() == want.size(), "state", "the state lists %zu sessions instead of %zu after %s", arr.GetCount(), want.size(), after);
        for (size_t i = 0; i < arr.GetCount(); i++) { Jzon::Object &o = arr.Get(i).AsObject(); std::string id = o.Get("id").ToString(); MC_CHECK(want.count(id), "state", "the state lists session %s", id.c_str()); Jzon::Array &ss = o.Get("subsessions").AsArray(); Sess &x = sess[id]; MC_CHECK(ss.GetCount() == x.media.size(), "state", "%zu subsessions instead of %zu are listed", ss.GetCount(), x.media.size());
            for (size_t j = 0; j < ss.GetCount(); j++) { Jzon::Object &q = ss.Get(j).AsObject(); MC_CHECK(q.Get("medium").ToString() + "/" + q.Get("codec").ToString() == x.media[j], "state", "a subsession is listed as %s/%s instead of %s", q.Get("medium").ToString().c_str(), q.Get("codec").ToString().c_str(), x.media[j].c_str());
                for (int k : x.subs) if (subs[k].port == q.Get("port").ToInt() && subs[k].live) MC_CHECK(q.Has("curJitterInMicroseconds") && q.Has("avgPacketLossPercentage") && q.Has("maxBitRateInKbps"), "state-stats", "a subsession that is received is listed without statistics"); } }
        for (auto &c : cons) { Sub &s = subs[c.second.sub]; (void)s; MC_CHECK(snk->readers.count(c.first), "consumer", "reader %d is gone", c.first); }
    };
    auto stats_check = [&]() {
        Jzon::Object st; sm->getState(st); Jzon::Array &arr = st.Get("sessions").AsArray();
        for (size_t i = 0; i < arr.GetCount(); i++) { Jzon::Object &o = arr.Get(i).AsObject(); Sess &x = sess[o.Get("id").ToString()]; Jzon::Array &ss = o.Get("subsessions").AsArray();
            for (size_t j = 0; j < ss.GetCount(); j++) { Jzon::Object &q = ss.Get(j).AsObject(); for (int k : x.subs) if (subs[k].live && subs[k].port == q.Get("port").ToInt()) { auto &db = subs[k].ms->rtpSource()->receptionStatsDB(); if (!db.any) continue; auto &r = db.s;
                auto num = [&](const char *n) { return q.Get(n).ToDouble(); }; double loss = r.expected ? 1 - r.received / (double)r.expected : 1; if (loss < 0) loss = 0;
                MC_CHECK(fabs(num("avgPacketLossPercentage") - 100 * loss) < 1e-3, "statistics", "a loss of %g %% instead of %g %% on port %d", num("avgPacketLossPercentage"), 100 * loss, subs[k].port);
                MC_CHECK(num("curJitterInMicroseconds") == r.jit && num("maxJitterInMicroseconds") >= r.jit && num("minJitterInMicroseconds") <= r.jit && num("minJitterInMicroseconds") >= subs[k].minj, "statistics", "a jitter of %g (%g to %g) instead of %u on port %d", num("curJitterInMicroseconds"), num("minJitterInMicroseconds"), num("maxJitterInMicroseconds"), r.jit, subs[k].port);
                MC_CHECK(num("minInterPacketGapInMiliseconds") == (int)(r.mingap / 1000) && num("maxInterPacketGapInMiliseconds") == (int)(r.maxgap / 1000), "statistics", "packets are %g to %g ms apart instead of %u to %u", num("minInterPacketGapInMiliseconds"), num("maxInterPacketGapInMiliseconds"), r.mingap / 1000, r.maxgap / 1000);
                MC_CHECK(num("avgInterPacketGapInMiliseconds") == (int)((r.gaps.tv_sec * 1000. + r.gaps.tv_usec / 1000.) / r.received), "statistics", "packets are %g ms apart on average", num("avgInterPacketGapInMiliseconds"));
                if (menu == "nt") { Sub &u = subs[k]; double f = r.expected == u.le ? 0 : 1 - (r.received - u.lr) / (double)(r.expected - u.le); u.lr = r.received; u.le = r.expected; u.lmin = std::min(u.lmin, f); u.lmax = std::max(u.lmax, f); MC_CHECK((fabs(num("minPacketLossPercentage") - 100 * u.lmin) < 1e-3 || num("minPacketLossPercentage") == 0) && fabs(num("maxPacketLossPercentage") - 100 * u.lmax) < 1e-3, "statistics", "losses of %g to %g %% instead of %g to %g", num("minPacketLossPercentage"), num("maxPacketLossPercentage"), 100 * u.lmin, 100 * u.lmax); }
                MC_CHECK(num("minPacketLossPercentage") <= num("maxPacketLossPercentage") + 1e-9, "statistics", "the least loss, %g, exceeds the greatest, %g", num("minPacketLossPercentage"), num("maxPacketLossPercentage")); MC_CHECK(num("minBitrateInKbps") <= num("maxBitRateInKbps") && num("avgBitRateInKbps") <= num("maxBitRateInKbps") * 1.01 + 1e-3, "statistics", "a rate of %g kbps, %g to %g", num("avgBitRateInKbps"), num("minBitrateInKbps"), num("maxBitRateInKbps")); } } }
    };
    // sessions that are over because their time has come
    auto timers = [&]() { for (auto &s : sess) if (s.second.playing && s.second.ends && l5::now() >= s.second.ends + 2000000) { shut(s.first); } };
    auto run = [&](char a, bool fixed) {
        auto pick = [&](int k) { if (k <= 0) { if (fixed) return -1; mc::prune(); } return fixed ? 0 : mc::choose(k); };
        auto live = [&](bool all = false) { std::vector<int> v; for (size_t i = 0; i < subs.size(); i++) if (subs[i].live) v.push_back(i); int k = pick(v.size()); return k < 0 ? -1 : v[k]; };
        switch (a) {
        case 'u': { if ((int)sess.size() >= maxsess) mc::prune(); std::string id = "u" + std::to_string(nextid++), url = "rtsp://" + id + "/x"; bool keep = fixed ? true : menu.find('K') != std::string::npos ? mc::choose(2) : true; mc::op("add RTSP session %s", id.c_str()); Jzon::Object ps; ps.Add("id", id); ps.Add("uri", url); ps.Add("progName", "p"); if (!keep) ps.Add("keepAlive", false); event("addSession", ps); Sess x = Sess(); x.url = true; x.server = url; x.keep = keep; sess[id] = x; MC_CHECK(!world.commands.empty() && world.commands.back().what == "DESCRIBE", "request", "the server is not asked for the description"); break; }
        case 'v': { if ((int)sess.size() >= maxsess) mc::prune(); std::string id = "u" + std::to_string(nextid++), url = "rtsp://" + id + "/x"; mc::op("add RTSP session %s on a server that cannot be reached", id.c_str()); world.refuse_send = true; Jzon::Object ps; ps.Add("id", id); ps.Add("uri", url); ps.Add("progName", "p"); event("addSession", ps); world.refuse_send = false; Sess x = Sess(); x.url = true; x.server = url; x.dead = true; sess[id] = x; break; }
        case 'a': { if ((int)sess.size() >= maxsess) mc::prune(); char t = locals[pick(locals.size())]; std::string id = "l" + std::to_string(nextid++); mc::op("add local session %s (%c)", id.c_str(), t); auto ms = local_sdp(t); Jzon::Object ps; Jzon::Array arr; bool ok = true, some = false; std::set<int> ports; for (auto &s : subs) if (s.live) ports.insert(s.port); for (auto &c : cons) ports.insert(c.second.port); Sess x = Sess();
            for (auto &m : ms) { Jzon::Object o; o.Add("medium", m.medium); o.Add("codec", m.codec); o.Add("bandwidth", m.bw); o.Add("timeStampFrequency", m.freq); o.Add("port", m.port); o.Add("channels", m.ch); arr.Add(o); if (!strcmp(m.codec, "smoke")) ok = false; if (strcmp(m.codec, "pcm") && !ports.insert(m.port & ~1).second) ok = false; std::string cn = m.codec; for (auto &c : cn) c = toupper(c); if (cn == "MP3") cn = "MPA"; x.media.push_back(std::string(m.medium) + "/" + cn); }
            ps.Add("id", id); ps.Add("subsessions", arr); event("addSession", ps); (void)some; if (!ok) { MC_CHECK(!sm->getSession(id), "accept", "the session was accepted"); break; } MC_CHECK(sm->getSession(id), "accept", "the session was refused"); x.described = true; sess[id] = x; collect(id); for (int i : sess[id].subs) subs[i].live = true;
            size_t want = 0; for (auto &m : ms) if (strcmp(m.codec, "pcm")) want++; MC_CHECK(sess[id].subs.size() == want, "accept", "%zu subsessions are received instead of %zu", sess[id].subs.size(), want); for (int i : sess[id].subs) { bool found = false; for (auto &m : ms) if ((m.port & ~1) == subs[i].port) found = true; MC_CHECK(found, "accept", "port %d is received", subs[i].port); } break; }
        case 'r': case 'f': { std::vector<size_t> v; for (size_t i = 0; i < world.commands.size(); i++) v.push_back(i); int k = pick(v.size()); if (k < 0) break; l5::Command c = world.commands[v[k]]; world.commands.erase(world.commands.begin() + v[k]); std::string id; for (auto &s : sess) if (s.second.url && c.client->u == s.second.server) id = s.first; MC_CHECK(!id.empty(), "request", "a request of no session"); const bool good = a == 'r'; Bytes body; char t = 0;
            if (c.what == "DESCRIBE" && good) { t = servers[pick(servers.size())]; body = server_sdp(t); }
            if (c.what == "SETUP" && good) { static const int TO[] = {0, 10, 3, 4300}; c.client->timeout = TO[menu.find('k') != std::string::npos || menu.find('K') != std::string::npos ? pick(4) : 0]; }
            mc::op("%s answers %s with %s%c", c.client->u.c_str(), c.what.c_str(), good ? "success " : "failure", t ? t : ' '); const std::string url = c.client->u; RTSPClient *cl = c.client; char *text = strDup(body.c_str()); auto *reply = c.reply; unsigned to = cl->timeout; world.arrived.push_back([=]() { if (l5::w->media.count(cl)) reply(cl, good ? 0 : 454, text); else delete[] text; }); size_t asked = world.sent.size(); step(1); Sess &x = sess[id]; 
            std::string next; for (size_t i = asked; i < world.sent.size(); i++) if (world.sent[i].url == url && world.sent[i].what != "GET_PARAMETER") next = world.sent[i].what;
            if (c.what == "DESCRIBE") { bool any = good && t != 'e' && t != 'u' && t != 'z'; if (any && t == 'E') any = false; bool parsed = good && t != 'u' && t != 'z'; if (parsed) { x.described = true; const char *m = t == 'H' || t == 'L' || t == '0' || t == 'n' ? "video/H264" : t == '5' ? "video/H265" : t == 'V' || t == 'r' ? "video/VP8" : t == 'P' || t == 'R' || t == 'a' ? "audio/PCMU" : t == 'O' ? "audio/OPUS" : ""; if (*m) x.media.push_back(m); if (t == 'B') x.media = {"video/H264", "audio/MPEG4-GENERIC"}; if (t == 'X') x.media = {"video/THEORA", "audio/OPUS"}; if (t == 'U') x.media = {"video/WEIRD", "video/H264"}; if (t == 'r') x.ends = 10000000; if (t == 'R') x.ends = 5000000000ll; }
                if (any) { collect(id); MC_CHECK(next == "SETUP", "request", "after the description %s is asked for", next.empty() ? "nothing" : next.c_str()); } else { x.dead = true; } }
            else if (c.what == "SETUP") { collect(id); int i = -1; for (size_t q = 0; q < subs.size(); q++) if (subs[q].ms == c.sub && subs[q].sess == id) i = q; MC_CHECK(i >= 0, "request", "a SETUP for an unknown subsession"); if (good) subs[i].live = true; MC_CHECK(next == "SETUP" || next == "PLAY", "request", "after SETUP %s is asked for", next.empty() ? "nothing" : next.c_str()); if (next == "PLAY") MC_CHECK(x.subs.size() == x.media.size() - (!x.media.empty() && x.media[0] == "video/WEIRD"), "request", "PLAY is asked for before all is set up"); if (good) x.timeout = to; }
            else if (c.what == "PLAY") { if (good) { x.playing = true; x.started = l5::now(); if (x.ends) x.ends += l5::now(); } else shut(id); }
            break; }
        case 'x': { if (sess.empty()) { if (fixed) break; mc::prune(); } auto i = sess.begin(); std::advance(i, pick(sess.size())); std::string id = i->first; mc::op("remove session %s", id.c_str()); Jzon::Object ps; ps.Add("id", id); const bool act = livecount(i->second), url = i->second.url, dead = i->second.dead; const int td = teardowns(i->second.server); std::vector<int> gone; for (auto &c : cons) if (subs[c.second.sub].sess == id) gone.push_back(c.first);
            event("removeSession", ps); MC_CHECK(!sm->getSession(id), "accept", "the session was not removed"); if (url) MC_CHECK(teardowns(i->second.server) - td == (act && !dead), "teardown", "%d TEARDOWN requests for a session that %s", teardowns(i->second.server) - td, act ? "is received" : "is not received"); end_sess(id); sess.erase(i);
            step(1); for (int r : gone) { MC_CHECK(!sm->isWConnected(cons[r].port), "consumer", "the writer of a removed session is still connected"); snk->disconnectReader(r); cons.erase(r); } break; }
        case 'c': { std::vector<int> v; for (size_t i = 0; i < subs.size(); i++) { bool used = false; for (auto &c : cons) if (c.second.port == subs[i].port) used = true; if (!used && sess.count(subs[i].sess)) v.push_back(i); } int k = pick(v.size()); if (k < 0) break; Sub &s = subs[v[k]]; int r = 1; while (cons.count(r)) r++; mc::op("connect port %d to reader %d", s.port, r); bool ok = sm->connectManyToMany(snk.get(), r, s.port); bool want = s.live && consumable(s); if (s.live == false) for (auto &o : subs) if (o.live && o.port == s.port) mc::prune(); MC_CHECK(ok == want, "connect", "port %d (%s, %s) was %s", s.port, s.codec.c_str(), s.live ? "received" : "over", ok ? "connected" : "refused"); if (!ok) break;
            size_t waiting = s.ms->rtpSource()->waiting.size(); Con c = {v[k], s.port, s.sent.size() - waiting, 1, -1, true}; cons[r] = c;
            const StreamInfo *si = sm->writers[s.port]->queue->getStreamInfo(); bool video = s.codec[0] == 'H' || s.codec[0] == 'V'; MC_CHECK(si->type == (video ? VIDEO : AUDIO), "format", "port %d has the wrong type", s.port); if (video) MC_CHECK(si->video.codec == (s.codec == "H264" ? H264 : s.codec == "H265" ? H265 : VP8), "format", "port %d is taken for codec %d", s.port, si->video.codec); else { ACodecType ct = s.codec == "OPUS" ? OPUS : s.codec == "PCMU" ? (s.ms->pt == 0 ? G711 : PCMU) : AAC; MC_CHECK(si->audio.codec == ct && si->audio.sampleRate == s.ms->freq && si->audio.channels == s.ms->chans, "format", "port %d is taken for codec %d, %u Hz, %u channels", s.port, si->audio.codec, si->audio.sampleRate, si->audio.channels); }
            Bytes ex; for (auto &p : s.sets) if (!p.empty()) ex += SC + p; MC_CHECK((int)ex.size() == si->extradata_size && (ex.empty() || !memcmp(ex.data(), si->extradata, ex.size())), "parameters", "port %d has %d bytes of parameter sets instead of %zu", s.port, si->extradata_size, ex.size()); break; }
        case 'd': { if (cons.empty()) { if (fixed) break; mc::prune(); } auto i = cons.begin(); std::advance(i, pick(cons.size())); int side = pick(2); mc::op("disconnect port %d from the %s", i->second.port, side ? "reader" : "writer"); if (side) { snk->disconnectReader(i->first); if (fixed || mc::choose(2)) step(1); else sm->disconnectWriter(i->second.port); } else { sm->disconnectWriter(i->second.port); snk->disconnectReader(i->first); } MC_CHECK(!sm->isWConnected(i->second.port), "consumer", "the writer is still connected"); cons.erase(i); break; }
        case 'n': { int i = live(); if (i < 0) break; Sub &s = subs[i]; int sz = pick(mc::param("sizes", 1)); Pkt p; p.pts = 1416355200000000ll + no * 40003; p.data = Bytes(1, s.codec == "H265" ? 0x26 : 0x65); no++; int len = sz == 0 ? 12 : sz == 1 ? 1 : s.codec[0] == 'H' || s.codec[0] == 'V' ? 3000 : 400; for (int q = 0; (int)p.data.size() < len; q++) p.data += (char)(no * 37 + q * 11 + (q >> 8)); if (sz == 1) p.data[0] = (char)(0x41 + no % 100); s.sent.push_back(p); auto *src = s.ms->rtpSource(); l5::Unit u; u.data.assign(p.data.begin(), p.data.end()); u.pts = p.pts; src->waiting.push_back(u); auto &db = src->receptionStatsDB(); db.any = true; db.s.received++; db.s.expected += 1 + no % 2; db.s.kb += len / 1000.; db.s.mingap = 900 + no; db.s.maxgap = 40000 + 1000 * no; db.s.gaps.tv_usec += 40000; if (db.s.gaps.tv_usec >= 1000000) { db.s.gaps.tv_usec -= 1000000; db.s.gaps.tv_sec++; } db.s.jit = 41000 + no * 13; if (db.s.jit < s.minj) s.minj = db.s.jit; mc::op("packet of %d bytes on port %d", len, s.port); break; }
        case 's': mc::op("step"); step(1); break;
        case 'S': mc::op("steps"); settle(); break;
        case 'b': { int i = live(); if (i < 0) break; RTCPInstance *rt = subs[i].ms->rtcpInstance(); MC_CHECK(rt && rt->bye, "goodbye", "nobody listens to the goodbye of port %d", subs[i].port); mc::op("port %d says goodbye", subs[i].port); world.arrived.push_back([=]() { if (l5::w->media.count(rt) && rt->bye) { TaskFunc *f = rt->bye; rt->bye = NULL; f(rt->byedata); } }); step(1); end_sub(subs[i]); break; }
        case 'e': { int i = live(); if (i < 0) break; mc::op("the source of port %d is closed", subs[i].port); RTPSource *src = subs[i].ms->rtpSource(); settle(); MC_CHECK(subs[i].live, "harness", ""); if (!src->isCurrentlyAwaitingData()) mc::prune(); world.arrived.push_back([=]() { if (l5::w->media.count(src)) src->handleClosure(); }); step(1); end_sub(subs[i]); break; }
        case 't': mc::op("1.1 seconds"); mc::vclock_ns += 1100000000ll; settle(); timers(); stats_check(); break;
        case 'T': mc::op("13 seconds"); mc::vclock_ns += 13000000000ll; settle(); step(30); timers(); break;
        case 'G': mc::op("an hour and 20 minutes"); for (int i = 0; i < 10; i++) { mc::vclock_ns += 480000000000ll; settle(); timers(); } break;
        case 'k': case 'K': { mc::op("70 seconds pass"); int64_t t0 = l5::now(); for (int i = 0; i < 70; i++) { mc::vclock_ns += 1000000000ll; step(3 + 3 * subs.size()); timers(); }
            for (auto &s : sess) { std::vector<int64_t> at; for (auto &r : world.sent) if (r.what == "GET_PARAMETER" && r.url == s.second.server) at.push_back(r.at); if (!s.second.url) continue; int recent = 0; for (auto x : at) if (x > t0 + 1500000) recent++; if (!s.second.playing || !s.second.keep) { MC_CHECK(recent == 0, "keep-alive", "%d keep alive requests for session %s, which %s", recent, s.first.c_str(), s.second.playing ? "does not want them" : "is not playing"); continue; }
                int64_t last = s.second.started, to = (s.second.timeout ? s.second.timeout : 60) * 1000000ll; at.push_back(l5::now()); for (size_t i = 0; i < at.size(); i++) { MC_CHECK(at[i] - last < to + 500000, "keep-alive", "session %s is silent for %ld s of %ld s", s.first.c_str(), (long)(at[i] - last) / 1000000, (long)to / 1000000); if (i + 1 < at.size()) MC_CHECK(at[i] - last >= 900000, "keep-alive", "keep alive requests every %ld us", (long)(at[i] - last)); last = at[i]; } } break; }
        case 'w': { int k = pick(9); Jzon::Object ps;
            if (k == 0) { mc::op("remove a session that does not exist"); ps.Add("id", "none"); event("removeSession", ps); } else if (k == 1) { mc::op("events without parameters"); event("addSession", ps); event("removeSession", ps); }
            else if (k == 2) { if (sess.empty()) mc::prune(); mc::op("add a session whose id is in use"); ps.Add("id", sess.begin()->first); ps.Add("uri", "rtsp://other/"); ps.Add("progName", "p"); event("addSession", ps); } else if (k == 3) { mc::op("a subsession without parameters"); Jzon::Array arr; Jzon::Object o; o.Add("medium", "video"); arr.Add(o); ps.Add("id", "q"); ps.Add("subsessions", arr); event("addSession", ps); }
            else if (k == 4) { mc::op("subsessions that are no list"); ps.Add("id", "q"); ps.Add("subsessions", 3); event("addSession", ps); } else if (k == 5) { mc::op("connect a port that is not received"); MC_CHECK(!sm->connectManyToMany(snk.get(), 77, 6000), "connect", "connected"); MC_CHECK(!sm->connectManyToMany(snk.get(), 77, 0), "connect", "connected"); }
            else if (k == 6) { mc::op("a session of an unknown codec"); Jzon::Array arr; Jzon::Object o; o.Add("medium", "video"); o.Add("codec", "smoke"); o.Add("bandwidth", 1); o.Add("timeStampFrequency", 90000); o.Add("port", 6000); o.Add("channels", 0); arr.Add(o); ps.Add("id", "q"); ps.Add("subsessions", arr); event("addSession", ps); }
            else if (k == 7) { mc::op("a session without id"); if ((int)sess.size() >= maxsess) mc::prune(); Jzon::Array arr; Jzon::Object o; o.Add("medium", "audio"); o.Add("codec", "opus"); o.Add("bandwidth", 1); o.Add("timeStampFrequency", 48000); o.Add("port", 6002); o.Add("channels", 2); arr.Add(o); ps.Add("subsessions", arr); auto before = sm->getSessions(); event("addSession", ps); bool clash = false; for (auto &s : subs) if (s.live && s.port == 6002) clash = true; for (auto &c : cons) if (c.second.port == 6002) clash = true; auto after = sm->getSessions(); MC_CHECK(after.size() == before.size() + !clash, "accept", "the session was %s", clash ? "accepted" : "refused"); for (auto &s : after) if (!before.count(s.first)) { Sess x = Sess(); x.described = true; x.media.push_back("audio/OPUS"); sess[s.first] = x; collect(s.first); for (int i : sess[s.first].subs) subs[i].live = true; } }
            else { mc::op("an unknown action"); event("dance", ps); } break; }
        }
        check_all("this");
        mc::Hash h; for (auto &s : sess) { h.add(s.second.url).add(s.second.dead).add(s.second.described).add(s.second.playing); for (int i : s.second.subs) { h.add(subs[i].live); if (subs[i].live) h.add(subs[i].ms->rtpSource()->waiting.size()); } } h.add(0x77); for (auto &c : cons) h.add(c.second.port).add(c.second.next); mc::state(h.h); mc::outcome(h.h);
    };
    check_all("the start");
    for (char a : pre) run(a, true);
    for (int d = 0; d < depth; d++) run(menu[mc::choose(menu.size())], false);
    settle(); check_all("the end");
    for (auto &c : cons) { Sub &s = subs[c.second.sub]; if (s.live) MC_CHECK(c.second.next + (c.second.first ? c.second.grace : 0) >= s.sent.size(), "lost", "port %d: the last %zu packets were never delivered", s.port, s.sent.size() - c.second.next); }
    // the receiver goes first or last
    if (!warm && mc::param("order", 0)) snk.reset(); sess.clear(); cons.clear(); smp.reset();
    }
    MC_CHECK(world.media.empty() && world.socks.empty() && world.subs.empty(), "leak-end", "%zu media objects and %zu sockets are left when the receiver is gone", world.media.size(), world.socks.size());
    MC_CHECK(world.envs == 0 && world.schedulers == 0, "leak-end", "the event loop outlives the receiver");
    world.arrived.clear(); world.sent.clear(); world.sent.shrink_to_fit(); world.commands.shrink_to_fit(); world.inputs.shrink_to_fit(); world.subs.shrink_to_fit(); world = l5::World();
}
void mc_body() {
    static bool once; if (!once) { once = true; body(true); }
    static int runs; const size_t b0 = __sanitizer_get_current_allocated_bytes(); body(false); const size_t b1 = __sanitizer_get_current_allocated_bytes();
    if (++runs > 3) MC_CHECK(b1 < b0 + 30, "leak", "%zu bytes are left behind", b1 - b0);
}
void mc_setup() { srand(1); utils::setLogLevel(ERROR); }
