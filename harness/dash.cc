// DASH publication: every sequence of access units / audio frames within the
// menus goes through the real Dasher; everything it leaves on disk (segments,
// init segments, MPD) is parsed and compared with the media that went in, and
// the published state is examined after every file operation.
#include <cmath>
#include "filters.hh"
#include "bmff.hh"
#include "modules/dasher/Dasher.hh"
#include <tinyxml2.h>
#include <dlfcn.h>
#include <dirent.h>
#include <unistd.h>
#include <malloc.h>
#include <sys/uio.h>
#include <errno.h>
#include <fstream>
#include <sstream>

// ---- file operations -------------------------------------------------------
static std::function<void(const char*, const char*)> fs_hook;
static bool in_hook = false;
static void fs_op(const char *what, const char *path) { if (fs_hook && !in_hook) { in_hook = true; fs_hook(what, path); in_hook = false; } }
static std::map<FILE*, std::string> open_files;
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
static int faults = 0;        // calls that may still fail
static bool faulted = false;  // something failed in this execution
static bool fault(const char *what, const char *path) {
    if (!fs_hook || in_hook || faults <= 0) return false;
    in_hook = true; bool r = mc::choose(2); if (r) { faults--; faulted = true; const char *n = strrchr(path, '/'); mc::note("%s %s fails", what, n ? n + 1 : path); } in_hook = false; return r;
}
static bool ours(int fd, std::string &p) { for (auto &x : open_files) if (fileno(x.first) == fd) { p = x.second; return true; } return false; }
extern "C" {
ssize_t write(int fd, const void *b, size_t n) { static ssize_t (*f)(int, const void*, size_t) = real<ssize_t(*)(int, const void*, size_t)>("write"); std::string p; if (fs_hook && !in_hook && faults > 0 && ours(fd, p) && fault("writing", p.c_str())) { if (n > 1) { ssize_t k = f(fd, b, n / 2); (void)k; } errno = ENOSPC; return -1; } return f(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) { static ssize_t (*f)(int, const struct iovec*, int) = real<ssize_t(*)(int, const struct iovec*, int)>("writev"); std::string p; if (fs_hook && !in_hook && faults > 0 && ours(fd, p) && fault("writing", p.c_str())) { errno = ENOSPC; return -1; } return f(fd, v, c); }
FILE *fopen(const char *p, const char *m) { static FILE *(*f)(const char*, const char*) = real<FILE*(*)(const char*, const char*)>("fopen"); if (*m != 'r' && fault("opening", p)) { errno = EMFILE; return NULL; } FILE *r = f(p, m); if (r && fs_hook && !in_hook && *m != 'r') { open_files[r] = p; fs_op("opened", p); } return r; }
FILE *fopen64(const char *p, const char *m) { static FILE *(*f)(const char*, const char*) = real<FILE*(*)(const char*, const char*)>("fopen64"); if (*m != 'r' && fault("opening", p)) { errno = EMFILE; return NULL; } FILE *r = f(p, m); if (r && fs_hook && !in_hook && *m != 'r') { open_files[r] = p; fs_op("opened", p); } return r; }
int fclose(FILE *x) { static int (*f)(FILE*) = real<int(*)(FILE*)>("fclose"); std::string p; if (fs_hook && !in_hook && open_files.count(x)) { p = open_files[x]; open_files.erase(x); } int r = f(x); if (!p.empty()) fs_op("written", p.c_str()); return r; }
int remove(const char *p) { static int (*f)(const char*) = real<int(*)(const char*)>("remove"); int r = f(p); fs_op("removed", p); return r; }
int unlink(const char *p) { static int (*f)(const char*) = real<int(*)(const char*)>("unlink"); int r = f(p); fs_op("removed", p); return r; }
int rename(const char *a, const char *b) { static int (*f)(const char*, const char*) = real<int(*)(const char*, const char*)>("rename"); if (fault("renaming", b)) { errno = EIO; return -1; } int r = f(a, b); fs_op("renamed", b); return r; }
}
static std::string slurp(const std::string &p) { std::string s; if (FILE *f = fopen(p.c_str(), "rb")) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); } return s; }
static bool exists(const std::string &p) { return access(p.c_str(), F_OK) == 0; }

// ---- sources ---------------------------------------------------------------
struct VQ : VideoFrameQueue { VQ(ConnectionData c, const StreamInfo *si, unsigned n, unsigned bytes) : VideoFrameQueue(c, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(si->video.codec, bytes); } };
struct AQ : AudioFrameQueue { AQ(ConnectionData c, const StreamInfo *si, unsigned n) : AudioFrameQueue(c, si, n) { for (unsigned i = 0; i < max; i++) { InterleavedAudioFrame *f = InterleavedAudioFrame::createNew(si->audio.channels, si->audio.sampleRate, 2048, si->audio.codec, S16); f->setSamples(1024); frames[i] = f; } } };
struct In : public HeadFilter {
    StreamInfo si; FrameQueue *q; unsigned bytes; std::function<void(Frame*)> fill;
    In(StreamType t) : HeadFilter(1, REGULAR, false), si(t), q(NULL), bytes(256) { fType = RECEIVER; }
    FrameQueue *allocQueue(ConnectionData c) { if (si.type == VIDEO) q = new VQ(c, &si, mc::param("slots", 64), bytes); else q = new AQ(c, &si, mc::param("aslots", 250)); return q; }
    bool doProcessFrame(std::map<int, Frame*> &d, int &ret) { ret = 0; if (!fill) return false; Frame *f = d.begin()->second; fill(f); f->setConsumed(true); return true; }
    void doGetState(Jzon::Object &) {}
    bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
    void push(std::function<void(Frame*)> f) { int r; fill = f; processFrame(r); fill = nullptr; if (q->getElements() + 1 >= (si.type == VIDEO ? mc::param("slots", 64) : mc::param("aslots", 250))) mc::harness_error("the queue is too small"); }
};

// ---- reference -------------------------------------------------------------
struct Unit { int64_t t, d; std::string data; bool intra; int profile, chan; };          // an access unit or an audio frame
struct Nal { int64_t t, d; std::string raw, nal; int kind; unsigned w, h; };   // kind: 0 slice, 1 intra slice, 2 AUD, 3 VPS, 4 SPS, 5 PPS, 6 other, 7 nothing
struct Rep {
    int id; bool video, live, joined, forced, lossy; std::unique_ptr<In> in;
    std::deque<Nal> fed; std::deque<Unit> afed;
    std::vector<Unit> units; Unit cur; bool open;
    std::string vps, sps, pps, ivps, isps, ipps; unsigned w, h; bool header, initDue;
    size_t cut;             // units before this index are in segments already written (first unit: the first intra one)
    std::vector<size_t> cuts; bool any; uint64_t firstT, endT; uint32_t seq; int bitrate; bool rateKnown;
    int profile, sfi, chan, iprofile, ichan; int mpdChan, mpdW, mpdH, mpdRate;
    unsigned taller = 0;
    Rep() : id(0), video(true), live(true), joined(false), forced(false), lossy(false), open(false), w(0), h(0), header(false), initDue(false), cut(0), any(false), firstT(0), endT(0), seq(0), bitrate(0), rateKnown(false), profile(1), sfi(3), chan(2), iprofile(0), ichan(0), mpdChan(0), mpdW(0), mpdH(0), mpdRate(0) {}
};
struct Entry { uint64_t t, d; };
struct Published { bool ok; std::map<std::string, std::vector<Entry>> tl; std::map<std::string, int> ts; std::map<std::string, std::map<int, std::map<std::string, std::string>>> reps; std::map<std::string, std::string> media, ini, mime; std::map<std::string, std::string> root; Published() : ok(false) {} };

static std::string dir, mpdp;
static const char *BASE = "b";
static Published published() {
    Published p; tinyxml2::XMLDocument d; std::string s = slurp(mpdp);
    if (d.Parse(s.data(), s.size()) != tinyxml2::XML_SUCCESS) return p;
    auto *root = d.FirstChildElement("MPD"); if (!root) return p;
    for (auto *a = root->FirstAttribute(); a; a = a->Next()) p.root[a->Name()] = a->Value();
    auto *per = root->FirstChildElement("Period"); if (!per) return p;
    for (auto *as = per->FirstChildElement("AdaptationSet"); as; as = as->NextSiblingElement("AdaptationSet")) {
        std::string id = as->Attribute("mimeType") && std::string(as->Attribute("mimeType")).find("video") == 0 ? "v" : "a";
        auto *st = as->FirstChildElement("SegmentTemplate"); if (!st) return p;
        p.ts[id] = st->IntAttribute("timescale"); p.media[id] = st->Attribute("media"); p.ini[id] = st->Attribute("initialization"); p.tl[id];
        auto *tl = st->FirstChildElement("SegmentTimeline");
        if (tl) for (auto *e = tl->FirstChildElement("S"); e; e = e->NextSiblingElement("S")) { Entry x; x.t = strtoull(e->Attribute("t"), NULL, 10); x.d = strtoull(e->Attribute("d"), NULL, 10); p.tl[id].push_back(x); }
        for (auto *r = as->FirstChildElement("Representation"); r; r = r->NextSiblingElement("Representation")) { auto &m = p.reps[id][atoi(r->Attribute("id"))]; for (auto *a = r->FirstAttribute(); a; a = a->Next()) m[a->Name()] = a->Value(); auto *cc = r->FirstChildElement("AudioChannelConfiguration"); if (cc) m["channels"] = cc->Attribute("value"); }
    }
    p.ok = true; return p;
}
static std::string expand(std::string t, int rep, uint64_t time) {
    size_t i; while ((i = t.find("$RepresentationID$")) != std::string::npos) t.replace(i, 18, std::to_string(rep));
    while ((i = t.find("$Time$")) != std::string::npos) t.replace(i, 6, std::to_string(time));
    return dir + "/" + t;
}

static bool hevc;
static std::string nalu(int kind, unsigned n, unsigned salt) {
    std::string s; int t;
    if (hevc) { static const int T[] = {1, 19, 35, 32, 33, 34, 39}; t = T[kind]; if (kind == 1) t = 19 + salt % 3; if (kind == 0) t = salt % 2; s += (char)(t << 1); s += 1; }
    else { static const int T[] = {0x41, 0x65, 0x09, 0, 0x67, 0x68, 0x06}; s += (char)T[kind]; }
    for (unsigned i = 0; i < n; i++) s += (char)(3 + (salt * 37 + i * 11) % 240);
    return s;
}

void mc_setup() { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 2000 << 20); }

struct World {
    std::unique_ptr<Dasher> d; std::vector<std::unique_ptr<Rep>> reps; std::map<std::string, std::vector<Entry>> seen;
    int seg, maxseg, nextId; unsigned bytes; bool origin; int64_t org; bool dirty; bool dts; bool withVideo; unsigned rnd; std::map<std::string, size_t> count; uint64_t lastMpd; unsigned mseg;
    World() : nextId(1), bytes(mc::param("bytes", 256)), origin(false), org(0), dirty(false), dts(true), withVideo(false), rnd(0), lastMpd(0) {}

    int64_t scale(const Rep &r) { return r.video ? 12800 : 48000; }
    double tb(const Rep &r, int64_t t) { return (double)(t - org) * scale(r) / 1e6; }
    int64_t ft(const Rep &r, int64_t t) { return (t - org) * scale(r) / 1000000; }

    void add(bool video, int chan = 2, int sfi = 3, int profile = 1) {
        std::unique_ptr<Rep> r(new Rep); r->id = nextId++; r->video = video; r->profile = profile; r->sfi = sfi; r->chan = chan;
        r->in.reset(new In(video ? VIDEO : AUDIO)); r->in->setId(100 + r->id);
        if (video) { r->in->si.video.codec = hevc ? H265 : H264; r->in->si.setCodecDefaults(); r->in->bytes = bytes; withVideo = true; }
        else { r->in->si.audio.codec = AAC; r->in->si.audio.channels = chan; r->in->si.audio.sampleRate = 48000; r->in->si.audio.sampleFormat = S16; }
        MC_CHECK(r->in->connectOneToMany(d.get(), r->id), "connect", "connection refused");
        reps.push_back(std::move(r));
    }
    // one NAL into a representation's queue
    int64_t reorder = 0;      // presentation comes this long after decoding
    void nal(Rep &r, int64_t d, int kind, const std::string &n, unsigned w = 64, unsigned h = 48) {
        static const char SC[] = {0, 0, 0, 1}; int style = rnd++ % 3; const int64_t t = d + reorder;
        Nal x; x.t = t; x.d = d; x.nal = n; x.kind = kind; x.w = w; x.h = h; x.raw = kind == 7 ? "" : (style == 0 ? std::string(SC, 4) : style == 1 ? std::string(SC + 1, 3) : std::string()) + n;
        bool withDts = dts;
        r.in->push([&](Frame *f) { VideoFrame *v = dynamic_cast<VideoFrame*>(f); memcpy(f->getDataBuf(), x.raw.data(), x.raw.size()); f->setLength(x.raw.size()); f->setPresentationTime(usec(t)); f->setDecodeTime(withDts ? usec(d) : NO_DTS); v->setSize(w, h); });
        r.fed.push_back(x);
    }
    void audio(Rep &r, int64_t t, unsigned n, unsigned salt) {
        std::string s; s += (char)0xff; s += (char)0xf1; s += (char)(r.profile << 6 | r.sfi << 2 | (r.chan >> 2 & 1)); s += (char)((r.chan & 3) << 6); s += (char)0; s += (char)0; s += (char)0xfc;
        std::string p; for (unsigned i = 0; i < n; i++) p += (char)(salt * 41 + i * 13);
        r.in->push([&](Frame *f) { memcpy(f->getDataBuf(), (s + p).data(), 7 + n); f->setLength(7 + n); f->setPresentationTime(usec(t)); f->setDecodeTime(NO_DTS); AudioFrame *a = dynamic_cast<AudioFrame*>(f); a->setSamples(1024); a->setChannels(r.chan); });
        Unit u; u.t = u.d = t; u.data = p; u.intra = true; u.profile = r.profile; u.chan = r.chan; r.afed.push_back(u);
    }
    // reference: what the representation's parser makes of one NAL
    void take(Rep &r, const Nal &n) {
        if (n.d < org) return;
        if (n.kind == 7) return;
        if (n.kind == 8) return;        // unknown type
        if (n.kind == 3) r.vps = n.nal; if (n.kind == 4 && (hevc || n.nal.size() >= 4)) r.sps = n.nal; if (n.kind == 5) r.pps = n.nal;
        bool emitted = false;
        if (r.open && (n.kind == 2 || n.d > r.cur.d)) { r.units.push_back(r.cur); r.open = false; emitted = true; }
        if (!r.sps.empty() && !r.pps.empty() && (!hevc || !r.vps.empty())) { r.ivps = r.vps; r.isps = r.sps; r.ipps = r.pps; r.vps.clear(); r.sps.clear(); r.pps.clear(); r.initDue = true; }
        if (emitted) { if (r.initDue) { r.header = true; r.initDue = false; hw[r.id] = std::make_pair(r.w, r.h); hs[r.id] = std::make_pair(r.ivps + "|" + r.isps, r.ipps); } if (r.units.back().intra || started[r.id]) started[r.id] = true; else { r.units.pop_back(); } mw[r.id] = std::make_pair(r.w, r.h); }
        if (n.kind <= 1) {
            if (!r.open) { r.cur.data.clear(); r.cur.intra = false; r.open = true; }
            uint32_t l = n.nal.size(); char b[4] = {(char)(l >> 24), (char)(l >> 16), (char)(l >> 8), (char)l};
            r.cur.data += std::string(b, 4) + n.nal; r.cur.t = n.t; r.cur.d = n.d; if (n.kind == 1) r.cur.intra = true; r.w = n.w; r.h = n.h;
        }
    }
    std::map<int, std::pair<unsigned, unsigned>> hw, mw; std::map<int, std::pair<std::string, std::string>> hs; std::map<int, bool> started;

    std::map<std::string, std::string> inits; bool mpdSeen = false;
    // the state a player can see, at any moment
    void visible(const char *what, const char *path) {
        std::string f = path; if (f.compare(0, dir.size(), dir)) return;
        mc::note("%s %s", what, path + dir.size() + 1);
        if (f == mpdp) dirty = true;
        if (f.size() > 9 && f.compare(f.size() - 9, 9, "_init.m4a") == 0 && strcmp(what, "opened")) { std::string now = slurp(f); MC_CHECK(inits[f] != now, "init-again", "%s was written again, unchanged", path + dir.size() + 1); inits[f] = now; }
        Published p = published(); const char *fn = path + dir.size() + 1;
        if (p.ok) mpdSeen = true;
        MC_CHECK(p.ok || !mpdSeen, "torn", "after %s was %s, the MPD is not complete", fn, what);
        if (!p.ok) return;
        for (auto &as : p.tl) for (auto &rp : p.reps[as.first]) {
            Rep *r = rep(rp.first); if (!r) continue;
            for (auto &e : as.second) {
                std::string n = expand(p.media[as.first], rp.first, e.t);
                MC_CHECK_GO(exists(n), late(r, e) ? "late-representation" : "advertised", "after %s was %s, the MPD advertises %s, which does not exist", path + dir.size() + 1, what, n.c_str() + dir.size() + 1);
                if (!exists(n)) continue;
                try { bmff::segment(slurp(n), r->video); } catch (bmff::Bad &b) { mc::fail("incomplete", "after %s was %s, the MPD advertises %s, which is not a complete segment: %s", path + dir.size() + 1, what, n.c_str() + dir.size() + 1, b.why.c_str()); }
            }
            std::string n = expand(p.ini[as.first], rp.first, 0);
            if (exists(n)) { try { bmff::init(slurp(n), r->video); } catch (bmff::Bad &b) { mc::fail("torn", "after %s was %s, the MPD advertises %s, which is not complete: %s", fn, what, n.c_str() + dir.size() + 1, b.why.c_str()); } }
            if (r->header || !r->video) MC_CHECK(exists(n), "advertised", "after %s was %s, the MPD advertises %s, which does not exist", path + dir.size() + 1, what, n.c_str() + dir.size() + 1);
        }
    }
    bool seenEntry(const std::string &as, const Entry &e) { for (auto &x : seen[as]) if (x.t == e.t) return true; return false; }
    bool late(Rep *r, const Entry &e) { return r->any ? e.t < r->firstT : seenEntry(r->video ? "v" : "a", e); }
    Rep *rep(int id) { for (auto &r : reps) if (r->id == id && r->live) return r.get(); return NULL; }

    // new state of the MPD and the directory, after a processing step
    void examine() {
        if (faulted) return;
        Published p = published();
        MC_CHECK(p.ok, "mpd", "the MPD is not well formed");
        std::set<std::string> expect; expect.insert(mpdp);
        for (auto &asn : {std::string("v"), std::string("a")}) {
            std::vector<Entry> &old = seen[asn]; std::vector<Entry> now = p.tl.count(asn) ? p.tl[asn] : std::vector<Entry>();
            bool video = asn == "v";
            // the new list is the old one plus at most one entry, minus what falls out of the window
            size_t fresh = 0; while (fresh < now.size() && !(old.size() && now[now.size() - 1 - fresh].t == old.back().t)) fresh++;
            MC_CHECK(fresh <= 1 || old.empty(), "timeline", "%zu segments were added to the timeline at once", fresh);
            std::vector<Entry> want = old; if (fresh) want.push_back(now.back()); while (want.size() > (size_t)maxseg && (fresh || want.size() == 0)) want.erase(want.begin());
            bool same = want.size() == now.size(); for (size_t i = 0; same && i < want.size(); i++) same = want[i].t == now[i].t && want[i].d == now[i].d;
            MC_CHECK(same || flushed(asn, now), "timeline", "the timeline lists %zu segments after %zu (%zu new; at most %d are kept)", now.size(), old.size(), fresh, maxseg);
            if (fresh) for (auto &r : reps) if (r->live && r->video == video) segment(*r, p, asn, now.back());
            bool anyLive = false; for (auto &r : reps) anyLive |= r->live && r->video == video;
            MC_CHECK(anyLive || now.empty(), "timeline", "the timeline lists %zu segments of representations that were removed", now.size());
            old = now;
            if (!now.empty()) MC_CHECK(p.ts[asn] == (video ? 12800 : 48000), "mpd", "timescale %d", p.ts[asn]);
            for (auto &r : reps) if (r->live && r->video == video) {
                MC_CHECK(!r->any || p.reps[asn].count(r->id), "mpd", "representation %d is not in the MPD", r->id);
                if (r->any) { auto &m = p.reps[asn][r->id];
                    if (video) MC_CHECK(atoi(m["width"].c_str()) == r->mpdW && atoi(m["height"].c_str()) == r->mpdH, "mpd", "representation %d is %sx%s, the video is %dx%d", r->id, m["width"].c_str(), m["height"].c_str(), r->mpdW, r->mpdH);
                    else MC_CHECK(atoi(m["audioSamplingRate"].c_str()) == 48000 && atoi(m["channels"].c_str()) == r->mpdChan, "mpd", "representation %d has %s Hz, %s channels", r->id, m["audioSamplingRate"].c_str(), m["channels"].c_str());
                    MC_CHECK(atoi(m["bandwidth"].c_str()) == r->mpdRate, "mpd", "representation %d has bandwidth %s, expected %d", r->id, m["bandwidth"].c_str(), r->mpdRate); }
                for (auto &e : now) if (r->any && e.t >= r->firstT) expect.insert(expand(p.media[asn], r->id, e.t));
                std::string ini = video ? dir + "/" + BASE + "_" + std::to_string(r->id) + "_init.m4v" : dir + "/" + BASE + "_" + std::to_string(r->id) + "_init.m4a";
                if (exists(ini)) expect.insert(ini);
            }
            for (auto &x : p.reps[asn]) MC_CHECK(rep(x.first) != NULL, "mpd", "the MPD keeps representation %d, which was removed", x.first);
        }
        DIR *dd = opendir(dir.c_str()); std::set<std::string> have;
        while (struct dirent *e = readdir(dd)) if (e->d_name[0] != '.') { std::string n = dir + "/" + e->d_name; bool gone = false; for (auto &r : reps) if (!r->live && n.find(dir + "/" + BASE + "_" + std::to_string(r->id) + "_") == 0) gone = true; if (!gone) have.insert(n); }
        closedir(dd);
        for (auto &n : have) MC_CHECK(expect.count(n), "left-behind", "%s stays on disk although it is not advertised any more", n.c_str() + dir.size() + 1);
        for (auto &n : expect) MC_CHECK(have.count(n), "advertised", "%s is advertised but does not exist", n.c_str() + dir.size() + 1);
        MC_CHECK(p.root["type"] == "dynamic" && p.root["timeShiftBufferDepth"] == "PT" + std::to_string(maxseg * seg) + ".0S" && p.root["minimumUpdatePeriod"] == "PT" + std::to_string(seg) + ".0S", "mpd", "the MPD describes a window of %s, updated every %s", p.root["timeShiftBufferDepth"].c_str(), p.root["minimumUpdatePeriod"].c_str());
    }
    bool flushed(const std::string &asn, const std::vector<Entry> &now) { if (!now.empty()) return false; for (auto &r : reps) if (r->live && r->video == (asn == "v")) return false; return true; }

    void segment(Rep &r, Published &p, const std::string &asn, const Entry &e) {
        std::string n = expand(p.media[asn], r.id, e.t), data = slurp(n); bmff::Segment g; const int64_t target = seg * scale(r);
        try { g = bmff::segment(data, r.video); } catch (bmff::Bad &b) { mc::fail("malformed", "%s: %s", n.c_str() + dir.size() + 1, b.why.c_str()); }
        const char *f = n.c_str() + dir.size() + 1;
        size_t s = r.cut, k = g.samples.size();
        bool skipped = false;
        if (r.video && r.lossy && s < r.units.size() && g.tfdt > tb(r, r.units[s].d) + 1.01) {       // what was complete while the newcomer had nothing is lost
            mc::note("representation %d lost what was complete before representation %d had a segment", r.id, reps.back()->id);
            MC_CHECK_GO(false, "join-loses-segment", "%s begins at %llu, the previous segment ends at %llu", f, (unsigned long long)g.tfdt, (unsigned long long)r.endT);
            while (s < r.units.size() && g.tfdt > tb(r, r.units[s].d) + 1.01) s++;
            r.cut = s; skipped = true;
        }
        MC_CHECK(s < r.units.size(), "samples", "%s holds nothing that was received", f);
        if (!r.video && k + s > r.units.size()) mc::fail("samples", "%s has %zu frames, only %zu were left", f, k, r.units.size() - s);
        MC_CHECK(s + k <= r.units.size(), "samples", "%s has %zu samples, only %zu complete pictures were left", f, k, r.units.size() - s);
        if (r.video) MC_CHECK(r.units[s].intra, "start", "%s does not begin with an intra picture", f);
        // the pictures it should hold: all up to its end, except those which do not fit in a segment any more
        std::vector<size_t> idx; size_t en = s, kept = 0;
        if (r.video) for (; en < r.units.size() && (en == s || tb(r, r.units[en].d) + 1.5 < (double)(g.tfdt + g.duration)); en++) { if (kept + r.units[en].data.size() > MAX_DAT - 4096) continue; kept += r.units[en].data.size(); idx.push_back(en); }
        else for (; en < s + k; en++) idx.push_back(en);
        MC_CHECK(idx.size() == k, "samples", "%s has %zu samples, there are %zu pictures until its end", f, k, idx.size());
        for (size_t i = 0; i < k; i++) {
            const Unit &u = r.units[idx[i]]; const bmff::Sample &x = g.samples[i];
            MC_CHECK(x.data == u.data, "samples", "%s: sample %zu (%zu bytes) is not picture/frame %zu (%zu bytes)", f, i, x.data.size(), s + i, u.data.size());
            MC_CHECK(fabs(x.cto - (tb(r, u.t) - tb(r, u.d))) <= 1.01, "times", "%s: sample %zu has a composition offset %d, it is presented %.1f after it is decoded", f, i, x.cto, tb(r, u.t) - tb(r, u.d));
            if (r.video) { bool sync = !(x.flags & 0x10000); MC_CHECK(sync == u.intra, "sync-flag", "%s: sample %zu is %smarked as a sync sample", f, i, sync ? "" : "not "); }
            if (r.video) { MC_CHECK(en < r.units.size(), "samples", "%s holds the last picture", f); double du = tb(r, r.units[i + 1 < k ? idx[i + 1] : en].d) - tb(r, u.d); MC_CHECK(x.duration > du - 1.01 && x.duration < du + 1.01, "times", "%s: sample %zu lasts %u, the next picture comes after %.1f", f, i, x.duration, du); }
            else MC_CHECK(x.duration == 1024, "times", "%s: frame %zu lasts %u samples", f, i, x.duration);
        }
        double start = tb(r, r.units[s].d);
        MC_CHECK(g.tfdt > start - 1.01 && g.tfdt < start + 1.01 && fabs((double)g.earliest - g.tfdt - (tb(r, r.units[s].t) - start)) <= 1.01, "times", "%s begins at %llu, its first sample is at %.1f", f, (unsigned long long)g.tfdt, start);
        MC_CHECK(g.sidxDuration == g.duration, "times", "%s: index says %llu, samples last %llu", f, (unsigned long long)g.sidxDuration, (unsigned long long)g.duration);
        MC_CHECK(g.timescale == scale(r), "times", "%s: timescale %u", f, g.timescale);
        if (first(r)) MC_CHECK(e.t == g.earliest && e.d == g.duration, "mpd", "the MPD says %llu+%llu, %s has %llu+%llu", (unsigned long long)e.t, (unsigned long long)e.d, f, (unsigned long long)g.tfdt, (unsigned long long)g.duration);
        if (r.any && !skipped) { if (r.video) MC_CHECK(g.tfdt == r.endT, "contiguous", "%s begins at %llu, the previous segment ends at %llu", f, (unsigned long long)g.tfdt, (unsigned long long)r.endT); MC_CHECK(g.seq == r.seq + 1, "sequence", "%s has sequence number %u after %u", f, g.seq, r.seq); }
        if (!r.any) { r.any = true; r.firstT = e.t; }
        r.endT = g.tfdt + g.duration; r.seq = g.seq; r.lossy = joining(r);
        if (r.video) {
            MC_CHECK(en < r.units.size() && r.units[en].intra, "start", "%s ends before a picture which is not intra", f);
            double tot = tb(r, r.units[en].d) - start, last = tb(r, r.units[en].d) - tb(r, r.units[idx.back()].d);
            MC_CHECK(tot + last + 2 >= target, "short", "%s lasts %.0f of %ld", f, tot, (long)target);
            for (size_t i = s + 1; i < en; i++) if (r.units[i].intra) MC_CHECK(tb(r, r.units[i].d) - start < target, "long", "%s goes on after an intra picture at which it had lasted %.0f of %ld", f, tb(r, r.units[i].d) - start, (long)target);
        } else if (!withVideo) {
            MC_CHECK((int64_t)k * 1024 >= target && ((int64_t)(k - 1) * 1024 < target || r.forced), "short", "%s lasts %zu frames", f, k);
        }
        r.forced = false; r.cut = en; r.cuts.push_back(r.cut);
        r.mpdW = mw[r.id].first; r.mpdH = mw[r.id].second; r.mpdRate = r.bitrate; r.mpdChan = r.ichan;
    }
    bool first(Rep &r) { for (auto &x : reps) if (x->live && x->video == r.video) return x.get() == &r; return false; }

    void initFile(Rep &r) {
        std::string n = dir + "/" + BASE + "_" + std::to_string(r.id) + (r.video ? "_init.m4v" : "_init.m4a"); const char *f = n.c_str() + dir.size() + 1;
        bool due = r.video ? r.header : !r.units.empty();
        MC_CHECK(!due || exists(n), "init", "%s does not exist", f);
        if (!due) return;
        bmff::Init i; try { i = bmff::init(slurp(n), r.video); } catch (bmff::Bad &b) { mc::fail("init", "%s: %s", f, b.why.c_str()); }
        MC_CHECK(i.timescale == scale(r), "init", "%s: timescale %u", f, i.timescale);
        if (r.video) {
            MC_CHECK(i.entry == (hevc ? "hev1" : "avc1"), "init", "%s: sample entry %s", f, i.entry.c_str());
            MC_CHECK(i.width == hw[r.id].first && i.height == hw[r.id].second, "init", "%s: %ux%u, the video is %ux%u", f, i.width, i.height, hw[r.id].first, hw[r.id].second);
            std::vector<std::string> sets; std::string prof;
            try {
                bmff::Cur c(i.config); std::string ty = c.bytes(4); MC_CHECK(ty == (hevc ? "hvcC" : "avcC"), "init", "%s: %s", f, ty.c_str());
                if (!hevc) { if (c.u(1) != 1) bmff::bad("version"); prof = c.bytes(3); if ((c.u(1) & 3) != 3) bmff::bad("length size"); int ns = c.u(1) & 31; while (ns--) { int z = c.u(2); sets.push_back(c.bytes(z)); } ns = c.u(1); while (ns--) { int z = c.u(2); sets.push_back(c.bytes(z)); } if (!c.end()) bmff::bad("length"); }
                else { c.bytes(21); if ((c.u(1) & 3) != 3) bmff::bad("length size"); int na = c.u(1); while (na--) { c.u(1); int ns = c.u(2); while (ns--) { int z = c.u(2); sets.push_back(c.bytes(z)); } } if (!c.end()) bmff::bad("length"); }
            } catch (bmff::Bad &b) { mc::fail("init", "%s: decoder configuration: %s", f, b.why.c_str()); }
            std::vector<std::string> want; std::string a = hs[r.id].first; size_t bar = a.find('|'); if (hevc) want.push_back(a.substr(0, bar)); want.push_back(a.substr(bar + 1)); want.push_back(hs[r.id].second);
            MC_CHECK(sets == want, "init", "%s does not hold the parameter sets of the stream", f);
            if (!hevc && mc::param("avcc", 0)) MC_CHECK_GO(prof == want[0].substr(1, 3), "avcc-profile", "%s: profile, compatibility and level are %02x %02x %02x, the SPS says %02x %02x %02x", f, (unsigned char)prof[0], (unsigned char)prof[1], (unsigned char)prof[2], (unsigned char)want[0][1], (unsigned char)want[0][2], (unsigned char)want[0][3]);
        } else {
            MC_CHECK(i.entry == "mp4a" && (int)i.channels == r.ichan && i.rate == 48000, "init", "%s: %s, %u channels, %u Hz", f, i.entry.c_str(), i.channels, i.rate);
            size_t at = i.config.find("\x05\x02", 8);   // decoder specific information of two bytes
            MC_CHECK(i.config.compare(0, 4, "esds") == 0 && at != std::string::npos && at + 4 <= i.config.size(), "init", "%s: no audio configuration", f);
            unsigned v = (unsigned char)i.config[at + 2] << 8 | (unsigned char)i.config[at + 3];
            MC_CHECK((int)(v >> 11) == r.iprofile + 1 && (int)(v >> 7 & 15) == r.sfi && (int)(v >> 3 & 15) == r.ichan, "init", "%s: object type %u, rate index %u, %u channels; the frames say %d, %d, %d", f, v >> 11, v >> 7 & 15, v >> 3 & 15, r.iprofile + 1, r.sfi, r.ichan);
        }
    }

    void drain() {
        for (;;) {
            size_t moved = 0; std::vector<size_t> before;
            // the origin of the timeline: the earliest frame of the first step
            for (auto &r : reps) before.push_back(r->live ? r->in->q->getElements() : 0);
            if (!origin) { int64_t m = 0; bool any = false; for (auto &r : reps) if (r->live) { int64_t t; if (r->video) { if (r->fed.empty()) continue; t = r->fed.front().d; } else { if (r->afed.empty()) continue; t = r->afed.front().t; } if (!any || t < m) m = t; any = true; } if (any) org = m; }
            int ret; dirty = false; for (auto &r : reps) if (joining(*r)) r->lossy = true;
            d->processFrame(ret);
            size_t k = 0; bool took = false;
            for (auto &r : reps) { size_t now = r->live ? r->in->q->getElements() : 0; for (size_t i = now; i < before[k]; i++) { moved++; took = true; if (r->video) { Nal x = r->fed.front(); r->fed.pop_front(); take(*r, x); } else { Unit u = r->afed.front(); r->afed.pop_front(); if (u.t >= org) { r->units.push_back(u); r->iprofile = u.profile; r->ichan = u.chan; } } } k++; }
            if (took) origin = true;
            if (dirty) { examine(); if (withVideo && !faulted) for (auto &r : reps) if (r->live && !r->video && newVideo()) MC_CHECK(r->cut == r->units.size(), "samples", "the audio segment holds %zu of the %zu frames received so far", r->cut, r->units.size()); }
            if (!moved) break;
        }
        if (!faulted) for (auto &r : reps) if (r->live) {
            initFile(*r);
            if (r->video) { double start = r->cut < r->units.size() ? tb(*r, r->units[r->cut].d) : 0; for (size_t i = r->cut + 1; i < r->units.size(); i++) if (r->units[i].intra) MC_CHECK_GO(tb(*r, r->units[i].d) - start < seg * scale(*r), r->lossy ? "join-loses-segment" : "long", "representation %d: no segment was written at the intra picture %zu, after %.0f of %ld", r->id, i, tb(*r, r->units[i].d) - start, (long)(seg * scale(*r))); }
            if (!r->video && !withVideo && r->units.size() && !r->forced) MC_CHECK((int64_t)(r->units.size() - 1 - r->cut) * 1024 < seg * 48000, "long", "representation %d: %zu frames and no segment", r->id, r->units.size() - r->cut);
        }
        mc::Hash h; for (auto &r : reps) h.add(r->live).add(r->units.size() - r->cut).add(r->open).add(r->any).add(r->cuts.size()); mc::state(h.h);
    }
    size_t vcount = 0;
    bool newVideo() { size_t n = 0; for (auto &r : reps) if (r->video) n += r->cuts.size(); bool x = n != vcount; vcount = n; return x; }
    bool joining(Rep &o) { for (auto &r : reps) if (r->live && r->video && r.get() != &o && r->joined && r->cuts.size() <= 1) return true; return false; }
};

static void event(Dasher &d, const char *action, std::initializer_list<std::pair<const char*, int>> nums) {
    Jzon::Object e, p; e.Add("action", action); for (auto &x : nums) p.Add(x.first, x.second); e.Add("params", p);
    d.pushEvent(Event(e, std::chrono::system_clock::now(), 0)); mc::vclock_ns += 1000000;
}

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static void run() {
    mc::vclock_ns = 1700000000000000000ll; hevc = mc::sparam("codec", "avc") == "hevc"; open_files.clear();
    dir = mc::scratch(); mpdp = dir + "/" + BASE + ".mpd";
    fs_hook = nullptr;
    { DIR *x = opendir(dir.c_str()); while (struct dirent *e = readdir(x)) if (e->d_name[0] != '.') ::unlink((dir + "/" + e->d_name).c_str()); closedir(x); }
    World w; w.seg = mc::param("seg", 1); w.maxseg = mc::param("maxseg", 2); w.dts = mc::param("dts", 1); w.reorder = mc::param("reorder", 0);
    w.d.reset(new Dasher(8)); w.d->setId(1);
    MC_CHECK(w.d->configure(dir, BASE, w.seg, w.maxseg, 0), "configure", "refused");
    const int nv = mc::param("v", 1), na = mc::param("a", 0), depth = mc::param("depth", 6);
    for (int i = 0; i < nv; i++) w.add(true);
    static const int CH[] = {2, 1, 6, 7};
    for (int i = 0; i < na; i++) w.add(false, CH[(i + mc::param("ch", 0)) % 4], mc::param("sfi", 3), mc::param("profile", 1));
    faults = mc::param("faults", 0); faulted = false;
    fs_hook = [&](const char *a, const char *b) { w.visible(a, b); };
    const std::string menu = mc::sparam("menu", "PIHD"); std::vector<int64_t> dts; { std::stringstream s(mc::sparam("dt", "400000")); std::string x; while (std::getline(s, x, '/')) dts.push_back(atoll(x.c_str())); }
    int64_t t = mc::param("t0", 1000000); int64_t at = t + mc::param("askew", 0); unsigned n = 0; mc::Hash oh;
    if (mc::param("bitrate", 0)) for (auto &r : w.reps) { r->bitrate = 100000 * r->id; event(*w.d, "setBitrate", {{"id", r->id}, {"bitrate", r->bitrate}}); }
    int64_t resumed = 0;
    for (int k = 0; k < depth + (faulted ? 6 : 0); k++) {        // after a failure, it has to go on
        if (k == depth) { faults = 0; resumed = t; }
        char c = k < depth ? menu[mc::choose(menu.size())] : 'D'; int64_t dt = k < depth ? dts[mc::choose(dts.size())] : w.seg * 1100000; n++;
        mc::op("%c +%ld us", c, (long)dt);
        if (c == 'X') {          // the newest video representation leaves
            for (size_t i = w.reps.size(); i-- > 0; ) if (w.reps[i]->live && w.reps[i]->video) { w.reps[i]->live = false; w.d->disconnectReader(w.reps[i]->id); bool v = false; for (auto &x : w.reps) v |= x->live && x->video; w.withVideo = v; if (!v) for (auto &x : w.reps) x->forced = true; w.dirty = false; w.examine(); break; }
            continue;
        }
        if (c == 'x') {          // the newest audio representation leaves
            for (size_t i = w.reps.size(); i-- > 0; ) if (w.reps[i]->live && !w.reps[i]->video) { w.reps[i]->live = false; w.d->disconnectReader(w.reps[i]->id); w.dirty = false; w.examine(); break; }
            continue;
        }
        if (c == 'n') {          // an audio representation joins when there is none
            bool j = false; for (auto &r : w.reps) j |= r->live && !r->video; if (j || w.nextId > nv + na + 2) continue; w.add(false, 2, 3, 1); continue;
        }
        if (c == 'N') { if (w.nextId > nv + na + 2) continue; bool j = false; for (auto &r : w.reps) j |= r->live && r->video && (r->open || !r->units.empty()); w.add(true); w.reps.back()->joined = j; continue; }
        if (c == 'B') { size_t i = mc::choose(w.reps.size() + 1); int id = i < w.reps.size() ? w.reps[i]->id : 77; if (i < w.reps.size() && w.reps[i]->live) w.reps[i]->bitrate = 1000 * n; mc::note("bitrate %d for %d", 1000 * n, id); event(*w.d, "setBitrate", {{"id", id}, {"bitrate", (int)(1000 * n)}}); continue; }
        if (c == 'm') { int m = 2 + mc::choose(3); w.maxseg = m; mc::note("maxSeg %d", m); event(*w.d, "configure", {{"maxSeg", m}}); continue; }
        int64_t t1 = t + dt;
        // an access unit at time t in every video representation
        for (auto &rp : w.reps) if (rp->live && rp->video) {
            Rep &r = *rp; unsigned z = w.bytes > 100000 ? w.bytes - 100 : 5 + (n * 7 + r.id) % 23, W = 64 * r.id, H = 48 * r.id + r.taller;
            auto slice = [&](int kind, unsigned salt) { w.nal(r, t, kind, nalu(kind, z + salt, n * 8 + salt), W, H); };
            auto header = [&](unsigned v) { if (hevc) w.nal(r, t, 3, nalu(3, 6, v), W, H); w.nal(r, t, 4, nalu(4, 9 + v % 3, v + 1), W, H); w.nal(r, t, 5, nalu(5, 4, v + 2), W, H); };
            auto other = [&](int type) { std::string s = hevc ? std::string(1, (char)(type << 1)) + "\x01" : std::string(1, (char)type); w.nal(r, t, 8, s + "zz", W, H); };
            switch (c) {
            case 'P': slice(0, 0); break;
            case 'R': H = 48 * r.id + (r.taller = 16 - r.taller); header(n * 5); slice(1, 0); break;       // another height, the same width
            case 'I': slice(1, 0); break;
            case 'H': header(7); slice(1, 0); break;
            case 'C': header(n * 3); slice(1, 0); break;                                   // new parameter sets
            case 'D': w.nal(r, t, 2, nalu(2, 1, 0)); header(7); w.nal(r, t, 6, nalu(6, 5, n)); slice(1, 0); slice(1, 1); break;
            case 'A': w.nal(r, t, 2, nalu(2, 1, 0)); slice(0, 0); slice(0, 1); break;
            case 'S': w.nal(r, t, 6, nalu(6, 5, n)); slice(0, 0); break;
            case 'E': slice(1, 0); if (hevc) { std::string s = nalu(6, 5, n); s[0] = 40 << 1; w.nal(r, t, 6, s); } else other(12); break;   // something after the slices
            case 'Z': slice(0, 0); w.nal(r, t, 7, ""); slice(0, 1); break;
            case 'U': other(hevc ? 41 : 12); slice(1, 0); break;
            case 'W': w.nal(r, t, 4, nalu(4, n % 3, n), W, H); w.nal(r, t, 5, nalu(5, 4, n), W, H); slice(1, 0); break;      // a broken parameter set
            case 'G': { int64_t h = dt / 2, keep = w.reorder, at0 = t; w.reorder = keep + h; slice(0, 0); t += h; w.reorder = keep - h; slice(0, 1); t = at0; w.reorder = keep; break; }      // decoded in another order than presented
            case 'Q': case 'a': break;                                                                // nothing, audio only
            default: mc::harness_error("menu %c", c);
            }
        }
        // audio up to the time of the next picture
        for (auto &rp : w.reps) if (rp->live && !rp->video) {
            if (c == 'Q') { rp->profile = 3 - rp->profile; rp->chan = rp->chan % 7 + 1; }
            int64_t q = at; unsigned j = 0;
            do { w.audio(*rp, q, (n * 5 + j + rp->id) % 17 + 1, n * 3 + j); j++; q = at + (int64_t)j * 1024000000 / 48000; } while (mc::param("aper", 0) ? (int)j < mc::param("aper", 0) : q + 21333 <= t1 + mc::param("askew", 0) && j < 60);
        }
        if (mc::param("aper", 0)) at += mc::param("aper", 0) * 1024000000ll / 48000 + dt; else at = t1 + mc::param("askew", 0);
        t = t1;
        w.drain();
        // what is complete is published, not held
        if (!mc::param("faults", 0) && !w.withVideo) for (auto &rp : w.reps) if (rp->live && !rp->video) MC_CHECK((int64_t)(rp->units.size() - rp->cut) * 1024 < w.seg * 48000 + 1024, "held", "audio representation %d has %zu frames and no segment since", rp->id, rp->units.size() - rp->cut);
    }
    { Jzon::Object o; w.d->getState(o); std::string want; for (auto &r : w.reps) if (r->live) want += std::to_string(r->id) + " ";
      std::string got; const Jzon::Array &a = o.Get("readers").AsArray(); for (auto it = a.begin(); it != a.end(); ++it) got += (*it).ToString() + " ";
      MC_CHECK(o.Get("folder").ToString() == dir + "/" && o.Get("baseName").ToString() == BASE && o.Get("mpdURI").ToString() == mpdp && o.Get("segDurInSec").ToInt() == w.seg && o.Get("maxSegments").ToInt() == w.maxseg && got == want, "state", "the state says %s %s %d s, %d segments, readers %s; expected %s", o.Get("folder").ToString().c_str(), o.Get("mpdURI").ToString().c_str(), o.Get("segDurInSec").ToInt(), o.Get("maxSegments").ToInt(), got.c_str(), want.c_str()); }
    if (faulted) { Published p = published(); for (auto &r : w.reps) if (r->live) { const char *as = r->video ? "v" : "a"; bool ok = p.ok && p.reps[as].count(r->id) && p.tl[as].size() && p.tl[as].back().t >= w.tb(*r, resumed); MC_CHECK(ok, "stalled", "after an operation that failed, representation %d is not published any more", r->id); } }
    for (auto &r : w.reps) { oh.add(r->cuts.size()); for (size_t x : r->cuts) oh.add(x); }
    fs_hook = nullptr;
    w.d.reset(); mc::outcome(oh.h);
}

void mc_body() {
    static int runs = 0; size_t before = &__sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
    run();
    if (before && ++runs > 3) { size_t after = __sanitizer_get_current_allocated_bytes(); MC_CHECK(after < before + 200000, "leak", "%zu bytes are left behind by the DASH filter", after - before); }
}
