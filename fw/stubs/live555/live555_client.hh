// What the receiver uses: SDP descriptions, RTP sources whose packets the
// harness provides, RTSP clients whose requests the harness answers.
class RTPReceptionStats {
public:
    double totNumKBytesReceived() const { return kb; }
    unsigned totNumPacketsReceived() const { return received; }
    unsigned totNumPacketsExpected() const { return expected; }
    unsigned minInterPacketGapUS() const { return mingap; }
    unsigned maxInterPacketGapUS() const { return maxgap; }
    struct timeval const &totalInterPacketGaps() const { return gaps; }
    unsigned jitter() const { return jit; }
    double kb; unsigned received, expected, mingap, maxgap, jit; struct timeval gaps;
};
class RTPReceptionStatsDB {
public:
    RTPReceptionStatsDB() : any(false) { memset(&s, 0, sizeof s); s.mingap = 0x7fffffff; }
    class Iterator { public: Iterator(RTPReceptionStatsDB &d) : db(d), done(false) {} virtual ~Iterator() {} RTPReceptionStats *next(Boolean = False) { if (done || !db.any) return NULL; done = true; return &db.s; } private: RTPReceptionStatsDB &db; bool done; };
    RTPReceptionStats s; bool any;
};
class RTPSource : public FramedSource, public l5::Input {
public:
    virtual Boolean isRTPSource() const { return True; }
    Groupsock *RTPgs() const { return gs; }
    RTPReceptionStatsDB &receptionStatsDB() const { return *db; }
    // packets, provided by the harness; a frame may be longer than the room for it
    std::list<l5::Unit> waiting;
    bool ready() { return isCurrentlyAwaitingData() && !waiting.empty(); }
    void handle() {
        l5::Unit u = waiting.front(); waiting.pop_front(); fFrameSize = u.data.size() < fMaxSize ? u.data.size() : fMaxSize; fNumTruncatedBytes = u.data.size() - fFrameSize; memcpy(fTo, u.data.data(), fFrameSize);
        fPresentationTime.tv_sec = u.pts / 1000000; fPresentationTime.tv_usec = u.pts % 1000000; afterGetting(this);
    }
    RTPSource(UsageEnvironment &e, Groupsock *g) : FramedSource(e), gs(g), db(new RTPReceptionStatsDB) { l5::w->inputs.push_back(this); }
protected:
    virtual ~RTPSource() { for (size_t i = 0; i < l5::w->inputs.size(); i++) if (l5::w->inputs[i] == this) { l5::w->inputs.erase(l5::w->inputs.begin() + i); break; } delete db; }
    virtual void doGetNextFrame() { fTo[0] = fTo[0]; fTo[fMaxSize - 1] = fTo[fMaxSize - 1]; }     // the room must be there
    Groupsock *gs; RTPReceptionStatsDB *db;
};
class ReceiverRTCP : public RTCPInstance { public: ReceiverRTCP(UsageEnvironment &e, Groupsock *g, RTPSource *s) : RTCPInstance(e, g, 0, NULL, NULL, s), src(s) {} RTPSource *src; protected: ~ReceiverRTCP() { src->RTPgs(); } };

class SPropRecord { public: ~SPropRecord() { delete[] sPropBytes; } unsigned sPropLength; unsigned char *sPropBytes; };
inline SPropRecord *parseSPropParameterSets(char const *str, unsigned &n) {
    if (!str) { n = 0; return NULL; }
    std::vector<std::string> v(1); for (char const *p = str; *p; p++) if (*p == ',') v.push_back(""); else v.back() += *p;
    n = v.size(); SPropRecord *r = new SPropRecord[n];
    for (unsigned i = 0; i < n; i++) {
        std::string d; unsigned acc = 0; int bits = 0; for (char c : v[i]) { static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; const char *q = strchr(A, c); if (!q || !c) break; acc = acc << 6 | (q - A); bits += 6; if (bits >= 8) { bits -= 8; d += (char)(acc >> bits & 255); } }
        r[i].sPropLength = d.size(); r[i].sPropBytes = new unsigned char[d.size()]; memcpy(r[i].sPropBytes, d.data(), d.size());
    }
    return r;
}

class MediaSession;
class MediaSubsession {
public:
    MediaSession &parentSession() { return parent; }
    unsigned short clientPortNum() const { return port; }
    unsigned char rtpPayloadFormat() const { return pt; }
    char const *mediumName() const { return medium.c_str(); }
    char const *codecName() const { return codec.empty() ? NULL : codec.c_str(); }
    char const *protocolName() const { return "RTP"; }
    unsigned rtpTimestampFrequency() const { return freq; }
    unsigned numChannels() const { return chans; }
    char const *fmtp_spropparametersets() const { return sprop.c_str(); }
    Boolean initiate(int = -1) {
        if (read) return True;
        if (codec.empty() || l5::w->refuse_port.count(want) || (want && l5::w->refuse_port.count(-1))) { port = 0; return False; }
        if (want) port = want & ~1; else { port = 40000; while (l5::w->ports.count(port)) port += 2; }
        static const char *OK[] = {"H264", "H265", "VP8", "JPEG", "OPUS", "PCMU", "MPEG4-GENERIC", "L16", "MPA", "THEORA"}; bool ok = false; for (auto *c : OK) if (codec == c) ok = true;
        if (!ok) { port = 0; return False; }
        struct in_addr a; a.s_addr = 0; rg = new Groupsock(*env, a, Port(port), 255); cg = new Groupsock(*env, a, Port(port + 1), 255);
        read = rtp = new RTPSource(*env, rg); rtcp = new ReceiverRTCP(*env, cg, rtp); l5::w->subs.push_back(this); return True;
    }
    void deInitiate() {
        Medium::close(rtcp); rtcp = NULL; Medium::close(read); read = NULL; rtp = NULL; delete rg; rg = NULL; delete cg; cg = NULL;
        for (size_t i = 0; i < l5::w->subs.size(); i++) if (l5::w->subs[i] == this) { l5::w->subs.erase(l5::w->subs.begin() + i); break; }
    }
    RTPSource *rtpSource() { return rtp; }
    RTCPInstance *rtcpInstance() { return rtcp; }
    FramedSource *readSource() { return read; }
    void addFilter(FramedFilter *f) { if (!f || f->inputSource() != read) return; read = f; }
    MediaSink *sink; void *miscPtr;
    MediaSubsession(UsageEnvironment *e, MediaSession &p) : sink(NULL), miscPtr(NULL), want(0), pt(0), freq(0), chans(1), env(e), parent(p), port(0), rtp(NULL), read(NULL), rtcp(NULL), rg(NULL), cg(NULL) {}
    ~MediaSubsession() { deInitiate(); }
    int want; unsigned pt, freq, chans; std::string medium, codec, sprop;
private:
    UsageEnvironment *env; MediaSession &parent; unsigned short port; RTPSource *rtp; FramedSource *read; RTCPInstance *rtcp; Groupsock *rg, *cg;
    friend class MediaSession;
};
class MediaSession : public Medium {
public:
    static MediaSession *createNew(UsageEnvironment &e, char const *sdp) { MediaSession *s = new MediaSession(e); if (!s->parse(sdp)) { Medium::close(s); return NULL; } return s; }
    Boolean hasSubsessions() const { return !subs.empty(); }
    char *absStartTime() const { return abs.empty() ? NULL : (char*)abs.c_str(); }
    char *absEndTime() const { return NULL; }
    double playStartTime() const { return from; }
    double playEndTime() const { return to; }
    char const *sessionName() const { return name.c_str(); }
    std::vector<MediaSubsession*> subs; std::string name, abs; double from, to;
protected:
    MediaSession(UsageEnvironment &e) : Medium(e), from(0), to(0) {}
    virtual ~MediaSession() { for (auto *s : subs) delete s; }
    // lines end with carriage returns, newlines or both
    bool parse(char const *p) {
        if (!p) return false;
        MediaSubsession *cur = NULL;
        while (*p) {
            std::string l; while (*p && *p != '\r' && *p != '\n') l += *p++; while (*p == '\r' || *p == '\n') p++;
            if (l.empty()) continue; if (l.size() < 2 || l[1] != '=' || l[0] < 'a' || l[0] > 'z') return false;
            char m[40], c[40]; int po; unsigned a, b, n; double x, y;
            if (l[0] == 'm') {
                int k = sscanf(l.c_str(), "m=%39s %d RTP/AVP %u", m, &po, &a); if (k != 3) { cur = NULL; continue; }
                cur = new MediaSubsession(&envir(), *this); subs.push_back(cur); cur->medium = m; cur->want = po; cur->port = po; cur->pt = a;
                if (a == 0) { cur->codec = "PCMU"; cur->freq = 8000; } else if (a == 14) { cur->codec = "MPA"; cur->freq = 90000; } else if (a == 26) { cur->codec = "JPEG"; cur->freq = 90000; } else if (a == 10 || a == 11) { cur->codec = "L16"; cur->freq = 44100; cur->chans = a == 10 ? 2 : 1; }
            } else if (!cur && l[0] == 's') name = l.substr(2);
            else if (cur && (n = 1, sscanf(l.c_str(), "a=rtpmap: %u %39[^/]/%u/%u", &a, c, &b, &n) >= 3) && a == cur->pt) { cur->codec = c; for (auto &q : cur->codec) q = toupper(q); cur->freq = b; cur->chans = n; }
            else if (cur && l.compare(0, 7, "a=fmtp:") == 0) { size_t q = l.find("sprop-parameter-sets="); if (q != std::string::npos) { cur->sprop = l.substr(q + 21); cur->sprop = cur->sprop.substr(0, cur->sprop.find(';')); } }
            else if (!cur && sscanf(l.c_str(), "a=range: npt = %lg - %lg", &x, &y) == 2) { from = x; to = y; }
            else if (!cur && l.compare(0, 14, "a=range:clock=") == 0) abs = l.substr(14);
        }
        for (auto *x : subs) if (x->codec.empty()) return false;       // unknown payload format
        return true;
    }
};
class MediaSubsessionIterator { public: MediaSubsessionIterator(MediaSession const &s) : m(s), i(0) {} virtual ~MediaSubsessionIterator() {} MediaSubsession *next() { return i < m.subs.size() ? m.subs[i++] : NULL; } void reset() { i = 0; } private: MediaSession const &m; size_t i; };

class RTSPClient : public Medium {
public:
    typedef void (responseHandler)(RTSPClient *c, int resultCode, char *resultString);
    unsigned sendDescribeCommand(responseHandler *h, void* = NULL) { return send("DESCRIBE", h, NULL); }
    unsigned sendOptionsCommand(responseHandler *h, void* = NULL) { return send("OPTIONS", h, NULL); }
    unsigned sendSetupCommand(MediaSubsession &s, responseHandler *h, Boolean = False, Boolean = False, Boolean = False, void* = NULL) { s.mediumName(); return send("SETUP", h, &s); }
    unsigned sendPlayCommand(MediaSession &s, responseHandler *h, double = 0.0, double = -1.0, float = 1.0f, void* = NULL) { s.hasSubsessions(); return send("PLAY", h, NULL); }
    unsigned sendPlayCommand(MediaSession &s, responseHandler *h, char const*, char const* = NULL, float = 1.0f, void* = NULL) { s.hasSubsessions(); return send("PLAY", h, NULL); }
    unsigned sendTeardownCommand(MediaSession &s, responseHandler *h, void* = NULL) { s.hasSubsessions(); return send("TEARDOWN", h, NULL); }
    unsigned sendGetParameterCommand(MediaSession &s, responseHandler *h, char const*, void* = NULL) { s.hasSubsessions(); return send("GET_PARAMETER", h, NULL); }
    unsigned sessionTimeoutParameter() const { return timeout; }
    char const *url() const { return u.c_str(); }
    std::string u; unsigned timeout;
protected:
    RTSPClient(UsageEnvironment &e, char const *url, int, char const*, portNumBits, int) : Medium(e), u(url), timeout(0), seq(0) {}
    virtual ~RTSPClient() { auto &c = l5::w->commands; for (size_t i = 0; i < c.size(); ) if (c[i].client == this) c.erase(c.begin() + i); else i++; }
    unsigned send(char const *what, responseHandler *h, MediaSubsession *sub) {
        { l5::Request r = {what, u, l5::now()}; l5::w->sent.push_back(r); }
        if (l5::w->refuse_send) { if (h) h(this, -111, strDup("Connection refused")); return 0; }
        if (h) { l5::Command c = {what, this, h, sub}; l5::w->commands.push_back(c); } return ++seq;
    }
private:
    unsigned seq;
};
