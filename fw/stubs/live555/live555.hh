// Model of the live555 library (as of 2015), for compiling and running the
// receiver and the transmitter without it: the event loop works on the
// virtual clock, sources, filters, sinks and the replicator follow the
// library's protocol, packets and frames that would be sent are recorded and
// what arrives is decided by the harness.
#ifndef VERIF_LIVE555_HH
#define VERIF_LIVE555_HH
#include <sys/types.h>
#include <sys/time.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <unistd.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <functional>

typedef bool Boolean;
#define False false
#define True true
typedef unsigned netAddressBits;
typedef unsigned short portNumBits;
typedef unsigned EventTriggerId;
typedef void *TaskToken;
typedef void TaskFunc(void *clientData);
#define _Nonnull

class Medium; class FramedSource; class RTPSink; class Groupsock; class RTSPServer; class ServerMediaSession; class MediaSubsession; class RTSPClient; class RTPSource;

namespace l5 {
struct Task { long id; int64_t at; TaskFunc *f; void *d; };
struct Unit { std::vector<unsigned char> data; int64_t pts; unsigned cut; };                 // what a sink was given
struct Packet { std::vector<unsigned char> head, data; bool marker; int64_t pts; unsigned offset, left; };
struct Command { std::string what; RTSPClient *client; void (*reply)(RTSPClient*, int, char*); MediaSubsession *sub; };
struct Request { std::string what, url; int64_t at; };
struct Input { virtual ~Input() {} virtual bool ready() = 0; virtual void handle() = 0; };      // a socket
struct World {
    std::list<std::function<void()>> arrived;    // replies and goodbyes that came in
    std::vector<Input*> inputs; size_t lastinput;
    bool input_ready() { if (!arrived.empty()) return true; for (auto *i : inputs) if (i->ready()) return true; return false; }
    void input_handle() { if (!arrived.empty()) { auto f = arrived.front(); arrived.pop_front(); f(); return; } for (size_t k = 0; k < inputs.size(); k++) { lastinput = (lastinput + 1) % inputs.size(); if (inputs[lastinput]->ready()) { inputs[lastinput]->handle(); return; } } }
    std::set<Medium*> media; std::set<Groupsock*> socks; std::set<int> ports;
    int servers_refused;                    // how many RTSP ports are in use by others
    long steps, max_steps;                  // guard against processing that never ends
    unsigned ts_low;                        // data a transport stream input collects before passing it on
    std::vector<Command> commands;          // requests sent by RTSP clients and not answered
    std::vector<Request> sent;              // all requests
    std::vector<MediaSubsession*> subs;     // subsessions that are being received
    bool refuse_send;                       // the server cannot be reached
    RTSPServer *server;
    bool refuse_client;                     // creating an RTSP client fails
    std::set<int> refuse_port;              // ports a subsession cannot be initiated on
    long badreads, envs, schedulers, strings;
    void (*fail)(const char *key, const char *fmt, ...);
};
extern World *w;
int64_t now();                              // us, provided by the harness
void advance(int64_t us);
inline void reset(World *x) { *x = World(); x->ts_low = 1; x->max_steps = 20000; w = x; }
}
#define L5FAIL(...) l5::w->fail(__VA_ARGS__)

inline char *strDup(char const *s) { if (!s) return NULL; size_t n = strlen(s) + 1; char *r = new char[n]; memcpy(r, s, n); return r; }
inline netAddressBits our_inet_addr(char const *s) { return inet_addr(s); }

// ---------------------------------------------------------------- environment
class TaskScheduler {
public:
    virtual ~TaskScheduler() { l5::w->schedulers--; }
    virtual TaskToken scheduleDelayedTask(int64_t us, TaskFunc *f, void *d) { l5::Task t; t.id = ++next; t.at = l5::now() + (us < 0 ? 0 : us); t.f = f; t.d = d; auto i = tasks.begin(); while (i != tasks.end() && i->at <= t.at) ++i; tasks.insert(i, t); return (TaskToken)t.id; }
    virtual void unscheduleDelayedTask(TaskToken &t) { for (auto i = tasks.begin(); i != tasks.end(); ++i) if (i->id == (long)t) { tasks.erase(i); break; } t = NULL; }
    virtual void rescheduleDelayedTask(TaskToken &t, int64_t us, TaskFunc *f, void *d) { unscheduleDelayedTask(t); t = scheduleDelayedTask(us, f, d); }
    virtual EventTriggerId createEventTrigger(TaskFunc *f) { for (int i = 0; i < 32; i++) if (!trig[i]) { trig[i] = f; tdata[i] = NULL; return 1u << (31 - i); } return 0; }
    virtual void deleteEventTrigger(EventTriggerId id) { pending &= ~id; for (int i = 0; i < 32; i++) if (id & (1u << (31 - i))) { trig[i] = NULL; tdata[i] = NULL; } }
    virtual void triggerEvent(EventTriggerId id, void *d = NULL) { for (int i = 0; i < 32; i++) if (id & (1u << (31 - i))) tdata[i] = d; pending |= id; }
    virtual void doEventLoop(char volatile *watch = NULL) { for (int i = 0; !(watch && *watch); i++) { if (i > 10000) { L5FAIL("event-loop", "the event loop is entered and never left"); return; } SingleStep(); } }
    virtual void SingleStep(unsigned maxDelay = 0) {
        if (++l5::w->steps > l5::w->max_steps) { L5FAIL("endless", "the event loop is stepped for ever"); }
        int64_t t = l5::now();
        if (!pending && !l5::w->input_ready()) { int64_t until = tick; if (!tasks.empty() && tasks.front().at < until) until = tasks.front().at; if (maxDelay && t + maxDelay < until) until = t + maxDelay; if (until > t) l5::advance(until - t); }
        if (tick <= l5::now()) tick = l5::now() + 10000;
        l5::w->input_handle();
        if (pending) for (int i = 0; i < 32; i++) { last = (last + 1) % 32; unsigned m = 1u << (31 - last); if (pending & m) { pending &= ~m; if (trig[last]) trig[last](tdata[last]); break; } }
        if (!tasks.empty() && tasks.front().at <= l5::now()) { l5::Task x = tasks.front(); tasks.pop_front(); x.f(x.d); }
    }
    size_t waiting() const { return tasks.size(); }
    void internalError() { L5FAIL("internal-error", "the event loop reports an internal error"); }
    unsigned triggers() const { unsigned n = 0; for (int i = 0; i < 32; i++) n += trig[i] != NULL; return n; }
protected:
    TaskScheduler() : next(0), pending(0), last(31), tick(0) { memset(trig, 0, sizeof trig); memset(tdata, 0, sizeof tdata); l5::w->schedulers++; }
    std::list<l5::Task> tasks; long next; TaskFunc *trig[32]; void *tdata[32]; unsigned pending; int last; int64_t tick;
};
class BasicTaskScheduler0 : public TaskScheduler { protected: BasicTaskScheduler0() {} };
class BasicTaskScheduler : public BasicTaskScheduler0 { public: static BasicTaskScheduler *createNew(unsigned = 10000) { return new BasicTaskScheduler(); } protected: BasicTaskScheduler() {} };

class UsageEnvironment {
public:
    Boolean reclaim() { if (l5::w->media.empty() && l5::w->socks.empty()) { delete this; return True; } return False; }
    TaskScheduler &taskScheduler() const { return s; }
    char const *getResultMsg() const { return ""; }
    void setResultMsg(char const*) {}
    void internalError() { L5FAIL("internal-error", "a source is asked for a frame while it is already being asked"); }
    UsageEnvironment &operator<<(char const*) { return *this; }
    UsageEnvironment &operator<<(int) { return *this; }
    UsageEnvironment &operator<<(unsigned) { return *this; }
    UsageEnvironment &operator<<(double) { return *this; }
    UsageEnvironment &operator<<(void*) { return *this; }
protected:
    UsageEnvironment(TaskScheduler &x) : s(x) { l5::w->envs++; }
    virtual ~UsageEnvironment() { l5::w->envs--; }
    TaskScheduler &s;
};
class BasicUsageEnvironment : public UsageEnvironment { public: static BasicUsageEnvironment *createNew(TaskScheduler &s) { return new BasicUsageEnvironment(s); } protected: BasicUsageEnvironment(TaskScheduler &s) : UsageEnvironment(s) {} };

class Port { public: Port(portNumBits n) : p(n) {} portNumBits num() const { return p; } private: portNumBits p; };
class Groupsock {
public:
    Groupsock(UsageEnvironment &env, struct in_addr const &a, Port port, u_int8_t) : local(port.num()), addr(a), dest(port.num()), e(env) { ok = !l5::w->ports.count(local); if (ok) l5::w->ports.insert(local); l5::w->socks.insert(this); }
    virtual ~Groupsock() { if (ok) l5::w->ports.erase(local); l5::w->socks.erase(this); }
    int socketNum() const { return ok ? 100 + local : -1; }
    void changeDestinationParameters(struct in_addr const &a, Port p, int) { addr = a; dest = p.num(); }
    int local; struct in_addr addr; int dest;
private: UsageEnvironment &e; bool ok;
};
inline unsigned increaseReceiveBufferTo(UsageEnvironment&, int, unsigned n) { return n; }

// ---------------------------------------------------------------- media
class Medium {
public:
    static void close(Medium *m) { if (!m) return; m->envir(); if (!m->name[0]) return; if (l5::w->media.count(m)) delete m; }
    UsageEnvironment &envir() const { return e; }
    virtual Boolean isSource() const { return False; }
protected:
    Medium(UsageEnvironment &x) : e(x), fNextTask(NULL) { static long n = 0; snprintf(name, sizeof name, "liveMedia%ld", n++); l5::w->media.insert(this); }
    virtual ~Medium() { e.taskScheduler().unscheduleDelayedTask(fNextTask); l5::w->media.erase(this); }
    TaskToken &nextTask() { return fNextTask; }
private:
    UsageEnvironment &e; char name[30]; TaskToken fNextTask;
};
class MediaSource : public Medium { public: virtual char const *MIMEtype() const { return ""; } virtual Boolean isRTPSource() const { return False; } protected: MediaSource(UsageEnvironment &x) : Medium(x) {} };

class FramedSource : public MediaSource {
public:
    typedef void (afterGettingFunc)(void *clientData, unsigned frameSize, unsigned numTruncatedBytes, struct timeval presentationTime, unsigned durationInMicroseconds);
    typedef void (onCloseFunc)(void *clientData);
    void getNextFrame(unsigned char *to, unsigned maxSize, afterGettingFunc *f, void *d, onCloseFunc *c, void *cd) {
        if (fIsCurrentlyAwaitingData) { envir().internalError(); }
        fTo = to; fMaxSize = maxSize; fNumTruncatedBytes = 0; fDurationInMicroseconds = 0; fAfter = f; fAfterData = d; fClose = c; fCloseData = cd; fIsCurrentlyAwaitingData = True; doGetNextFrame();
    }
    static void handleClosure(void *d) { ((FramedSource*)d)->handleClosure(); }
    void handleClosure() { fIsCurrentlyAwaitingData = False; if (fClose) (*fClose)(fCloseData); }
    void stopGettingFrames() { fIsCurrentlyAwaitingData = False; fAfter = NULL; fClose = NULL; doStopGettingFrames(); }
    virtual unsigned maxFrameSize() const { return 0; }
    virtual void doGetNextFrame() = 0;
    Boolean isCurrentlyAwaitingData() const { return fIsCurrentlyAwaitingData; }
    static void afterGetting(FramedSource *s) { s->nextTask() = NULL; s->fIsCurrentlyAwaitingData = False; if (s->fAfter) (*s->fAfter)(s->fAfterData, s->fFrameSize, s->fNumTruncatedBytes, s->fPresentationTime, s->fDurationInMicroseconds); }
protected:
    FramedSource(UsageEnvironment &x) : MediaSource(x), fTo(NULL), fMaxSize(0), fFrameSize(0), fNumTruncatedBytes(0), fDurationInMicroseconds(0), fAfter(NULL), fAfterData(NULL), fClose(NULL), fCloseData(NULL), fIsCurrentlyAwaitingData(False) { fPresentationTime.tv_sec = fPresentationTime.tv_usec = 0; }
    virtual void doStopGettingFrames() { envir().taskScheduler().unscheduleDelayedTask(nextTask()); }
    unsigned char *fTo; unsigned fMaxSize, fFrameSize, fNumTruncatedBytes; struct timeval fPresentationTime; unsigned fDurationInMicroseconds;
private:
    afterGettingFunc *fAfter; void *fAfterData; onCloseFunc *fClose; void *fCloseData; Boolean fIsCurrentlyAwaitingData;
    friend class StreamReplicator; friend class StreamReplica;
};
class FramedFilter : public FramedSource {
public:
    FramedSource *inputSource() const { return fInputSource; }
    void reassignInputSource(FramedSource *n) { fInputSource = n; }
    void detachInputSource() { if (fInputSource) { fInputSource->stopGettingFrames(); reassignInputSource(NULL); } }
protected:
    FramedFilter(UsageEnvironment &x, FramedSource *i) : FramedSource(x), fInputSource(i) {}
    virtual ~FramedFilter() { Medium::close(fInputSource); }
    virtual void doStopGettingFrames() { FramedSource::doStopGettingFrames(); if (fInputSource) fInputSource->stopGettingFrames(); }
    FramedSource *fInputSource;
};

class StreamReplicator; 
class StreamReplica : public FramedSource {
protected:
    friend class StreamReplicator;
    StreamReplica(StreamReplicator &r);
    virtual ~StreamReplica();
    virtual void doGetNextFrame(); virtual void doStopGettingFrames();
    static void copy(StreamReplica *to, StreamReplica *from) { unsigned cut = to->fMaxSize < from->fFrameSize ? from->fFrameSize - to->fMaxSize : 0; to->fFrameSize = from->fFrameSize - cut; to->fNumTruncatedBytes = from->fNumTruncatedBytes + cut; memmove(to->fTo, from->fTo, to->fFrameSize); to->fPresentationTime = from->fPresentationTime; to->fDurationInMicroseconds = from->fDurationInMicroseconds; }
    StreamReplicator &owner; int index; StreamReplica *next;
};
class StreamReplicator : public Medium {
public:
    static StreamReplicator *createNew(UsageEnvironment &e, FramedSource *i, Boolean del = True) { return new StreamReplicator(e, i, del); }
    FramedSource *createStreamReplica() { ++nrep; return new StreamReplica(*this); }
    unsigned numReplicas() const { return nrep; }
    FramedSource *inputSource() const { return in; }
    void detachInputSource() { in = NULL; }
protected:
    StreamReplicator(UsageEnvironment &e, FramedSource *i, Boolean d) : Medium(e), in(i), del(d), closed(False), nrep(0), nact(0), ndel(0), index(0), master(NULL), cur(NULL), nxt(NULL) {}
    virtual ~StreamReplicator() { if (nrep) L5FAIL("replicator", "a replicator is closed while %u copies of it are in use", nrep); Medium::close(in); }
private:
    friend class StreamReplica;
    void ask() { if (in) in->getNextFrame(master->fTo, master->fMaxSize, got, this, gone, this); }
    void get(StreamReplica *r) {
        if (closed) { r->handleClosure(); return; }
        if (r->index == -1) { r->index = index; ++nact; }
        if (!master) { master = r; ask(); }
        else if (r->index != index) { r->next = nxt; nxt = r; }
        else { r->next = cur; cur = r; if (in && !in->isCurrentlyAwaitingData()) deliver(); }
    }
    void deactivate(StreamReplica *r) {
        if (r->index == -1) return;
        --nact;
        if (r->index != index && ndel > 0) --ndel;
        r->index = -1;
        if (r == master) {
            if (!cur) master = NULL; else { master = cur; cur = cur->next; master->next = NULL; }
            if (in) {
                if (in->isCurrentlyAwaitingData()) { in->stopGettingFrames(); if (master) ask(); }
                else if (master) StreamReplica::copy(master, r);
            }
        } else {
            for (StreamReplica **q : { &cur, &nxt }) { if (*q) { if (r == *q) { *q = r->next; r->next = NULL; } else for (StreamReplica *x = *q; x->next; x = x->next) if (r == x->next) { x->next = r->next; r->next = NULL; break; } } }
        }
        if (r != master && nact && master && in && !in->isCurrentlyAwaitingData()) deliver();      // perhaps all the others have it by now
        if (nact == 0 && in) in->stopGettingFrames();
    }
    void remove(StreamReplica *r) { deactivate(r); --nrep; if (nrep == 0 && del) Medium::close(this); }
    static void got(void *d, unsigned n, unsigned cut, struct timeval p, unsigned dur) { StreamReplicator *s = (StreamReplicator*)d; s->master->fFrameSize = n; s->master->fNumTruncatedBytes = cut; s->master->fPresentationTime = p; s->master->fDurationInMicroseconds = dur; s->deliver(); }
    static void gone(void *d) { StreamReplicator *s = (StreamReplicator*)d; s->closed = True; StreamReplica *r; while ((r = s->cur)) { s->cur = r->next; r->next = NULL; r->handleClosure(); } while ((r = s->nxt)) { s->nxt = r->next; r->next = NULL; r->handleClosure(); } if ((r = s->master)) { s->master = NULL; r->handleClosure(); } }
    void deliver() {
        StreamReplica *r;
        while ((r = cur)) { cur = r->next; r->next = NULL; StreamReplica::copy(r, master); r->index = 1 - r->index; ++ndel; FramedSource::afterGetting(r); }
        if (ndel == nact - 1 && master) {
            r = master; master = NULL; r->index = 1 - r->index; index = 1 - index; ndel = 0;
            if (nxt) { master = nxt; nxt = nxt->next; master->next = NULL; ask(); }
            cur = nxt; nxt = NULL;
            FramedSource::afterGetting(r);
        }
    }
    FramedSource *in; Boolean del, closed; unsigned nrep, nact, ndel; int index; StreamReplica *master, *cur, *nxt;
};
inline StreamReplica::StreamReplica(StreamReplicator &r) : FramedSource(r.envir()), owner(r), index(-1), next(NULL) {}
inline StreamReplica::~StreamReplica() { owner.remove(this); }
inline void StreamReplica::doGetNextFrame() { owner.get(this); }
inline void StreamReplica::doStopGettingFrames() { owner.deactivate(this); }

// passes its input on
class PassFramer : public FramedFilter {
protected:
    PassFramer(UsageEnvironment &e, FramedSource *i) : FramedFilter(e, i) {}
    virtual void doGetNextFrame() { fInputSource->getNextFrame(fTo, fMaxSize, got, this, FramedSource::handleClosure, this); }
    virtual void seen(unsigned char*, unsigned) {}
    static void got(void *d, unsigned n, unsigned cut, struct timeval p, unsigned dur) { PassFramer *s = (PassFramer*)d; s->seen(s->fTo, n); s->fFrameSize = n; s->fNumTruncatedBytes = cut; s->fPresentationTime = p; s->fDurationInMicroseconds = dur; afterGetting(s); }
};
class H264or5VideoStreamFramer : public FramedFilter {
public:
    Boolean &pictureEndMarker() { return fPictureEndMarker; }
protected:
    H264or5VideoStreamFramer(int h, UsageEnvironment &e, FramedSource *i, Boolean, Boolean) : FramedFilter(e, i), fHNumber(h), fPictureEndMarker(False) {}
    Boolean isVPS(u_int8_t t) { return fHNumber == 265 && t == 32; }
    Boolean isSPS(u_int8_t t) { return fHNumber == 264 ? t == 7 : t == 33; }
    Boolean isPPS(u_int8_t t) { return fHNumber == 264 ? t == 8 : t == 34; }
    Boolean isVCL(u_int8_t t) { return fHNumber == 264 ? (t <= 5 && t > 0) : (t <= 31); }
    void saveCopyOfVPS(u_int8_t*, unsigned) {}
    void saveCopyOfSPS(u_int8_t *p, unsigned n) { sps.assign(p, p + n); }
    void saveCopyOfPPS(u_int8_t *p, unsigned n) { pps.assign(p, p + n); }
    int fHNumber; Boolean fPictureEndMarker; std::vector<unsigned char> sps, pps;
};
// a framer of units without start codes: the library takes units that begin with one for an error
template <int H> class DiscreteFramer : public PassFramer {
public:
    static DiscreteFramer *createNew(UsageEnvironment &e, FramedSource *i) { return new DiscreteFramer(e, i); }
protected:
    DiscreteFramer(UsageEnvironment &e, FramedSource *i) : PassFramer(e, i) {}
    void seen(unsigned char *p, unsigned n) { if (n >= 4 && p[0] == 0 && p[1] == 0 && ((p[2] == 0 && p[3] == 1) || p[2] == 1)) L5FAIL("start-code", "a unit reaches the packets with its start code"); }
};
typedef DiscreteFramer<264> H264VideoStreamDiscreteFramer;
typedef DiscreteFramer<265> H265VideoStreamDiscreteFramer;

class MPEG2TransportStreamFromESSource : public FramedSource {
public:
    struct In { MPEG2TransportStreamFromESSource *p; FramedSource *src; int version; bool video; std::vector<unsigned char> buf; unsigned have; bool inuse; std::vector<l5::Unit> units; };
    static MPEG2TransportStreamFromESSource *createNew(UsageEnvironment &e) { return new MPEG2TransportStreamFromESSource(e); }
    void addNewVideoSource(FramedSource *s, int v) { add(s, v, true); }
    void addNewAudioSource(FramedSource *s, int v) { add(s, v, false); }
    std::vector<In*> ins;
protected:
    MPEG2TransportStreamFromESSource(UsageEnvironment &e) : FramedSource(e), out(NULL) {}
    virtual ~MPEG2TransportStreamFromESSource() { doStopGettingFrames(); for (In *i : ins) { Medium::close(i->src); delete i; } }
    void add(FramedSource *s, int v, bool video) { In *i = new In(); i->p = this; i->src = s; i->version = v; i->video = video; i->buf.resize(100000); i->have = 0; i->inuse = false; ins.insert(ins.begin(), i); }
    virtual void doGetNextFrame() { In *o = out; out = NULL; wait(o); }
    virtual void doStopGettingFrames() { for (In *i : ins) i->src->stopGettingFrames(); }
    void wait(In *old) {
        if (old) { old->inuse = false; old->have = 0; }
        if (isCurrentlyAwaitingData()) for (In *i : ins) if (!i->inuse && i->have >= l5::w->ts_low) { i->inuse = true; out = i; deliver(i); return; }
        for (In *i : ins) if (!i->inuse && i->have < l5::w->ts_low && !i->src->isCurrentlyAwaitingData()) i->src->getNextFrame(&i->buf[i->have], i->buf.size() - i->have, got, i, FramedSource::handleClosure, this);
    }
    void deliver(In *i) { unsigned n = 188 * ((i->have + 183) / 184); if (n > fMaxSize) n = fMaxSize / 188 * 188; memset(fTo, 0x47, n); fFrameSize = n; afterGetting(this); }
    static void got(void *d, unsigned n, unsigned cut, struct timeval p, unsigned) { In *i = (In*)d; l5::Unit u; u.data.assign(i->buf.begin() + i->have, i->buf.begin() + i->have + n); u.pts = p.tv_sec * 1000000ll + p.tv_usec; u.cut = cut; i->units.push_back(u); i->have += n; i->p->fPresentationTime = p; i->p->wait(NULL); }
    In *out;
};

// ---------------------------------------------------------------- sinks
class MediaSink : public Medium {
public:
    typedef void (afterPlayingFunc)(void *clientData);
    Boolean startPlaying(MediaSource &s, afterPlayingFunc *f, void *d) { if (fSource) return False; if (!sourceIsCompatibleWithUs(s)) return False; fSource = (FramedSource*)&s; fAfter = f; fAfterData = d; return continuePlaying(); }
    virtual void stopPlaying() { if (fSource) fSource->stopGettingFrames(); envir().taskScheduler().unscheduleDelayedTask(nextTask()); fSource = NULL; fAfter = NULL; }
    FramedSource *source() const { return fSource; }
protected:
    MediaSink(UsageEnvironment &e) : Medium(e), fSource(NULL), fAfter(NULL), fAfterData(NULL) {}
    virtual ~MediaSink() { stopPlaying(); }
    virtual Boolean sourceIsCompatibleWithUs(MediaSource&) { return True; }
    virtual Boolean continuePlaying() = 0;
    static void onSourceClosure(void *d) { ((MediaSink*)d)->onSourceClosure(); }
    void onSourceClosure() { envir().taskScheduler().unscheduleDelayedTask(nextTask()); fSource = NULL; if (fAfter) (*fAfter)(fAfterData); }
    FramedSource *fSource;
private:
    afterPlayingFunc *fAfter; void *fAfterData;
};
class OutPacketBuffer { public: static unsigned &size() { static unsigned s = 60000; return s; } static void increaseMaxSizeTo(unsigned n) { if (n > size()) size() = n; } };

class RTPTransmissionStats { public: u_int32_t ssrc; u_int8_t loss; unsigned rtt, jit; u_int32_t SSRC() const { return ssrc; } u_int8_t packetLossRatio() const { return loss; } unsigned roundTripDelay() const { return rtt; } unsigned jitter() const { return jit; } };
class RTPTransmissionStatsDB {
public:
    std::vector<RTPTransmissionStats*> all;
    ~RTPTransmissionStatsDB() { for (auto *x : all) delete x; }
    class Iterator { public: Iterator(RTPTransmissionStatsDB &d) : db(d), i(0) {} virtual ~Iterator() {} RTPTransmissionStats *next() { return i < db.all.size() ? db.all[i++] : NULL; } private: RTPTransmissionStatsDB &db; size_t i; };
};
class RTPSink : public MediaSink {
public:
    Groupsock *gs; int payload; unsigned freq; std::string fmt; unsigned channels;
    std::vector<l5::Unit> units; std::vector<l5::Packet> packets; unsigned bytes; double elapsed;
    RTPTransmissionStatsDB &transmissionStatsDB() { return db; }
    void getTotalBitrate(unsigned &n, double &t) { n = bytes; t = elapsed; bytes = 0; elapsed = 0; }
    u_int8_t rtpPayloadType() const { return payload; }
    unsigned rtpTimestampFrequency() const { return freq; }
    virtual char const *auxSDPLine() { return NULL; }
    virtual char const *sdpMediaType() const { return "data"; }
    RTPTransmissionStatsDB db;
protected:
    RTPSink(UsageEnvironment &e, Groupsock *g, int p, unsigned f, char const *n, unsigned c) : MediaSink(e), gs(g), payload(p), freq(f), fmt(n ? n : ""), channels(c), bytes(0), elapsed(0) {}
};
class MultiFramedRTPSink : public RTPSink {
protected:
    MultiFramedRTPSink(UsageEnvironment &e, Groupsock *g, int p, unsigned f, char const *n, unsigned c = 1) : RTPSink(e, g, p, f, n, c), buf(NULL), len(0), off(0), used(0), marker(False), stamp(-1) {}
    virtual ~MultiFramedRTPSink() { delete[] buf; }
    unsigned ourMaxPacketSize() const { return 1448; }
    virtual Boolean continuePlaying() { if (!buf) buf = new unsigned char[room()]; used = 0; fetch(); return True; }
    virtual void doSpecialFrameHandling(unsigned, unsigned char*, unsigned, struct timeval p, unsigned) { setTimestamp(p); }
    virtual Boolean frameCanAppearAfterPacketStart(unsigned char const*, unsigned) const { return True; }
    virtual unsigned specialHeaderSize() const { return 0; }
    void setMarkerBit() { marker = True; }
    void setTimestamp(struct timeval p) { stamp = p.tv_sec * 1000000ll + p.tv_usec; }
    void setSpecialHeaderBytes(unsigned char const *p, unsigned n, unsigned = 0) { head.assign(p, p + n); }
private:
    static unsigned room() { return OutPacketBuffer::size() / 256; }       // sizes are scaled down, see the harness
    void fetch() {
        if (len) { pack(); return; }
        fSource->getNextFrame(buf, room(), got, this, closed, this);
    }
    static void closed(void *d) { MultiFramedRTPSink *s = (MultiFramedRTPSink*)d; s->onSourceClosure(); }
    static void got(void *d, unsigned n, unsigned cut, struct timeval p, unsigned) {
        MultiFramedRTPSink *s = (MultiFramedRTPSink*)d;
        l5::Unit u; u.data.assign(s->buf, s->buf + n); u.pts = p.tv_sec * 1000000ll + p.tv_usec; u.cut = cut; s->units.push_back(u);
        s->bytes += n; s->elapsed += 0.01; s->pt = p; s->len = n; s->off = 0; s->pack();
    }
    void pack() {
        unsigned room = ourMaxPacketSize() - 12 - specialHeaderSize(), n = len < room ? len : room, left = len - n;
        marker = False; head.clear(); stamp = -1;
        doSpecialFrameHandling(off, buf + off, n, pt, left);
        l5::Packet k; k.head = head; k.data.assign(buf + off, buf + off + n); k.marker = marker; k.pts = stamp; k.offset = off; k.left = left; packets.push_back(k);
        used += n; 
        bool more = !left && off == 0 && used < 1000 && used + n < room && frameCanAppearAfterPacketStart(buf, n);
        if (left) { off += n; len = left; } else { len = 0; off = 0; }
        if (more) fetch();
        else nextTask() = envir().taskScheduler().scheduleDelayedTask(0, (TaskFunc*)again, this);
    }
    static void again(void *d) { MultiFramedRTPSink *s = (MultiFramedRTPSink*)d; s->used = 0; if (s->fSource) s->fetch(); }
    unsigned char *buf; unsigned len, off, used; Boolean marker; int64_t stamp; std::vector<unsigned char> head; struct timeval pt;
};
class VideoRTPSink : public MultiFramedRTPSink { public: char const *sdpMediaType() const { return "video"; } protected: VideoRTPSink(UsageEnvironment &e, Groupsock *g, int p, unsigned f, char const *n) : MultiFramedRTPSink(e, g, p, f, n, 1) {} };
class AudioRTPSink : public MultiFramedRTPSink { public: char const *sdpMediaType() const { return "audio"; } protected: AudioRTPSink(UsageEnvironment &e, Groupsock *g, int p, unsigned f, char const *n, unsigned c = 1) : MultiFramedRTPSink(e, g, p, f, n, c) {} };
template <int K> class OneFrameVideoSink : public VideoRTPSink {
public:
    std::vector<unsigned char> vps, sps, pps;
    static OneFrameVideoSink *createNew(UsageEnvironment &e, Groupsock *g, int p) { return new OneFrameVideoSink(e, g, p); }
    static OneFrameVideoSink *createNew(UsageEnvironment &e, Groupsock *g, int p, u_int8_t const *s, unsigned sn, u_int8_t const *q, unsigned qn) { OneFrameVideoSink *x = new OneFrameVideoSink(e, g, p); x->sps.assign(s, s + sn); x->pps.assign(q, q + qn); return x; }
    static OneFrameVideoSink *createNew(UsageEnvironment &e, Groupsock *g, int p, u_int8_t const *v, unsigned vn, u_int8_t const *s, unsigned sn, u_int8_t const *q, unsigned qn) { OneFrameVideoSink *x = createNew(e, g, p, s, sn, q, qn); x->vps.assign(v, v + vn); return x; }
protected:
    OneFrameVideoSink(UsageEnvironment &e, Groupsock *g, int p) : VideoRTPSink(e, g, p, 90000, K == 264 ? "H264" : K == 265 ? "H265" : "VP8") {}
    Boolean frameCanAppearAfterPacketStart(unsigned char const*, unsigned) const { return False; }
};
typedef OneFrameVideoSink<264> H264VideoRTPSink;
typedef OneFrameVideoSink<265> H265VideoRTPSink;
typedef OneFrameVideoSink<8> VP8VideoRTPSink;
class MPEG1or2AudioRTPSink : public AudioRTPSink { public: static MPEG1or2AudioRTPSink *createNew(UsageEnvironment &e, Groupsock *g) { return new MPEG1or2AudioRTPSink(e, g); } protected: MPEG1or2AudioRTPSink(UsageEnvironment &e, Groupsock *g) : AudioRTPSink(e, g, 14, 90000, "MPA") {} unsigned specialHeaderSize() const { return 4; } };
class SimpleRTPSink : public MultiFramedRTPSink {
public:
    static SimpleRTPSink *createNew(UsageEnvironment &e, Groupsock *g, unsigned char p, unsigned f, char const *m, char const *n, unsigned c = 1, Boolean multi = True, Boolean = True) { return new SimpleRTPSink(e, g, p, f, m, n, c, multi); }
    char const *sdpMediaType() const { return media.c_str(); }
protected:
    SimpleRTPSink(UsageEnvironment &e, Groupsock *g, unsigned char p, unsigned f, char const *m, char const *n, unsigned c, Boolean multi) : MultiFramedRTPSink(e, g, p, f, n, c), media(m), many(multi) {}
    Boolean frameCanAppearAfterPacketStart(unsigned char const*, unsigned) const { return many; }
    std::string media; Boolean many;
};

class RTCPInstance : public Medium {
public:
    void setByeHandler(TaskFunc *f, void *d, Boolean = True) { bye = f; byedata = d; }
    TaskFunc *bye; void *byedata; RTPSink *sink;
protected:
    RTCPInstance(UsageEnvironment &e, Groupsock *g, unsigned, unsigned char const*, RTPSink *s, RTPSource const*, Boolean = False) : Medium(e), bye(NULL), byedata(NULL), sink(s), gs(g) { if (s) s->rtpPayloadType(); }
    virtual ~RTCPInstance() { if (sink) sink->rtpPayloadType(); if (gs) gs->socketNum(); }      // says goodbye: sink and socket are needed
    Groupsock *gs;
    friend class OnDemandServerMediaSubsession;
};

// ---------------------------------------------------------------- RTSP server
class ServerMediaSubsession : public Medium {
public:
    ServerMediaSession *parent;
    virtual void startClient(unsigned id) = 0; virtual void stopClient(unsigned id) = 0; virtual void describe() = 0;
protected:
    ServerMediaSubsession(UsageEnvironment &e) : Medium(e), parent(NULL) {}
};
class ServerMediaSession : public Medium {
public:
    static ServerMediaSession *createNew(UsageEnvironment &e, char const *n = NULL, char const *i = NULL, char const *d = NULL, Boolean = False, char const* = NULL) { return new ServerMediaSession(e, n, i, d); }
    char const *streamName() const { return nm.c_str(); }
    Boolean addSubsession(ServerMediaSubsession *s) { if (s->parent) return False; subs.push_back(s); s->parent = this; return True; }
    std::string nm, info, desc; std::vector<ServerMediaSubsession*> subs;
protected:
    ServerMediaSession(UsageEnvironment &e, char const *n, char const *i, char const *d) : Medium(e), nm(n ? n : ""), info(i ? i : ""), desc(d ? d : "") {}
    virtual ~ServerMediaSession() { for (auto *s : subs) Medium::close(s); }
};
class ServerMediaSubsessionIterator { public: ServerMediaSubsessionIterator(ServerMediaSession &s) : m(s), i(0) {} virtual ~ServerMediaSubsessionIterator() {} ServerMediaSubsession *next() { return i < m.subs.size() ? m.subs[i++] : NULL; } private: ServerMediaSession &m; size_t i; };
class OnDemandServerMediaSubsession : public ServerMediaSubsession {
public:
    struct Client { FramedSource *src; RTPSink *sink; RTCPInstance *rtcp; Groupsock *rg, *cg; };
    std::map<unsigned, Client> clients; bool described; std::string sdp; std::string codec;
    void describe() {
        if (described) return;
        unsigned br; FramedSource *s = createNewStreamSource(0, br); if (!s) return;
        struct in_addr a; a.s_addr = 0; Groupsock *g = new Groupsock(envir(), a, Port(0), 0);
        RTPSink *k = createNewRTPSink(g, 96, s);
        if (k) { char const *x = getAuxSDPLine(k, s); sdp = x ? x : ""; codec = k->fmt; }
        Medium::close(k); Medium::close(s); delete g; described = true;
    }
    void startClient(unsigned id) {
        Client c; unsigned br; c.src = createNewStreamSource(id, br); struct in_addr a; a.s_addr = 0x7f000001;
        int p = 30000 + 2 * (port()++ % 1000); c.rg = new Groupsock(envir(), a, Port(p), 255); c.cg = new Groupsock(envir(), a, Port(p + 1), 255);
        c.sink = c.src ? createNewRTPSink(c.rg, 96, c.src) : NULL; c.rtcp = NULL;
        if (c.sink) { c.rtcp = createRTCP(c.cg, br, (unsigned char const*)"x", c.sink); c.sink->startPlaying(*c.src, NULL, NULL); }
        clients[id] = c;
    }
    void stopClient(unsigned id) {
        if (!clients.count(id)) return; Client c = clients[id]; clients.erase(id);
        if (c.sink) c.sink->stopPlaying();
        Medium::close(c.rtcp); Medium::close(c.sink); Medium::close(c.src); delete c.rg; delete c.cg;
    }
protected:
    OnDemandServerMediaSubsession(UsageEnvironment &e, Boolean, portNumBits = 6970) : ServerMediaSubsession(e), described(false) {}
    virtual ~OnDemandServerMediaSubsession() { while (!clients.empty()) stopClient(clients.begin()->first); }
    virtual char const *getAuxSDPLine(RTPSink *s, FramedSource*) { return s ? s->auxSDPLine() : NULL; }
    virtual FramedSource *createNewStreamSource(unsigned, unsigned&) = 0;
    virtual RTPSink *createNewRTPSink(Groupsock*, unsigned char, FramedSource*) = 0;
    virtual RTCPInstance *createRTCP(Groupsock *g, unsigned bw, unsigned char const *c, RTPSink *s) = 0;
    void setDoneFlag() { }
    static int &port() { static int n; return n; }
};
class UserAuthenticationDatabase;
class RTSPServer : public Medium {
public:
    static RTSPServer *createNew(UsageEnvironment &e, Port p = Port(554), UserAuthenticationDatabase* = NULL, unsigned = 65) { if (l5::w->servers_refused > 0) { l5::w->servers_refused--; return NULL; } return new RTSPServer(e, p); }
    void addServerMediaSession(ServerMediaSession *s) { if (!s) return; if (sessions.count(s->streamName())) removeServerMediaSession(sessions[s->streamName()]); sessions[s->streamName()] = s; }
    void removeServerMediaSession(ServerMediaSession *s) { if (!s) return; sessions.erase(s->streamName()); if (!inuse(s)) Medium::close(s); else orphans.insert(s); }
    void closeAllClientSessionsForServerMediaSession(ServerMediaSession *s) { if (!s) return; for (auto i = clients.begin(); i != clients.end(); ) if (i->second == s) { for (auto *x : s->subs) x->stopClient(i->first); i = clients.erase(i); } else ++i; }
    void deleteServerMediaSession(ServerMediaSession *s) { if (!s) return; closeAllClientSessionsForServerMediaSession(s); removeServerMediaSession(s); }
    char *rtspURL(ServerMediaSession const *s, int = -1) const { return strDup(("rtsp://host/" + std::string(s->streamName())).c_str()); }
    std::map<std::string, ServerMediaSession*> sessions; std::map<unsigned, ServerMediaSession*> clients; std::set<ServerMediaSession*> orphans; int port;
    // clients, driven by the harness
    bool play(const std::string &n, unsigned id) { if (!sessions.count(n)) return false; ServerMediaSession *s = sessions[n]; for (auto *x : s->subs) x->describe(); clients[id] = s; for (auto *x : s->subs) x->startClient(id); return true; }
    void leave(unsigned id) { if (!clients.count(id)) return; ServerMediaSession *s = clients[id]; clients.erase(id); for (auto *x : s->subs) x->stopClient(id); if (orphans.count(s) && !inuse(s)) { orphans.erase(s); Medium::close(s); } }
protected:
    bool inuse(ServerMediaSession *s) { for (auto &c : clients) if (c.second == s) return true; return false; }
    RTSPServer(UsageEnvironment &e, Port p) : Medium(e), port(p.num()) { l5::w->server = this; }
    virtual ~RTSPServer() { while (!clients.empty()) leave(clients.begin()->first); while (!sessions.empty()) removeServerMediaSession(sessions.begin()->second); l5::w->server = NULL; }
};

#include "live555_client.hh"
#endif
