// Minimal filters built on the real filter classes, with small counted queues.
#ifndef VERIF_FILTERS_HH
#define VERIF_FILTERS_HH
#include "common.hh"
#include "Filter.hh"
#include "PipelineManager.hh"
#include "Jzon.h"

#ifndef VERIF_REAL_PIPELINE
// The manager is only used to route events upstream; the stub records them.
struct RoutedEvent { int filter; };
static std::vector<int> routed_events;
static std::function<void(Event, int)> route_hook;
PipelineManager *PipelineManager::getInstance(unsigned) { return NULL; }
bool PipelineManager::processFilterEvent(Event e, int id) { routed_events.push_back(id); if (route_hook) route_hook(e, id); return true; }
#endif

static StreamInfo *filter_si;
template <class B> struct Common : public B {
    int qsize = 4; bool alloc_ok = true, rconf_ok = true, wconf_ok = true;
    std::vector<int> rconf, rdel, wconf, wdel;
    FrameQueue *allocQueue(ConnectionData c) { if (!alloc_ok) return NULL; return new SmallQueue(c, filter_si, qsize); }
    void doGetState(Jzon::Object &) {}
    template <class... A> Common(A... a) : B(a...) {}
    using B::setFrameTime; using B::getReader;
    void events(const char *n, std::function<bool(Jzon::Node*)> f) { this->eventMap[n] = f; }
};
// called whenever a filter is told that one of its ports is set up or gone
static std::function<void(int)> conf_hook __attribute__((unused));
#define RCONF bool specificReaderConfig(int i, FrameQueue*) { if (conf_hook) conf_hook(this->getId()); if (!this->rconf_ok) return false; this->rconf.push_back(i); return true; } bool specificReaderDelete(int i) { if (conf_hook) conf_hook(this->getId()); this->rdel.push_back(i); return true; }
#define WCONF bool specificWriterConfig(int i) { if (conf_hook) conf_hook(this->getId()); if (!this->wconf_ok) return false; this->wconf.push_back(i); return true; } bool specificWriterDelete(int i) { if (conf_hook) conf_hook(this->getId()); this->wdel.push_back(i); return true; }

struct Src : public Common<HeadFilter> {
    std::function<bool(std::map<int, Frame*>&, int&)> body;
    Src(unsigned writers = 1, FilterRole role = REGULAR, bool periodic = true) : Common<HeadFilter>(writers, role, periodic) { fType = RECEIVER; }
    bool doProcessFrame(std::map<int, Frame*> &d, int &ret) { return body ? body(d, ret) : false; }
    WCONF
};
struct Snk : public Common<TailFilter> {
    std::function<bool(std::map<int, Frame*>&, std::vector<int>&, int&)> body;
    Snk(unsigned readers = 1, FilterRole role = REGULAR, bool periodic = false, bool sync = false) : Common<TailFilter>(readers, role, periodic) { fType = TRANSMITTER; setSync(sync); }
    bool doProcessFrame(std::map<int, Frame*> &o, std::vector<int> nf, int &ret) { return body ? body(o, nf, ret) : false; }
    using BaseFilter::setSync;
    RCONF
};
struct Mid : public Common<OneToOneFilter> {
    std::function<bool(Frame*, Frame*)> body;
    Mid(FilterRole role = REGULAR, bool periodic = false) : Common<OneToOneFilter>(role, periodic) { fType = VIDEO_ENCODER; }
    bool doProcessFrame(Frame *o, Frame *d) { return body ? body(o, d) : false; }
    RCONF WCONF
};
struct Spl : public Common<OneToManyFilter> {
    std::function<bool(Frame*, std::map<int, Frame*>&)> body;
    Spl(unsigned writers = 2, FilterRole role = REGULAR, bool periodic = false) : Common<OneToManyFilter>(writers, role, periodic) { fType = VIDEO_SPLITTER; }
    bool doProcessFrame(Frame *o, std::map<int, Frame*> &d) { return body ? body(o, d) : false; }
    RCONF WCONF
};
struct Mix : public Common<ManyToOneFilter> {
    std::function<bool(std::map<int, Frame*>&, Frame*, std::vector<int>&)> body;
    Mix(unsigned readers = 2, FilterRole role = REGULAR, bool periodic = false, bool sync = false) : Common<ManyToOneFilter>(readers, role, periodic) { fType = VIDEO_MIXER; setSync(sync); }
    bool doProcessFrame(std::map<int, Frame*> &o, Frame *d, std::vector<int> nf) { return body ? body(o, d, nf) : false; }
    using BaseFilter::setSync; using BaseFilter::setSyncTs; using BaseFilter::getSyncTs;
    RCONF WCONF
};
// any number of readers and writers
struct Gen : public Common<BaseFilter> {
    std::function<void(std::map<int, Frame*>&, std::map<int, Frame*>&, std::vector<int>&, int&)> body;
    Gen(unsigned r, unsigned w, FilterRole role = REGULAR, bool periodic = false, bool sync = false) : Common<BaseFilter>(r, w, role, periodic) { fType = VIDEO_MIXER; setSync(sync); }
    bool runDoProcessFrame(std::map<int, Frame*> &o, std::map<int, Frame*> &d, std::vector<int> nf, int &ret) { if (body) body(o, d, nf, ret); return true; }
    using BaseFilter::setSync; using BaseFilter::setSyncTs; using BaseFilter::getSyncTs;
    RCONF WCONF
};
#endif
