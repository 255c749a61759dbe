// The V4L2 capture filter against a modelled device: every sequence of
// configurations, pictures (in time, late, empty, too large), time-outs and
// failing system calls.  The linker redirects the system calls here (--wrap).
#include "filters.hh"
#include <linux/videodev2.h>
#include "modules/V4LCapture/V4LCapture.hh"
#include <errno.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/select.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

enum { GO, COMES, TIMEOUT, SELECT_ERR, DQ_AGAIN, DQ_IO, Q_ERR, LARGE, EMPTY, N_SCEN };
struct Buf { uint8_t *mem = nullptr; size_t len = 0; bool mapped = false, queued = false; };
struct Device {
    bool open = false, streaming = false, plugged = true; int opens = 0; std::string name; std::vector<Buf> b; std::deque<int> q; v4l2_pix_format f; unsigned num = 1, den = 25; bool parm = false;
    unsigned taken = 0; int scen = GO; size_t size = 0; int64_t came = 0;
};
static Device dev; static const int FD = 321; static std::string last_name;
static int fault_at, calls, eintr_at; static std::string faulted;            // which system call fails (0: none)
static std::string bad;                                           // misuse of the device
static std::string content(unsigned no, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)(no * 59 + i * 7 + i / 251 + 3); return s; }
static bool fails(const char *what) { if (++calls == fault_at) { faulted = what; mc::note("%s fails", what); return true; } return false; }
static int err(int e) { errno = e; return -1; }
static bool armed = false;

static size_t image(const v4l2_pix_format &f) { switch (f.pixelformat) { case V4L2_PIX_FMT_YUYV: case V4L2_PIX_FMT_YUV422P: return f.width * f.height * 2; case V4L2_PIX_FMT_YUV420: return f.width * f.height * 3 / 2; case V4L2_PIX_FMT_RGB24: return f.width * f.height * 3; default: return 300; } }
static void set_format(v4l2_pix_format &p) {
    p.width = std::min(std::max(p.width & ~3u, 8u), 64u); p.height = std::min(std::max(p.height & ~1u, 6u), 48u);
    bool b = dev.name == "/dev/videoB";          // B only knows two formats
    switch (p.pixelformat) { case V4L2_PIX_FMT_YUYV: break; case V4L2_PIX_FMT_MJPEG: case V4L2_PIX_FMT_YUV420: case V4L2_PIX_FMT_YUV422P: case V4L2_PIX_FMT_RGB24: if (b) p.pixelformat = V4L2_PIX_FMT_YUYV; break; case V4L2_PIX_FMT_H264: break; default: p.pixelformat = V4L2_PIX_FMT_YUYV; }
    p.bytesperline = p.pixelformat == V4L2_PIX_FMT_YUYV ? p.width * 2 : p.pixelformat == V4L2_PIX_FMT_RGB24 ? p.width * 3 : p.pixelformat == V4L2_PIX_FMT_H264 || p.pixelformat == V4L2_PIX_FMT_MJPEG ? 0 : p.width;
    p.sizeimage = std::max<size_t>(image(p), 64); dev.f = p;
}
extern "C" {
int __real_open(const char *n, int f, ...); int __real_close(int fd); int __real_stat(const char *n, struct stat *s); int __real_ioctl(int fd, unsigned long r, ...); void *__real_mmap(void *a, size_t n, int p, int f, int fd, off_t o); int __real_munmap(void *a, size_t n); int __real_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t);
int __wrap_stat(const char *n, struct stat *s) {
    if (strncmp(n, "/dev/v", 6)) return __real_stat(n, s); if (fails("stat")) return err(ENOENT);
    memset(s, 0, sizeof *s); std::string x(n); if (x == "/dev/videoA" || x == "/dev/videoB") { s->st_mode = S_IFCHR | 0660; return 0; } if (x == "/dev/vfile") { s->st_mode = S_IFREG | 0644; return 0; } return err(ENOENT);
}
int __wrap_open(const char *n, int f, ...) {
    if (strncmp(n, "/dev/v", 6)) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open(n, f, m); }
    if (strcmp(n, "/dev/videoA") && strcmp(n, "/dev/videoB")) { bad = "opened what is no device"; return err(EACCES); }
    if (fails("open")) return err(EACCES); if (dev.open) { bad = "the device is opened twice"; return err(EBUSY); }
    unsigned t = dev.taken; dev = Device(); dev.taken = t; dev.open = true; dev.name = n; dev.f.width = 16; dev.f.height = 12; dev.f.pixelformat = V4L2_PIX_FMT_YUYV; set_format(dev.f); return FD;
}
int __wrap_close(int fd) {
    if (fd != FD) return __real_close(fd);
    if (!dev.open) { bad = "closed twice"; return err(EBADF); }
    for (auto &b : dev.b) if (b.mapped) bad = "closed with buffers mapped"; for (auto &b : dev.b) free(b.mem);
    dev.b.clear(); dev.q.clear(); dev.open = dev.streaming = false; if (fails("close")) return err(EIO); return 0;
}
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
    if (fd != FD) return __real_mmap(a, n, p, f, fd, o);
    size_t i = o / 4096; if (!dev.open || i >= dev.b.size() || dev.b[i].len != n || dev.b[i].mapped) { bad = "wrong mapping"; errno = EINVAL; return MAP_FAILED; }
    if (fails("mmap")) { errno = ENOMEM; return MAP_FAILED; }
    dev.b[i].mapped = true; return dev.b[i].mem;
}
int __wrap_munmap(void *a, size_t n) {
    for (auto &b : dev.b) if (b.mem == a) { if (!b.mapped || b.len != n) bad = "unmapped what is not mapped"; b.mapped = false; return 0; }
    if (armed) { bad = "unmapped what is not mapped"; return err(EINVAL); } return __real_munmap(a, n);
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
    if (!armed || !r || n != FD + 1) return __real_select(n, r, w, e, t);
    if (!dev.open || !dev.streaming) bad = "waits for a device that does not stream";
    int64_t us = t ? t->tv_sec * 1000000ll + t->tv_usec : -1; if (us < 0) { bad = "waits without a limit"; return err(EINVAL); }
    if (dev.scen == SELECT_ERR || !dev.plugged) { FD_ZERO(r); return err(EIO); }
    if (dev.scen == COMES) { mc::vclock_ns += us / 2 * 1000; return 1; }
    if (dev.scen == TIMEOUT || dev.q.empty()) { mc::vclock_ns += us * 1000; FD_ZERO(r); return 0; }
    return 1;
}
int __wrap_ioctl(int fd, unsigned long r, ...) {
    va_list va; va_start(va, r); void *a = va_arg(va, void*); va_end(va);
    if (fd != FD) { if (armed) bad = "request to another descriptor"; return armed ? err(EBADF) : __real_ioctl(fd, r, a); }
    if (!dev.open) { bad = "request to a closed device"; return err(EBADF); }
    if (eintr_at && calls + 1 == eintr_at) { eintr_at = 0; return err(EINTR); }
    if (!dev.plugged) return err(ENODEV);
    switch (r) {
    case VIDIOC_QUERYCAP: { if (fails("QUERYCAP")) return err(EINVAL); v4l2_capability *c = (v4l2_capability*)a; memset(c, 0, sizeof *c); c->capabilities = V4L2_CAP_VIDEO_CAPTURE | V4L2_CAP_STREAMING; if (fails("capture capability")) c->capabilities = V4L2_CAP_STREAMING; if (fails("streaming capability")) c->capabilities = V4L2_CAP_VIDEO_CAPTURE; return 0; }
    case VIDIOC_CROPCAP: memset((char*)a + sizeof(__u32), 0, sizeof(v4l2_cropcap) - sizeof(__u32)); return dev.name == "/dev/videoB" ? err(EINVAL) : 0;
    case VIDIOC_S_CROP: return err(EINVAL);
    case VIDIOC_S_FMT: { v4l2_format *f = (v4l2_format*)a; if (!dev.b.empty()) { bad = "format set with buffers allocated"; return err(EBUSY); } if (fails("S_FMT")) return err(EINVAL); set_format(f->fmt.pix); return 0; }
    case VIDIOC_G_FMT: { if (fails("G_FMT")) return err(EINVAL); ((v4l2_format*)a)->fmt.pix = dev.f; return 0; }
    case VIDIOC_S_PARM: { if (fails("S_PARM")) return err(ENOTTY); v4l2_streamparm *p = (v4l2_streamparm*)a; unsigned d = p->parm.capture.timeperframe.denominator; if (p->parm.capture.timeperframe.numerator != 1) bad = "odd frame period";
        if (dev.name == "/dev/videoB") { dev.num = 1001; dev.den = 30000; } else { dev.num = 1; dev.den = std::min(d, 60u); } p->parm.capture.timeperframe.numerator = dev.num; p->parm.capture.timeperframe.denominator = dev.den; dev.parm = true; return 0; }
    case VIDIOC_REQBUFS: { if (fails("REQBUFS")) return err(EINVAL); v4l2_requestbuffers *q = (v4l2_requestbuffers*)a; if (dev.streaming || !dev.b.empty()) { for (auto &b : dev.b) if (b.mapped) return err(EBUSY); }
        for (auto &b : dev.b) free(b.mem); dev.b.clear(); if (fails("room for buffers")) q->count = 1; if (dev.name == "/dev/videoB" && q->count > 3) q->count = 3;
        for (unsigned i = 0; i < q->count; i++) { Buf b; b.len = dev.f.sizeimage; b.mem = (uint8_t*)malloc(b.len); dev.b.push_back(b); } return 0; }
    case VIDIOC_QUERYBUF: { v4l2_buffer *b = (v4l2_buffer*)a; if (fails("QUERYBUF")) return err(EINVAL); if (b->index >= dev.b.size()) { bad = "no such buffer"; return err(EINVAL); } b->length = dev.b[b->index].len; b->m.offset = b->index * 4096; return 0; }
    case VIDIOC_QBUF: { v4l2_buffer *b = (v4l2_buffer*)a; if (dev.scen == Q_ERR && dev.streaming) { dev.scen = GO; return err(EIO); } if (fails("QBUF")) return err(EINVAL); if (b->index >= dev.b.size() || dev.b[b->index].queued || !dev.b[b->index].mapped) { bad = "a buffer was given to the device which is not there, not mapped or already with it"; return err(EINVAL); }
        if (b->type != V4L2_BUF_TYPE_VIDEO_CAPTURE || b->memory != V4L2_MEMORY_MMAP) { bad = "buffer of the wrong kind"; return err(EINVAL); } dev.b[b->index].queued = true; dev.q.push_back(b->index); return 0; }
    case VIDIOC_STREAMON: if (fails("STREAMON")) return err(EINVAL); if (dev.streaming) bad = "started twice"; if (dev.q.size() != dev.b.size()) bad = "started without all its buffers"; dev.streaming = true; return 0;
    case VIDIOC_STREAMOFF: if (fails("STREAMOFF")) return err(EINVAL); if (!dev.streaming) bad = "stopped twice"; dev.streaming = false; dev.q.clear(); for (auto &b : dev.b) b.queued = false; return 0;
    case VIDIOC_DQBUF: { if (dev.scen == DQ_AGAIN) return err(EAGAIN); if (dev.scen == DQ_IO) return err(EIO); if (!dev.streaming || dev.q.empty()) return err(EAGAIN);
        v4l2_buffer *b = (v4l2_buffer*)a; int i = dev.q.front(); dev.q.pop_front(); dev.b[i].queued = false; b->index = i; b->length = dev.b[i].len; b->bytesused = std::min(dev.size, dev.b[i].len);
        std::string d = content(dev.taken, b->bytesused); memcpy(dev.b[i].mem, d.data(), d.size()); return 0; }
    }
    bad = "unknown request"; return err(ENOTTY);
}
}

struct Conf { const char *dev; int w, h, fps; const char *fmt; bool force; };
static const Conf CONFS[] = {
    {"/dev/videoA", 16, 12, 25, "YUYV", true}, {"/dev/videoA", 18, 13, 50, "YUV420", true}, {"/dev/videoB", 32, 24, 30, "RGB24", true}, {"/dev/videoA", 16, 12, 100, "H264", true}, {"/dev/videoA", 24, 10, 15, "MJPEG", true},
    {"/dev/videoB", 0, 0, 25, "", false}, {"/dev/videoA", 100, 100, 25, "YUV422", true}, {"/dev/videoB", 16, 16, 25, "H264", true}, {"/dev/videoA", 20, 20, 7, "RGB24", true}, {"/dev/videoA", 20, 20, 7, "nonsense", true},
    {"/dev/vnone", 16, 12, 25, "YUYV", true}, {"/dev/vfile", 16, 12, 25, "YUYV", true}, {"/dev/videoA", 16, 12, 0, "YUYV", true}, {"/dev/videoA", 16, 12, -5, "YUYV", true}, {"/dev/videoA", 16, 12, 2000000, "YUYV", true}};
struct World {
    V4LCapture *v = nullptr; bool on = false; Conf c; int64_t D = 0, wall = 0; v4l2_pix_format f; int lost = 0;
    std::vector<int64_t> hist; int64_t sum = 0, lastT = 0; unsigned count = 0;
    std::unique_ptr<InterleavedVideoFrame> out; size_t cap;
    static std::map<unsigned, std::pair<PixType, VCodecType>> kinds() { return {{V4L2_PIX_FMT_YUYV, {YUYV422, RAW}}, {V4L2_PIX_FMT_YUV420, {YUV420P, RAW}}, {V4L2_PIX_FMT_YUV422P, {YUV422P, RAW}}, {V4L2_PIX_FMT_RGB24, {RGB24, RAW}}, {V4L2_PIX_FMT_H264, {P_NONE, H264}}, {V4L2_PIX_FMT_MJPEG, {P_NONE, MJPEG}}}; }
    static unsigned fourcc(const std::string &s) { if (s == "YUV420") return V4L2_PIX_FMT_YUV420; if (s == "YUV422") return V4L2_PIX_FMT_YUV422P; if (s == "RGB24") return V4L2_PIX_FMT_RGB24; if (s == "H264") return V4L2_PIX_FMT_H264; if (s == "MJPEG") return V4L2_PIX_FMT_MJPEG; return V4L2_PIX_FMT_YUYV; }
    static std::string fname(unsigned x) { auto k = kinds()[x]; return k.first != P_NONE ? utils::getPixTypeAsString(k.first) : utils::getVideoCodecAsString(k.second); }
    void misuse(const char *when) { MC_CHECK(bad.empty(), "device", "%s: %s", when, bad.c_str()); }
    void check(const char *when) {
        misuse(when);
        MC_CHECK(dev.open == on && dev.streaming == on, "status", "%s: the device is %s and %s, it should %s capturing", when, dev.open ? "open" : "closed", dev.streaming ? "streams" : "does not stream", on ? "be" : "not be");
        Jzon::Object o; v->getState(o); MC_CHECK(o.Get("status").ToString() == (on ? "capture" : "close"), "state", "%s: status %s", when, o.Get("status").ToString().c_str());
        if (on) {
            MC_CHECK(o.Get("device").ToString() == c.dev, "state", "%s: device '%s' instead of '%s'", when, o.Get("device").ToString().c_str(), c.dev);
            MC_CHECK(o.Get("width").ToInt() == (int)dev.f.width && o.Get("height").ToInt() == (int)dev.f.height && o.Get("format").ToString() == fname(dev.f.pixelformat), "state", "%s: %dx%d %s, the device gives %ux%u %s", when, o.Get("width").ToInt(), o.Get("height").ToInt(), o.Get("format").ToString().c_str(), dev.f.width, dev.f.height, fname(dev.f.pixelformat).c_str());
            MC_CHECK(o.Get("fps").ToInt() == 1000000 / D, "state", "%s: %d pictures per second, %lld expected", when, o.Get("fps").ToInt(), (long long)(1000000 / D));
            auto k = kinds()[dev.f.pixelformat]; MC_CHECK(v->oStreamInfo->video.codec == k.second && v->oStreamInfo->video.pixelFormat == k.first, "format", "%s: the stream is announced with codec %d, format %d", when, v->oStreamInfo->video.codec, v->oStreamInfo->video.pixelFormat);
            size_t back = dev.q.size(); MC_CHECK((int)back == (int)dev.b.size() - lost, "buffers", "%s: the device has %zu of its %zu buffers", when, back, dev.b.size());
        } else MC_CHECK(!o.Has("device"), "state", "%s: a device is reported", when);
    }
    void configure(const Conf &k, int fault, bool event, int eintr = 0) {
        mc::op("configure %s %dx%d, %d/s, %s%s%s", k.dev, k.w, k.h, k.fps, k.fmt, k.force ? "" : " (as it is)", event ? " by event" : "");
        bool valid = k.fps > 0 && k.fps <= 1000000; fault_at = fault; calls = 0; faulted.clear(); eintr_at = eintr; bool r = true;
        if (event) { Jzon::Object root, p; root.Add("action", "configure"); p.Add("device", k.dev); p.Add("width", k.w); p.Add("height", k.h); p.Add("fps", k.fps); if (*k.fmt) p.Add("format", k.fmt); if (!k.force) p.Add("forceformat", false); root.Add("params", p); root.Add("delay", 0); v->pushEvent(Event(root, std::chrono::system_clock::now())); mc::vclock_ns += 1000000; }
        else r = v->configure(k.dev, k.w, k.h, k.fps, k.fmt, k.force);
        fault_at = 0; eintr_at = 0;
        bool soft = faulted == "close" || faulted == "STREAMOFF"; bool ok = valid && (!strcmp(k.dev, "/dev/videoA") || !strcmp(k.dev, "/dev/videoB")) && (faulted.empty() || soft);
        if (!event) MC_CHECK(r == ok, "configure", "%s%s%s", r ? "accepted" : "refused", faulted.empty() ? "" : " although this failed: ", faulted.c_str());
        if (!valid) { check("after an impossible configuration"); return; }
        if (ok) {
            on = true; c = k; lost = 0; count = 0; sum = 0; D = 1000000 / (dev.name == "/dev/videoB" ? 30 : std::min(k.fps, 60)); MC_CHECK(dev.name == k.dev && dev.parm, "configure", "the device is %s", dev.name.c_str());
            if (k.force) { MC_CHECK(dev.f.width == std::min(std::max(k.w & ~3u, 8u), 64u) && dev.f.height == std::min(std::max(k.h & ~1u, 6u), 48u), "configure", "the device was set to %ux%u", dev.f.width, dev.f.height); unsigned w = fourcc(k.fmt); if (dev.name == "/dev/videoB" && w != V4L2_PIX_FMT_H264) w = V4L2_PIX_FMT_YUYV; MC_CHECK(dev.f.pixelformat == w, "configure", "the device was set to %s", fname(dev.f.pixelformat).c_str()); }
            else MC_CHECK(dev.f.width == 16 && dev.f.height == 12 && dev.f.pixelformat == V4L2_PIX_FMT_YUYV, "configure", "the format was changed");
        } else on = false;
        check("after the configuration");
    }
    void step(int scen) {
        static const char *N[] = {"picture there", "picture comes", "no picture in time", "waiting fails", "nothing to take", "taking fails", "giving back fails", "picture too large", "empty picture"};
        mc::op("capture: %s", N[scen]);
        dev.scen = scen; dev.size = image(dev.f); if (scen == LARGE) { if (dev.f.sizeimage <= cap) { dev.scen = scen = GO; } else dev.size = dev.f.sizeimage; } if (scen == EMPTY) dev.size = 0;
        size_t n = dev.size; if (on && dev.q.empty() && scen != SELECT_ERR && scen != TIMEOUT && scen != DQ_IO) scen = scen == COMES ? DQ_AGAIN + 100 : TIMEOUT;
        out->setConsumed(false); out->setLength(7); out->setSize(1, 1); out->setPixelFormat(P_NONE); memset(out->getDataBuf(), 0xee, cap);
        std::map<int, Frame*> d; d[1] = out.get(); int ret = -99; int64_t before = mc::vclock_ns / 1000; const int64_t slack = D / 64;
        bool plug = dev.plugged;
        bool r = v->doProcessFrame(d, ret);
        misuse("while capturing");
        if (!on) { MC_CHECK(!r && !out->getConsumed() && ret > 0, "idle", "a filter that does not capture delivered something or wants to run at once"); return; }
        int64_t now = mc::vclock_ns / 1000;
        if (before - wall > slack || wall - before > slack) wall = before; wall += D;
        bool good = plug && (scen == GO || scen == COMES) && n && n <= cap;
        if (scen == Q_ERR) { lost++; }
        if (plug && (scen == GO || scen == COMES || scen == LARGE || scen == EMPTY || scen == Q_ERR)) dev.taken++;
        if (scen == Q_ERR) good = out->getConsumed();           // may deliver or not
        MC_CHECK(r == good && out->getConsumed() == good, "delivery", "%s: %s", N[scen % 100], out->getConsumed() ? "a picture was delivered" : "no picture was delivered");
        if (good) {
            std::string w = content(dev.taken - 1, n);
            MC_CHECK(out->getLength() == n && !memcmp(out->getDataBuf(), w.data(), n), "picture", "the picture has %u bytes, the device gave %zu%s", out->getLength(), n, out->getLength() == n ? " others" : "");
            MC_CHECK(n == cap || out->getDataBuf()[n] == 0xee, "picture", "bytes beyond the picture were written");
            MC_CHECK(out->getWidth() == (int)dev.f.width && out->getHeight() == (int)dev.f.height && out->getPixelFormat() == kinds()[dev.f.pixelformat].first, "picture", "the picture is announced as %dx%d, format %d", out->getWidth(), out->getHeight(), out->getPixelFormat());
            MC_CHECK(out->getPresentationTime() == usec(now) && out->getDecodeTime() == usec(now), "times", "captured at %lld, stamped %lld", (long long)now, (long long)out->getPresentationTime().count());
        }
        MC_CHECK(llabs(ret - (wall - now)) <= 1, "pace", "wants to run again in %d us, the next picture is due in %lld", ret, (long long)(wall - now));
        if (good) {     // the real rate of the device
            if (count <= 128) { if (count) sum += now - lastT; count++; }
            else { sum -= sum / 128; sum += now - lastT; int64_t a = sum / 128; if (llabs(D - a) > D / 128) { D = a; } }
            lastT = now;
        }
        check("after capturing");
    }
};
void mc_body() {
    std::string mode = mc::sparam("mode", "run");
    mc::vclock_ns = 1447200000000000000ll; if (dev.open) { for (auto &b : dev.b) free(b.mem); } dev = Device(); bad.clear(); fault_at = eintr_at = 0; armed = true;
    World w; w.cap = mc::param("cap", 9300); w.out.reset(InterleavedVideoFrame::createNew(RAW, w.cap));
    w.v = new V4LCapture(); w.v->setId(4); w.wall = 0;
    const int nc = sizeof CONFS / sizeof *CONFS; w.check("at the beginning");
    auto confs = [&]() { std::string s = mc::sparam("confs", ""); if (s.empty()) return mc::choose(nc); std::vector<int> v; for (char c : s) v.push_back(c - 'a'); return v[mc::choose(v.size())]; };
    auto config = [&](bool ev) { const Conf &k = CONFS[confs()]; int nf = mc::param("faults", 0); int f = 0; if (nf) { f = mc::choose(nf + 1); } w.configure(k, f, ev); };
    mc::Hash oh;
    if (mode == "connect") {        // a filter can be connected while it captures something a queue exists for, and delivers through it
        w.configure(CONFS[mc::choose(10)], 0, mc::flip());
        Snk s; s.setId(9); std::string got; int rets = 0; s.body = [&](std::map<int, Frame*> &o, std::vector<int> &, int &) { Frame *f = o.begin()->second; got.assign((char*)f->getDataBuf(), f->getLength()); rets++; return true; };
        bool rel = mc::flip(); if (rel) { MC_CHECK(w.v->releaseDevice(), "release", "refused"); w.on = false; }
        bool can = w.on && dev.f.pixelformat != V4L2_PIX_FMT_MJPEG; bool r = w.v->connectOneToOne(&s); MC_CHECK(r == can, "connect", "%s", r ? "connected" : "not connected");
        if (r) for (int i = 0; i < 3; i++) { int ret = 0; dev.size = image(dev.f); dev.scen = GO; std::string want = content(dev.taken, dev.size); w.v->processFrame(ret); dev.taken++; s.processFrame(ret); MC_CHECK(rets == i + 1 && got == want, "picture", "picture %d has %zu bytes of %zu behind the queue", i, got.size(), want.size()); mc::vclock_ns += 40000000; }
        mc::Hash h; h.add(r).add(dev.f.pixelformat).add(w.on); mc::outcome(h.h); mc::state(h.h);
        if (r) { w.v->disconnectWriter(1); s.disconnectReader(1); }
        delete w.v; MC_CHECK(!dev.open && bad.empty(), "left", "the device stays open %s", bad.c_str()); armed = false; return;
    }
    if (mode == "leak") {
        delete w.v; size_t b0 = 0; int k = mc::choose(6), f = mc::choose(24);
        for (int i = 0; i < 3; i++) { bad.clear(); faulted.clear(); b0 = __sanitizer_get_current_allocated_bytes(); V4LCapture *v = new V4LCapture(); fault_at = f; calls = 0; for (int j = 0; j < 3; j++) { const Conf &c = CONFS[k]; v->configure(c.dev, c.w, c.h, c.fps, c.fmt, c.force); } fault_at = 0; delete v; std::string().swap(faulted); size_t a = __sanitizer_get_current_allocated_bytes(); if (i == 2) MC_CHECK(a <= b0 && bad.empty(), "left", "%zu bytes left behind %s", a - b0, bad.c_str()); }
        mc::outcome(k * 100 + f); mc::state(k * 100 + f); armed = false; return;
    }
    std::string menu = mc::sparam("menu", "CPWT"); const int depth = mc::param("depth", 4); int warm = mc::param("warm", 0);
    if (warm) { w.configure(CONFS[mc::param("first", 0)], 0, false); int64_t per = mc::param("period", 40000); for (int i = 0; i < warm; i++) { w.step(GO); mc::vclock_ns += per * 1000; } }
    for (int d = 0; d < depth; d++) {
        char c = menu[mc::choose(menu.size())]; 
        switch (c) {
        case 'C': config(false); break;
        case 'e': config(true); break;
        case 'r': { int nf = mc::param("faults", 0); int f = nf ? mc::choose(3) : 0; mc::op("release"); fault_at = f; calls = 0; MC_CHECK(w.v->releaseDevice(), "release", "refused"); fault_at = 0; w.on = false; w.check("after the release"); break; }
        case 'u': mc::op("unplugged"); dev.plugged = false; break;
        case 's': mc::op("time passes"); mc::vclock_ns += 100000000; break;
        case 'n': mc::op("a moment passes"); mc::vclock_ns += (w.D / 70 + 1) * 1000; break;
        case 'd': mc::op("a frame period passes"); mc::vclock_ns += w.D * 1000; break;
        case 'h': mc::op("half a frame period passes"); mc::vclock_ns += w.D / 2 * 1000; break;
        case 'i': { w.configure(CONFS[confs()], 0, false, 1 + mc::choose(14)); break; }
        case 'x': { static const char *lack[] = {"device", "width", "height", "fps"}; int k = mc::choose(9); mc::op("malformed event %d", k); Jzon::Object root, p; root.Add("action", "configure"); root.Add("delay", 0);
            for (int j = 0; j < 4; j++) { if (k == j) continue; if (k == 4 + j) { if (j) p.Add(lack[j], "many"); else p.Add(lack[j], 5); } else if (j) p.Add(lack[j], 25); else p.Add(lack[j], "/dev/videoA"); } if (k < 8) root.Add("params", p); w.v->pushEvent(Event(root, std::chrono::system_clock::now())); mc::vclock_ns += 1000000; w.check("after a malformed event"); break; }
        case 'P': w.step(GO); break; case 'W': w.step(COMES); break; case 'T': w.step(TIMEOUT); break; case 'E': w.step(SELECT_ERR); break; case 'A': w.step(DQ_AGAIN); break; case 'I': w.step(DQ_IO); break; case 'Q': w.step(Q_ERR); break; case 'L': w.step(LARGE); break; case 'Z': w.step(EMPTY); break;
        default: mc::harness_error("menu %c", c);
        }
        mc::Hash h; h.add(w.on).add(w.on ? dev.f.pixelformat : 0).add(w.on ? dev.f.width : 0).add(w.D).add(w.lost).add(dev.plugged); mc::state(h.h); oh.add(h.h);
    }
    mc::outcome(oh.h);
    delete w.v; MC_CHECK(!dev.open && bad.empty(), "left", "the device stays open %s", bad.c_str()); armed = false;
}
