// The shared memory filter against a reference: every sequence of pictures or
// NAL units, with the reader releasing the memory at any time.
#include "shm.hh"
#include <malloc.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static const size_t MAXDATA = 1920 * 1080 * 3;

struct Pic { unsigned seq, pix, codec, w, h; int64_t t; std::string data; };
struct World {
    SharedMemory *f = nullptr; VCodecType codec;
    bool ready = false; Pic shown;                       // what the segment should hold
    unsigned seq = 0; int64_t t; uint8_t *mem;
    // H.264: the access unit being collected
    Pic unit; bool any = false, delim = false, big = false; size_t usize = 0;
    std::unique_ptr<InterleavedVideoFrame> in, out; size_t cap;

    void check(const char *when) {
        uint8_t a = *mem;
        MC_CHECK(a == (ready ? '1' : '0'), "handshake", "%s: the memory is %s, it should be %s", when, a == '1' ? "for the reader" : a == '0' ? "for the writer" : "neither for the reader nor the writer", ready ? "for the reader" : "for the writer");
        if (!ready) return;
        Seen s = header(mem);
        MC_CHECK(s.len == shown.data.size(), "content", "%s: length %u, the picture has %zu", when, s.len, shown.data.size());
        MC_CHECK(!memcmp(mem + 24, shown.data.data(), shown.data.size()), "content", "%s: the data is not that of picture %u", when, shown.seq);
        MC_CHECK(s.seq == (shown.seq & 0xffff) && s.pix == shown.pix && s.codec == shown.codec && s.w == shown.w && s.h == shown.h, "header", "%s: number %u, format %u, codec %u, %ux%u; the picture is number %u, format %u, codec %u, %ux%u", when, s.seq, s.pix, s.codec, s.w, s.h, shown.seq, shown.pix, shown.codec, shown.w, shown.h);
        MC_CHECK(s.sec == (uint32_t)(shown.t / 1000000) && s.us == (uint32_t)(shown.t % 1000000), "header", "%s: time %u.%06u, the picture is of %lld", when, s.sec, s.us, (long long)shown.t);
    }
    // one frame through the filter; out must be an exact copy
    void feed(const std::string &d, VCodecType c, unsigned w, unsigned h, PixType p) {
        in->setLength(d.size()); memcpy(in->getDataBuf(), d.data(), d.size()); in->setSize(w, h); in->setPixelFormat(p); in->codec = c;
        in->setPresentationTime(usec(t)); in->setDecodeTime(usec(t - 7)); in->setSequenceNumber(seq); in->setOriginTime(std::chrono::system_clock::time_point(std::chrono::microseconds(t * 3)));
        out->setConsumed(false); out->setLength(1); out->setSize(1, 1); out->setPresentationTime(usec(-1)); memset(out->getDataBuf(), 0xee, std::min(cap, d.size() + 64));
        MC_CHECK(f->doProcessFrame(in.get(), out.get()), "pass", "the frame was not processed");
        MC_CHECK(out->getConsumed() && out->getLength() == d.size() && !memcmp(out->getDataBuf(), d.data(), d.size()) && out->getWidth() == (int)w && out->getHeight() == (int)h && out->getPixelFormat() == p, "pass", "the frame did not pass unchanged (%u bytes of %zu)", out->getLength(), d.size());
        MC_CHECK(out->getPresentationTime() == usec(t) && out->getDecodeTime() == usec(t - 7) && out->getSequenceNumber() == seq && out->getOriginTime() == in->getOriginTime(), "pass", "the times of the frame did not pass");
        if (cap > d.size() + 64) MC_CHECK(out->getDataBuf()[d.size()] == 0xee, "pass", "bytes were written beyond the frame");
        MC_CHECK(in->getLength() == d.size() && !memcmp(in->getDataBuf(), d.data(), d.size()), "pass", "the frame was changed");
        seq++;
    }
    void raw(unsigned w, unsigned h, PixType p, size_t n) {
        std::string d(n, 0); unsigned x = seq * 37 + 11; size_t k = std::min<size_t>(n, 4096); for (size_t i = 0; i < k; i++) d[i] = (char)(x + i * 13), d[n - 1 - i] = (char)(x * 3 + i * 7);
        static const std::map<int, int> F = {{RGB24, 1}, {RGB32, 2}, {YUV420P, 3}, {YUV422P, 4}, {YUV444P, 5}, {YUYV422, 6}, {YUVJ420P, 7}};
        Pic q; q.seq = seq; q.codec = 4; q.pix = F.at(p); q.w = w; q.h = h; q.t = t; q.data = d;
        mc::op("picture %u of %ux%u, format %u, %zu bytes%s", seq, w, h, q.pix, n, ready ? " (memory not released)" : "");
        bool was = ready;
        feed(d, RAW, w, h, p);
        if (!was && n <= MAXDATA) { ready = true; shown = q; }
    }
    void nal(char c) {
        const char *k; std::string sc = seq % 2 ? std::string("\0\0\0\1", 4) : std::string("\0\0\1", 3), body; size_t n = 3 + seq % 5; int type = 1;
        switch (c) {
        case 'a': k = "delimiter"; type = 9; n = 1; break;
        case 's': k = "SPS"; type = 7; break;
        case 'p': k = "PPS"; type = 8; break;
        case 'e': k = "SEI"; type = 6; break;
        case 'i': k = "IDR slice"; type = 5; break;
        case 'n': k = "slice"; break;
        case 'u': k = "unit of unknown type"; type = 12; break;
        case 'x': k = "unit without start code"; sc = ""; type = 5; break;
        case 'z': k = "start code and nothing else"; n = 0; break;
        case 'y': k = "nothing"; n = 0; sc = ""; break;
        case 'o': k = "slice with one byte"; n = 0; body = "\x41"; break;
        case 'b': k = "large slice"; n = 3000000; break;
        default: mc::harness_error("menu %c", c);
        }
        if (n) { body.assign(n, 0); for (size_t i = 0; i < std::min<size_t>(n, 999); i++) body[i] = (char)(seq * 29 + i * 5 + 17), body[n - 1 - i] = (char)(seq + i); body[0] = (char)(0x60 | type); }
        if (c == 'x') body[0] = 0x65;
        mc::op("%s (%u)%s", k, seq, ready ? " (memory not released)" : "");
        bool was = ready, flush = delim; unsigned me = seq;
        feed(sc + body, H264, 64, 48, P_NONE);
        if (flush) {        // the unit before the delimiter is complete
            if (any && !was && !big) { ready = true; shown = unit; }
            any = big = false; usize = 0; unit.data.clear();
        }
        if (body.empty() || sc.empty() || c == 'u') return;
        if (c == 'a') { delim = true; return; }
        delim = false;
        if (!any) { any = true; unit.seq = me; unit.codec = 1; unit.pix = 0; unit.w = 64; unit.h = 48; unit.t = t; unit.data.clear(); usize = 0; }
        usize += 4 + body.size(); if (usize > MAXDATA) big = true;
        if (!big) unit.data += std::string("\0\0\0\1", 4) + body; else unit.data.clear();
    }
};

static void creation() {
    seg_reset();
    VCodecType c = (VCodecType)(const int[]){RAW, H264, H265, VP8, MJPEG, VC_NONE}[mc::choose(6)]; bool ok = c == RAW || c == H264;
    int fault = mc::choose(4); fail_get = fault == 1; fail_at = fault == 2; if (fault == 3) { seg.exists = true; seg.key = 1985; }
    bool random = fault != 3 && mc::flip();
    mc::op("create for %s%s%s", utils::getVideoCodecAsString(c).c_str(), random ? " with any key" : "", fault == 1 ? ", no memory" : fault == 2 ? ", cannot be attached" : fault == 3 ? ", the key is used" : "");
    size_t before = __sanitizer_get_current_allocated_bytes();
    SharedMemory *s = random ? SharedMemory::createNew(c) : SharedMemory::createNew(1985, c);
    MC_CHECK((s != NULL) == (ok && !fault), "create", "%s", s ? "created" : "not created");
    if (s) {
        MC_CHECK(seg.exists && seg.attached == 1 && seg.size == MAXDATA + 24 && (seg.flags & IPC_EXCL), "create", "no segment of the size of a picture");
        MC_CHECK(random ? seg.key >= 1 && seg.key <= 10000 : seg.key == 1985, "create", "key %ld", seg.key);
        MC_CHECK(s->getSharedMemoryID() == (size_t)SEG_ID && *seg.mem == '0', "create", "the memory does not begin with the writer");
        s->setId(3); Jzon::Object o; s->getState(o);
        MC_CHECK(o.Get("codec").ToString() == utils::getVideoCodecAsString(c) && o.Get("key").ToInt() == seg.key && o.Get("memoryId").ToInt() == SEG_ID, "state", "codec %s, key %d, memory %d", o.Get("codec").ToString().c_str(), o.Get("key").ToInt(), o.Get("memoryId").ToInt());
        SharedMemory *t = SharedMemory::createNew(seg.key, c); MC_CHECK(!t, "create", "two filters share a segment"); MC_CHECK(seg.exists && seg.attached == 1, "create", "a filter that was refused took the segment of another one");
        delete s;
    }
    MC_CHECK(seg.attached == 0 && seg.exists == (fault == 3) && seg.misuse.empty(), "left", "the segment was %s %s", seg.exists ? "left behind" : "removed", seg.misuse.c_str());
    seg.mem = nullptr;
    static std::map<std::string, int> again; std::string key = std::to_string(c) + "/" + std::to_string(fault) + (random ? "r" : "");
    (void)before; mc::Hash h; h.add(c).add(fault).add(random).add(s != NULL); mc::outcome(h.h); mc::state(h.h);
}
void mc_body() {
    std::string mode = mc::sparam("mode", "raw");
    if (mode == "create") { size_t b = 0; (void)b; creation(); return; }
    if (mode == "leak") {       // nothing is left by what could not be created, nor by what was
        int k = mc::choose(5); for (int i = 0; i < 3; i++) { size_t b = __sanitizer_get_current_allocated_bytes(); seg_reset(); fail_get = k == 1; fail_at = k == 2; if (k == 3) { seg.exists = true; seg.key = 5; }
            SharedMemory *s = SharedMemory::createNew(5, k == 4 ? VP8 : RAW); delete s; seg_reset(); size_t a = __sanitizer_get_current_allocated_bytes(); if (i == 2) MC_CHECK(a <= b, "left", "%zu bytes left behind", a - b); }
        mc::outcome(k); mc::state(k); return;
    }
    seg_reset();
    World w; w.codec = mode == "raw" ? RAW : H264; w.t = mc::param("t0", 1447200000) * 1000000ll + 40000; w.seq = mc::param("seq0", 0);
    w.f = SharedMemory::createNew(1985, w.codec); MC_CHECK(w.f, "create", "not created"); w.mem = seg.mem;
    w.cap = mc::param("cap", 4096); w.in.reset(InterleavedVideoFrame::createNew(w.codec, w.cap)); w.out.reset(InterleavedVideoFrame::createNew(w.codec, w.cap));
    std::string menu = mc::sparam("menu", "FGr"); const int depth = mc::param("depth", 6); size_t low = 0;
    w.check("at the beginning");
    for (int d = 0; d < depth; d++) {
        char c = menu[mc::choose(menu.size())]; w.t += 33333;
        switch (c) {
        case 'r': mc::op("the reader %s", w.ready ? "takes the picture" : "finds nothing"); if (w.ready) { memset(w.mem + 1, 0x55, 100); *w.mem = '0'; w.ready = false; } break;
        case 'F': w.raw(16, 8, YUV420P, 16 * 8 * 3 / 2); break;
        case 'G': { static const struct { PixType p; unsigned w, h; size_t n; } A[] = {{RGB24, 4, 3, 36}, {RGB32, 6, 2, 48}, {YUV422P, 6, 4, 48}, {YUV444P, 5, 3, 45}, {YUYV422, 8, 2, 32}, {YUVJ420P, 4, 4, 24}}; auto &x = A[mc::choose(6)]; w.raw(x.w, x.h, x.p, x.n); break; }
        case 'H': w.raw(1920, 1080, RGB24, 1920 * 1080 * 3); break;
        case 'K': w.raw(1920, 1088, RGB24, 1920 * 1088 * 3); break;
        default: w.nal(c);
        }
        w.check("afterwards");
        if (mc::param("bound", 0)) { size_t n = __sanitizer_get_current_allocated_bytes(); if (!low) low = n; MC_CHECK(n < low + 4 * MAXDATA, "memory", "the filter holds %zu bytes more than at the beginning", n - low); }
        mc::Hash h; h.add(w.ready).add(w.any).add(w.delim).add(w.big).add(std::min<size_t>(w.usize, 64)); mc::state(h.h);
    }
    mc::Hash h; h.add(w.ready).add(w.ready ? w.shown.seq : 0).add(w.ready ? w.shown.data.size() : 0); mc::outcome(h.h);
    uint8_t *m = seg.mem; delete w.f; MC_CHECK(!seg.exists && !seg.attached && seg.misuse.empty(), "left", "the segment was left behind %s", seg.misuse.c_str()); (void)m;
    seg_reset();
}
