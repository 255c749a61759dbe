// The circular audio buffer against a timeline model, every sequence of chunk
// writes (on time, early, late, with gaps, with discontinuities), reads and
// releases up to a depth.
#include "common.hh"
#include "AudioCircularBuffer.hh"

static int RATE, CH, MS, BPS, THR, CAP, OUT;
static SampleFmt FMT;

static uint32_t val(unsigned id, int ch) {       // never 0
    uint32_t v = 1 + (id * 2654435761u >> 7) % 120 + ch;
    if (BPS == 1) return v;
    if (BPS == 2) return (v << 8) | (1 + (id & 0x7f));
    return (v << 24) | (1 + (id & 0xffff));
}
static void put(unsigned char *b, int i, uint32_t v) { memcpy(b + i * BPS, &v, BPS); }
static uint32_t get(unsigned char *b, int i) { uint32_t v = 0; memcpy(&v, b + i * BPS, BPS); return v; }

extern "C" size_t __sanitizer_get_current_allocated_bytes();
// every combination of creation parameters: a usable ring or none, and nothing left behind
static void create() {
    static const int CHS[] = {0, 1, 2, 3, 8}, RT[] = {0, 1, 999, 1000, 8000, 44100, 48000, 96000}, MX[] = {0, 1, 50, 400}, OUTS[] = {-1, 0, 1, 160, 1024, 4608}; static const SampleFmt FM[] = {U8P, S16P, FLTP, U8, S16, FLT, S_NONE};
    int ch = CHS[mc::choose(5)], rate = RT[mc::choose(8)], mx = MX[mc::choose(4)]; SampleFmt fm = FM[mc::choose(7)]; int out = OUTS[mc::choose(6)];
    static bool warm; size_t base = 0; bool did = false;
    for (int pass = 0; pass < (warm ? 1 : 2); pass++) {
        base = __sanitizer_get_current_allocated_bytes();
        AudioCircularBuffer *b = AudioCircularBuffer::createNew(cdata(1, 1, 2, 1), ch, rate, mx, fm);
        bool ok = ch >= 1 && ch <= 2 && rate >= 1000 && mx > 0 && (fm == U8P || fm == S16P || fm == FLTP);
        if (!pass) mc::op("%d channels at %d Hz, %d ms, format %d", ch, rate, mx, fm);
        MC_CHECK((b != NULL) == ok, "create", "a ring of %d channels at %d Hz, %d ms, format %d was %s", ch, rate, mx, fm, b ? "created" : "refused");
        did = ok;
        if (b) {
            int bps = fm == U8P ? 1 : fm == S16P ? 2 : 4, n0 = rate / 50, n = out > 0 ? out : n0; b->setOutputFrameSamples(out); mc::op("frames of %d samples", out);
            int total = 0, cap = mx * (rate / 1000); PlanarAudioFrame *f = dynamic_cast<PlanarAudioFrame*>(b->getRear());
            MC_CHECK(f && f->getMaxSamples() == (unsigned)rate / 10 && (int)f->getChannels() == ch && (int)f->getSampleRate() == rate && f->getSampleFmt() == fm, "rear", "wrong input frame");
            while (total < n) { int k = std::min(rate / 10, n - total); for (int c = 0; c < ch; c++) for (int i = 0; i < k * bps; i++) f->getPlanarDataBuf()[c][i] = (unsigned char)((total * bps + i) * 7 + c * 101 + 1); f->setSamples(k); f->setLength(k * bps); f->setPresentationTime(usec(5000000 + total * 1000000ll / rate));
                bool in = !b->addFrame().empty(); MC_CHECK(in == (total + k <= cap), "accept", "chunk of %d samples after %d in a ring of %d %s", k, total, cap, in ? "accepted" : "refused"); if (!in) break; total += k; }
            Frame *g = b->getFront(); MC_CHECK((g != NULL) == (total >= n), total >= n ? "missing" : "phantom", "%d samples of %d stored", total, n);
            if (g) { PlanarAudioFrame *o = dynamic_cast<PlanarAudioFrame*>(g); MC_CHECK(o && (int)o->getSamples() == n && (int)o->getLength() == n * bps && (int)o->getChannels() == ch && (int)o->getSampleRate() == rate && o->getSampleFmt() == fm && o->getPresentationTime() == usec(5000000), "size", "wrong output frame");
                for (int c = 0; c < ch; c++) for (int i = 0; i < n * bps; i++) MC_CHECK(o->getPlanarDataBuf()[c][i] == (unsigned char)(i * 7 + c * 101 + 1), "samples", "byte %d of channel %d differs", i, c); }
            delete b;
        }
    }
    if (warm) { size_t now = __sanitizer_get_current_allocated_bytes(); MC_CHECK(now <= base, "leak", "%zu bytes remain after the ring was destroyed", now - base); }
    warm = true; mc::outcome(mc::Hash().add(did).add(ch).add(rate).h); mc::state(mc::Hash().add(ch).add(rate).add(mx).add(fm).add(out).h);
}
void mc_body() {
    RATE = mc::param("rate", 1000); CH = mc::param("ch", 2); MS = mc::param("max", 200); OUT = mc::param("out", 40);
    FMT = (SampleFmt)mc::param("fmt", S16P);
    BPS = FMT == U8P ? 1 : FMT == S16P ? 2 : 4;
    const int depth = mc::param("depth", 5);
    const long us = 1000000 / RATE;      // rates chosen so that this is exact
    THR = 64;                             // samples of tolerated deviation
    CAP = MS * (RATE / 1000);
    const int N1 = mc::param("n1", 50), N2 = mc::param("n2", 77);
    if (mc::param("create", 0)) { create(); return; }
    AudioCircularBuffer *b = AudioCircularBuffer::createNew(cdata(1, 1, 2, 1), CH, RATE, MS, FMT);
    MC_CHECK(b, "create", "buffer not created");
    b->setOutputFrameSamples(OUT);
    std::vector<unsigned> line;           // one entry per stored sample; 0 is silence (0x80 for unsigned samples)
    long front = 0; bool sync = false; long t0 = 0;
    long base = mc::param("t0", 5000000);
    unsigned next = 1; size_t lost = 0;
    bool held = false; std::vector<unsigned> heldv; long heldts = 0, heldorg = 0, org = 0;
    auto write = [&](int n, long dev /* samples from the rear */) {
        long rearTs = sync ? t0 + (long)line.size() * us : base;
        long ts = rearTs + dev * us;
        PlanarAudioFrame *f = dynamic_cast<PlanarAudioFrame*>(b->getRear());
        MC_CHECK(f, "rear", "no planar input frame");
        f->setSamples(n); f->setLength(n * BPS); f->setPresentationTime(usec(ts)); f->setOriginTime(std::chrono::system_clock::time_point(usec(2000000 + 13 * (long)next)));
        for (int i = 0; i < n; i++) for (int c = 0; c < CH; c++) put(f->getPlanarDataBuf()[c], i, val(next + i, c));
        std::vector<int> en = b->addFrame();
        mc::op("write %d samples at %+ld from the end", n, dev);
        bool want = true;
        if (!sync) { sync = true; t0 = ts; dev = 0; }
        long avail = CAP - ((long)line.size() - front);
        if (dev < -THR) want = false;
        else {
            if (dev > THR) {
                if (dev >= MS) { line.clear(); front = 0; sync = false; lost++; want = false; base = ts + n * us; }
                else if (dev > avail) want = false;
                else { line.insert(line.end(), dev, 0); avail -= dev; }
            }
            if (want && n > avail) want = false;
            if (want) for (int i = 0; i < n; i++) line.push_back(next + i);
            if (want) org = 2000000 + 13 * (long)next;
        }
        next += n;
        MC_CHECK(en.empty() == !want && (en.empty() || (en.size() == 1 && en[0] == 2)), "accept", "chunk of %d at %+ld samples %s but should be %s", n, dev, en.empty() ? "refused" : "accepted", want ? "accepted" : "refused");
    };
    auto read = [&]() {
        Frame *f0 = b->getFront();
        mc::op("read");
        if (!held && (long)line.size() - front < OUT) { MC_CHECK(!f0, "phantom", "a frame was delivered with only %ld samples stored", (long)line.size() - front); return; }
        MC_CHECK(f0, "missing", "no frame although %ld samples are stored", (long)line.size() - front);
        if (!held) { heldv.assign(line.begin() + front, line.begin() + front + OUT); heldts = t0 + front * us; front += OUT; held = true; heldorg = org - ((long)line.size() - front) * 1000000 / RATE; }
        PlanarAudioFrame *f = dynamic_cast<PlanarAudioFrame*>(f0);
        MC_CHECK(f && (int)f->getSamples() == OUT && (int)f->getLength() == OUT * BPS, "size", "delivered frame has the wrong size");
        MC_CHECK(f->getPresentationTime() == usec(heldts), "timestamp", "frame delivered with time %ld, its first sample belongs at %ld", (long)f->getPresentationTime().count(), heldts);
        long o = std::chrono::duration_cast<usec>(f->getOriginTime().time_since_epoch()).count();
        MC_CHECK(mc::param("long", 0) || o == heldorg, "origin-time", "frame delivered with origin time %ld, expected %ld (that of the last chunk less the time stored after the frame)", o, heldorg);
        for (int c = 0; c < CH; c++) for (int i = 0; i < OUT; i++) {
            uint32_t w = heldv[i] ? val(heldv[i], c) & (BPS == 4 ? 0xffffffffu : (1u << 8 * BPS) - 1) : FMT == U8P ? 0x80 : 0;
            MC_CHECK(get(f->getPlanarDataBuf()[c], i) == w, heldv[i] ? "samples" : "silence", "channel %d sample %d of the frame at %ld: got %#x, expected %#x", c, i, heldts, get(f->getPlanarDataBuf()[c], i), w);
        }
    };
    auto release = [&]() { int w = b->removeFrame(); mc::op("release"); MC_CHECK(w == 1, "writer", "release must enable the writer"); held = false; };
    if (mc::param("long", 0)) {            // the stream has been running for 2^32 samples
        const int big = 800; const long step = 40 * big; long pos = 0; const long end = (1ll << 32) - 96;
        b->setOutputFrameSamples(big);
        PlanarAudioFrame *f = dynamic_cast<PlanarAudioFrame*>(b->getRear());
        sync = true; t0 = base;
        while (pos < end / big * big) {
            long n = std::min(step, end / big * big - pos), pad = pos && n > 100 ? n - 1 : 0, k = n - pad; if (!pos) k = n = big;
            f->setSamples(k); f->setLength(k * BPS); f->setPresentationTime(usec(t0 + (pos + pad) * us));
            for (int c = 0; c < CH; c++) memset(f->getPlanarDataBuf()[c], 0, k * BPS);
            if (b->addFrame().empty()) mc::fail("accept", "a chunk was refused at sample %ld of a long stream", pos);
            for (long i = 0; i < n; i += big) {
                Frame *o = b->getFront();
                if (!o) mc::fail("missing", "no frame at sample %ld of a long stream", pos + i);
                if (o->getPresentationTime() != usec(t0 + (pos + i) * us)) mc::fail("timestamp", "frame at sample %ld of a long stream delivered with time %ld, expected %ld", pos + i, (long)o->getPresentationTime().count(), (long)(t0 + (pos + i) * us));
                b->removeFrame();
            }
            pos += n;
        }
        mc::op("%ld samples go by", pos);
        b->setOutputFrameSamples(OUT); t0 += pos * us; base = t0;
        for (int i = 0; i < 4; i++) write(N1, 0);
    }
    for (int d = 0; d < depth; d++) {
        switch (mc::choose(11)) {
        case 0: write(N1, 0); break;
        case 1: write(N2, 0); break;
        case 2: write(N1, THR); break;
        case 3: write(N1, THR + 1); break;
        case 4: write(N2, -THR); break;
        case 5: write(N1, -THR - 1); break;
        case 6: write(N1, MS - 1); break;
        case 7: write(N1, MS); break;
        case 8: read(); break;
        case 9: if (!held) mc::prune(); release(); break;
        case 10: read(); if (held) { release(); read(); if (held) release(); } break;
        }
        MC_CHECK(b->getLostBlocs() == lost, "lost", "%zu resets counted, %zu happened", b->getLostBlocs(), lost);
        long el = (long)line.size() - front;
        MC_CHECK(b->getFreeSamples() == CAP - el, "free", "%d free samples reported, %ld expected", b->getFreeSamples(), CAP - el);
        MC_CHECK((long)b->getElements() == el / OUT, "elements", "%u frames reported, %ld expected", b->getElements(), el / OUT);
        mc::Hash h; h.add(el).add(held).add(line.size() % CAP).add(lost > 0); mc::state(h.h);
    }
    // drain: everything still stored comes out
    if (held) release();
    while ((long)line.size() - front >= OUT) { read(); if (held) release(); }
    read();
    mc::outcome(mc::Hash().add(line.size()).add(front).add(lost).h);
    delete b;
}
