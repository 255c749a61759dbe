// One producer and one consumer on the circular audio buffer; every schedule
// within the bound.  Accepted chunks come out exactly once, in order, unmixed.
#include "common.hh"
#include "sched.hh"
#include "AudioCircularBuffer.hh"

void sched_body() {
    const int rate = 1000, ms = 100, n = mc::param("chunks", 3), len = mc::param("len", 50), out = mc::param("out", 40);
    const int polls = mc::param("polls", 3);
    const int jump = mc::param("jump", -1);        // this chunk comes after a discontinuity
    const bool pre = mc::param("pre", 1);
    AudioCircularBuffer *b;
    std::vector<unsigned> line, got; std::vector<long> gotts;
    { sched::Atomic a; line.reserve(1000); got.reserve(1000); gotts.reserve(100); }
    b = AudioCircularBuffer::createNew(cdata(1, 1, 2, 1), 1, rate, ms, S16P);
    b->setOutputFrameSamples(out);
    int next = 1; long ts = 1000000; bool jumped = false;
    auto fill = [&](int k) {
        PlanarAudioFrame *f = dynamic_cast<PlanarAudioFrame*>(b->getRear());
        f->setSamples(k); f->setLength(k * 2); f->setPresentationTime(usec(ts));
        { sched::Atomic a; for (int i = 0; i < k; i++) { uint16_t v = next + i; ((uint16_t*)f->getPlanarDataBuf()[0])[i] = v; } }
        bool in = !b->addFrame().empty();
        sched::Atomic a;
        if (in) { for (int i = 0; i < k; i++) line.push_back(next + i); ts += k * 1000; }
        next += k;
        mc::op("write %d: %s", k, in ? "stored" : "refused");
        return in;
    };
    if (pre) fill(len);
    auto consume = [&]() -> bool {
        Frame *f0 = b->getFront();
        if (!f0) return false;
        std::vector<unsigned> first;
        { sched::Atomic a; for (int i = 0; i < out; i++) first.push_back(((uint16_t*)f0->getPlanarDataBuf()[0])[i]); gotts.push_back(f0->getPresentationTime().count()); }
        sched::point();
        { sched::Atomic a; for (int i = 0; i < out; i++) if (((uint16_t*)f0->getPlanarDataBuf()[0])[i] != first[i]) mc::fail("changed", "a held frame changed"); }
        b->removeFrame();
        sched::Atomic a;
        got.insert(got.end(), first.begin(), first.end());
        mc::op("read %d..%d", first.front(), first.back());
        return true;
    };
    std::thread prod([&] {
        for (int i = 0; i < n; i++) {
            if (i == jump) { sched::Atomic a; ts += 10000000; jumped = true; }
            fill(len);
        }
    });
    for (int i = 0; i < polls; i++) consume();
    prod.join();
    while (consume()) {}
    sched::Atomic a;
    if (!jumped) {
        size_t k = line.size() / out * out;
        if (got.size() != k) mc::fail("count", "%zu samples stored, %zu read, %zu expected", line.size(), got.size(), k);
        for (size_t i = 0; i < k; i++) if (got[i] != line[i]) mc::fail("samples", "sample %zu read is %u, stored %u", i, got[i], line[i]);
        for (size_t i = 0; i < gotts.size(); i++) if (gotts[i] != 1000000 + (long)i * out * 1000) mc::fail("timestamp", "frame %zu has time %ld", i, gotts[i]);
        if (b->getFreeSamples() != ms - (int)(line.size() - k)) mc::fail("free", "%d free samples at the end, %d expected", b->getFreeSamples(), ms - (int)(line.size() - k));
    } else {
        // a reset drops what was not read yet; what is read is still whole and ordered
        size_t j = 0; (void)j;
        for (size_t i = 0; i < got.size(); i++) {
            if (std::find(line.begin(), line.end(), got[i]) == line.end()) mc::fail("samples", "sample %u was read but never stored", got[i]);
            if (i && got[i] <= got[i-1]) mc::fail("samples", "sample %u read after %u", got[i], got[i-1]);
            if (i % out && got[i] != got[i-1] + 1) mc::fail("samples", "a frame joins samples %u and %u", got[i-1], got[i]);
        }
    }
    mc::outcome(mc::Hash().add(line.size()).add(got.size()).h); mc::state(mc::Hash().add(line.size()).add(got.size()).add(next).h);
    delete b;
}
