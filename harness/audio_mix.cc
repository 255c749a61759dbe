// The audio mixer against a timeline model: every pattern of arrival of the
// inputs' frames (on time, missing, jittered, repeated, from the past, far
// ahead) and every sequence of control actions.
#include "filters.hh"
#include "AudioCircularBuffer.hh"
#include "modules/audioMixer/AudioMixer.hh"
#include <math.h>

struct Mixer : AudioMixer {
    Mixer(int n) : AudioMixer(n) { setId(50); }
    bool mix(std::map<int, Frame*> &o, Frame *d, std::vector<int> n) { return doProcessFrame(o, d, n); }
};
struct Feed : Common<HeadFilter> {
    Feed() : Common<HeadFilter>(1u, REGULAR, true) { fType = RECEIVER; }
    FrameQueue *allocQueue(ConnectionData c) { return AudioCircularBuffer::createNew(c, 2, 1000, 1, FLTP); }
    bool doProcessFrame(std::map<int, Frame*> &, int &) { return false; }
    WCONF
};
static const int N = 960, CAP = 5 * N, THRES = 3 * N, RATE = 48000;
static float val(unsigned id, int ch, int i) { return (float)((int)((id * 7919u + i * 37u + ch * 101u) % 2001) - 1000) / 1000.0f; }
static float squeeze(float x) { const float t = 0.6f; return x > t ? (1 - t) / (2 - t) * x + t / (2 - t) : x < -t ? (1 - t) / (2 - t) * x - t / (2 - t) : x; }

void mc_body() {
    const int depth = mc::param("depth", 3), nin = mc::param("inputs", 2), pre = mc::param("pre", 2), alpha = mc::param("alpha", 6);
    const std::string mode = mc::sparam("mode", "mix");
    mc::vclock_ns = 1000000000000ll;
    std::vector<std::unique_ptr<Feed>> feed; Mixer m(4);
    for (int i = 1; i <= nin; i++) { feed.emplace_back(new Feed()); feed.back()->setId(i); if (!feed.back()->connectOneToMany(&m, i * 3)) mc::fail("connect", "plain connection refused"); }
    std::vector<std::unique_ptr<PlanarAudioFrame>> in;
    for (int i = 0; i < nin; i++) in.emplace_back(PlanarAudioFrame::createNew(2, RATE, AudioFrame::getMaxSamples(RATE), PCM, FLTP));
    std::unique_ptr<PlanarAudioFrame> out(PlanarAudioFrame::createNew(2, RATE, AudioFrame::getMaxSamples(RATE), PCM, FLTP));
    // model
    std::map<int, float> gain; for (int i = 1; i <= nin; i++) gain[i * 3] = 1.0f;
    float master = 0.6f;
    std::vector<float> line[2]; line[0].assign(CAP, 0); line[1].assign(CAP, 0);   // from front on
    int64_t front = 0, rear = 0, t0 = -1; unsigned id = 1;
    std::vector<int64_t> tip(nin, 0);
    const int64_t base = mc::param("t0", 7000000);
    auto us = [](int64_t s) { return s * 1000000 / RATE; };
    bool delivered = false;
    auto step = [&](const std::vector<int> &what) {       // -1: no frame; otherwise the placement
        std::map<int, Frame*> o; std::vector<int> nw; std::string desc;
        for (int i = 0; i < nin; i++) {
            PlanarAudioFrame *f = in[i].get(); o[(i + 1) * 3] = f;
            if (what[i] < 0) continue;
            int64_t at = 0;                               // position in the current timeline, in microseconds
            int64_t start = t0 < 0 ? base : t0;
            switch (what[i]) {
            case 0: at = start + us(tip[i]); break;
            case 1: at = start + us(tip[i] + 1000); break;           // a gap
            case 2: at = start + us(std::max<int64_t>(tip[i] - 700, 0)); break;  // overlaps what it sent before
            case 3: at = start + us(front) - 500; break;             // before what was delivered
            case 4: at = start + us(front + CAP - N + 1) + 25; break;// beyond the buffer
            case 5: at = start - 3000000; break;                     // before the timeline
            case 6: at = start + us(front + CAP - N); break;         // last position
            case 7: at = start + us(tip[i]) + 3600000000ll * 5; break;
            }
            f->setPresentationTime(usec(at)); f->setSamples(N); f->setLength(N * 4);
            for (int c = 0; c < 2; c++) for (int k = 0; k < N; k++) ((float*)f->getPlanarDataBuf()[c])[k] = val(id, c, k);
            nw.push_back((i + 1) * 3); f->setConsumed(true);
            desc += " in" + std::to_string(i + 1) + "@" + std::to_string(at - start);
            // reference
            unsigned my = id++;
            if (CAP - (rear - front) < N) continue;
            if (t0 < 0) t0 = at;
            int64_t p = (at - t0) * RATE / 1000000;
            if (p >= 0 && p < front) continue;
            if (p < 0 || p > front + CAP - N) { line[0].assign(CAP, 0); line[1].assign(CAP, 0); front = rear = 0; t0 = at; p = 0; }
            for (int c = 0; c < 2; c++) for (int k = 0; k < N; k++) { float &x = line[c][p - front + k]; x = squeeze(x + val(my, c, k) * gain[(i + 1) * 3] * master); }
            rear = std::max(rear, p + N); tip[i] = p + N;
        }
        mc::op("mix:%s", desc.c_str());
        out->setConsumed(false); out->setPresentationTime(usec(-5)); out->setSamples(0); out->setLength(0);
        bool ok = m.mix(o, out.get(), nw);
        bool want = rear - front >= THRES; delivered = want;
        MC_CHECK(ok == want && out->getConsumed() == want, "delivery", "a mixed frame was %s although %ld samples are mixed", ok ? "delivered" : "not delivered", (long)(rear - front));
        if (want) {
            MC_CHECK(out->getSamples() == (unsigned)N && out->getLength() == N * 4u && out->getChannels() == 2 && out->getSampleRate() == RATE, "format", "mixed frame of %u samples, %u bytes, %u channels at %u Hz", out->getSamples(), out->getLength(), out->getChannels(), out->getSampleRate());
            MC_CHECK(out->getPresentationTime() == usec(us(front) + t0), "timestamp", "mixed frame at %ld, expected %ld", (long)out->getPresentationTime().count(), (long)(us(front) + t0));
            for (int c = 0; c < 2; c++) for (int k = 0; k < N; k++) { float g = ((float*)out->getPlanarDataBuf()[c])[k]; MC_CHECK(fabsf(g - line[c][k]) < 1e-4f, "samples", "channel %d sample %d of the mixed frame is %f, expected %f", c, k, g, line[c][k]); MC_CHECK(fabsf(g) <= 1.0001f, "clip", "sample %f out of range", g); }
            for (int c = 0; c < 2; c++) { line[c].erase(line[c].begin(), line[c].begin() + N); line[c].resize(CAP, 0); }
            front += N;
        }
        mc::Hash h; h.add(rear - front).add(t0 >= 0); for (auto t : tip) h.add(t - front); mc::state(h.h);
    };
    std::vector<int> all(nin, 0);
    auto check_state = [&] {
        Jzon::Object s; m.getState(s);
        MC_CHECK(fabsf(s.Get("masterGain").ToFloat() - master) < 1e-5f, "state", "master gain %f reported, expected %f", s.Get("masterGain").ToFloat(), master);
        const Jzon::Array &a = s.Get("gains").AsArray(); MC_CHECK(a.GetCount() == gain.size(), "state", "%zu gains reported, expected %zu", a.GetCount(), gain.size());
        for (size_t i = 0; i < a.GetCount(); i++) { int ch = a.Get(i).Get("id").ToInt(); float g = a.Get(i).Get("gain").ToFloat(); MC_CHECK(gain.count(ch) && fabsf(gain[ch] - g) < 1e-5f, "state", "gain of channel %d reported as %f", ch, g); }
    };
    if (mode == "convert") {                             // every 16 bit sample, and floats around and beyond full scale
        int hi = mc::choose(16) * 16; hi += mc::choose(16);
        for (int lo = 0; lo < 256; lo++) {
            unsigned char b[2] = {(unsigned char)lo, (unsigned char)hi}, r[2] = {0, 0}; float f = 9;
            if (!AudioMixer::bytesToFloat(b, f, S16P) || !AudioMixer::floatToBytes(r, f, S16P) || b[0] != r[0] || b[1] != r[1]) mc::fail("convert", "16 bit sample %02x%02x became %f and came back as %02x%02x", hi, lo, f, r[1], r[0]);
            MC_CHECK(f == (short)(lo | hi << 8) / 32768.0f, "convert", "16 bit sample %02x%02x became %f", hi, lo, f);
        }
        for (int k = -40; k <= 40; k++) {
            float x = k / 20.0f + hi / 10240.0f, g = 0; unsigned char b[4], r[2];
            MC_CHECK(AudioMixer::floatToBytes(b, x, FLTP) && AudioMixer::bytesToFloat(b, g, FLTP) && g == x, "convert", "float sample %f came back as %f", x, g);
            double w = std::max(-32768.0, std::min(32767.0, x * 32768.0));
            MC_CHECK(AudioMixer::floatToBytes(r, x, S16P) && fabs((short)(r[0] | r[1] << 8) - w) <= 1, "convert", "float sample %f became the 16 bit sample %d", x, (short)(r[0] | r[1] << 8));
        }
        unsigned char b[4]; float f; static const SampleFmt bad[] = {U8, S16, FLT, U8P, S_NONE};
        for (SampleFmt x : bad) MC_CHECK(!AudioMixer::bytesToFloat(b, f, x) && !AudioMixer::floatToBytes(b, 0, x), "convert", "unsupported format %d accepted", x);
        mc::op("convert %d", hi); mc::state(hi); mc::outcome(hi);
        return;
    }
    if (mode == "long") {                                // more than 2^32 samples
        int ret = 0; (void)ret;
        for (int64_t k = 0; k < (1ll << mc::param("bits", 32)) / N + 20; k++) {
            std::map<int, Frame*> o; PlanarAudioFrame *f = in[0].get(); o[3] = f; f->setSamples(N); f->setLength(N * 4); f->setPresentationTime(usec(base + us(k * N)));
            out->setConsumed(false); bool ok = m.mix(o, out.get(), std::vector<int>(1, 3));
            if (ok != (k >= 2)) mc::fail("delivery", "a mixed frame was %s after %ld frames", ok ? "delivered" : "not delivered", (long)k);
            if (ok && out->getPresentationTime() != usec(base + us((k - 2) * N))) mc::fail("timestamp", "mixed frame %ld at %ld, expected %ld", (long)k - 2, (long)out->getPresentationTime().count(), (long)(base + us((k - 2) * N)));
        }
        mc::op("hours of audio"); mc::state(1); mc::outcome(1);
        return;
    }
    for (int i = 0; i < pre; i++) step(all);
    if (mode == "mix") {
        for (int d = 0; d < depth; d++) {
            std::vector<int> w; for (int i = 0; i < nin; i++) w.push_back(mc::choose(alpha + 1) - 1);
            step(w);
        }
        for (int i = 0; i < 3; i++) step(std::vector<int>(nin, -1));
    } else {
        for (int d = 0; d < depth; d++) {
            int op = mc::choose(7), ret = 0;
            static const float vals[] = {0.25f, 1.0f, 0.0f, -0.5f, 1.5f};
            Jzon::Object root, p; bool known = true;
            int ch = op <= 2 ? (const int[]){3, 6, 4}[mc::choose(3)] : 0;    // 4 is not an input
            auto clamp = [](float v) { return v < 0 ? 0.0f : v > 1 ? 1.0f : v; };
            known = gain.count(ch) > 0;
            switch (op) {
            case 0: { float v = vals[mc::choose(5)]; mc::op("gain of %d to %g", ch, v); if (mc::flip()) m.changeChannelGain(ch, v); else { root.Add("action", "changeChannelGain"); p.Add("id", ch); p.Add("gain", v); root.Add("params", p); m.pushEvent(Event(root, std::chrono::system_clock::now(), 0)); } if (known) gain[ch] = clamp(v); break; }
            case 1: mc::op("mute %d", ch); m.muteChannel(ch); if (known) gain[ch] = 0; break;
            case 2: mc::op("solo %d", ch); m.soloChannel(ch); if (known) for (auto &g : gain) g.second = g.first == ch ? 1.0f : 0.0f; break;
            case 3: { float v = vals[mc::choose(5)]; mc::op("master gain to %g", v); m.changeMasterGain(v); master = clamp(v); break; }
            case 4: mc::op("mute master"); m.muteMaster(); master = 0; break;
            case 5: { static const char *acts[] = {"changeChannelGain", "muteChannel", "soloChannel", "changeMasterGain"}; int a = mc::choose(4); mc::op("%s without its parameters", acts[a]); root.Add("action", acts[a]); if (mc::flip()) { p.Add("x", 1); root.Add("params", p); } m.pushEvent(Event(root, std::chrono::system_clock::now(), 0)); break; }
            case 6: { int i = nin - 1; int pt = (i + 1) * 3; if (gain.count(pt)) { mc::op("input %d leaves", i + 1); m.disconnectReader(pt); gain.erase(pt); feed[i].reset(); } else { mc::op("input %d comes back", i + 1); feed[i].reset(new Feed()); feed[i]->setId(20 + d); if (!feed[i]->connectOneToMany(&m, pt)) mc::fail("connect", "plain connection refused"); gain[pt] = 1.0f; } break; }
            }
            mc::vclock_ns += 1000000; m.processFrame(ret); check_state();
        }
        std::vector<int> w; for (int i = 0; i < nin; i++) w.push_back(gain.count((i + 1) * 3) ? 0 : -1);
        step(w); step(std::vector<int>(nin, -1)); step(std::vector<int>(nin, -1));
    }
    mc::Hash h; h.add(rear - front).add(front).add(delivered).add((uint64_t)(master * 100)); for (auto &g : gain) h.add((uint64_t)(g.second * 100)); mc::outcome(h.h);
}
