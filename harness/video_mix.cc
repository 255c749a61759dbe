// The video mixer against a painter's model: every sequence of channel and
// layout configurations, inputs leaving and coming back, and mixing steps.
#include "filters.hh"
#include "modules/videoMixer/VideoMixer.hh"
#include <math.h>

struct Mixer : VideoMixer {
    Mixer(int n, int w, int h, usec ft) : VideoMixer(n, w, h, ft) { setId(50); }
    bool mix(std::map<int, Frame*> &o, Frame *d) { return doProcessFrame(o, d, std::vector<int>()); }
    usec ft() { return getFrameTime(); } usec sts() { return getSyncTs(); } void sts(usec t) { setSyncTs(t); }
};
struct Chan { double w = 1, h = 1, x = 0, y = 0; int layer = 0; bool on = false; double op = 1; };
struct Img { int w, h; std::vector<unsigned char> d; };

// A picture whose every pixel is known at every scale: slow ramps in both directions.
static Img picture(int w, int h, unsigned v) {
    Img i{w, h, std::vector<unsigned char>(w * h * 3)};
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        unsigned char *p = &i.d[(y * w + x) * 3];
        p[0] = 40 + (v * 67) % 100 + (int)lround(64 * (x + .5) / w); p[1] = 30 + (v * 41) % 90 + (int)lround(64 * (y + .5) / h); p[2] = (v * 29) % 200 + 20;
    }
    return i;
}
static double want_at(const Img &i, int w, int h, int x, int y, int c, unsigned v) {
    if (i.w == w && i.h == h) return i.d[(y * w + x) * 3 + c];
    double u = (x + .5) / w, t = (y + .5) / h;
    return c == 0 ? 40 + (v * 67) % 100 + 64 * u : c == 1 ? 30 + (v * 41) % 90 + 64 * t : (v * 29) % 200 + 20;
}

void mc_body() {
    const int depth = mc::param("depth", 2), nin = mc::param("inputs", 2), MAXCH = mc::param("channels", 4), ftime = mc::param("frametime", 0);
    int W = 16, H = 12; int64_t ft = ftime;
    mc::vclock_ns = 1000000000000ll;
    MC_CHECK(!VideoMixer::createNew(2, 0, 10) && !VideoMixer::createNew(2, 10, -1) && !VideoMixer::createNew(2, DEFAULT_WIDTH + 1, 10) && !VideoMixer::createNew(2, 10, DEFAULT_HEIGHT + 1) && !VideoMixer::createNew(2, 10, 10, usec(-1)), "create", "a mixer with an impossible layout was created");
    struct Feed : Common<HeadFilter> { Feed() : Common<HeadFilter>(1u, REGULAR, true) { fType = RECEIVER; } bool doProcessFrame(std::map<int, Frame*> &, int &) { return false; } WCONF };
    std::vector<std::unique_ptr<Feed>> feed; Mixer m(MAXCH, W, H, usec(ftime));
    std::map<int, Chan> conf;
    auto join = [&](int i, int fid) { feed[i].reset(new Feed()); feed[i]->setId(fid); if (!feed[i]->connectOneToMany(&m, i + 1)) mc::fail("connect", "plain connection refused"); conf[i + 1] = Chan(); };
    feed.resize(nin); for (int i = 0; i < nin; i++) join(i, i + 1);
    const size_t CAP = 20 * 16 * 3;
    std::unique_ptr<InterleavedVideoFrame> out(InterleavedVideoFrame::createNew(RAW, 20, 16, RGB24));
    MC_CHECK(out->getMaxLength() == CAP, "frame", "unexpected frame capacity %u", out->getMaxLength());
    // inputs of several sizes: the layout's, half of it, unrelated ones
    static const int SZ[][2] = {{16, 12}, {8, 6}, {12, 12}, {16, 8}};
    unsigned stepno = 0;
    auto step = [&](int mask) {
        std::map<int, Frame*> o; std::map<int, Img> pic; std::vector<std::unique_ptr<InterleavedVideoFrame>> keep; std::map<int, int64_t> pts; stepno++;
        for (auto &c : conf) {
            int i = c.first - 1; if (!(mask >> i & 1)) continue;
            const int *z = SZ[(i * 3 + stepno) % 4];
            Img p = picture(z[0], z[1], i * 5 + stepno); keep.emplace_back(InterleavedVideoFrame::createNew(RAW, z[0], z[1], RGB24));
            memcpy(keep.back()->getDataBuf(), p.d.data(), p.d.size()); keep.back()->setLength(p.d.size());
            pts[c.first] = 5000000 + stepno * 40000 + (i % 2 ? -7 : 11) * 1000; keep.back()->setPresentationTime(usec(pts[c.first]));
            o[c.first] = keep.back().get(); pic[c.first] = p;
        }
        // reference
        std::vector<double> ref(W * H * 3, 0); std::vector<double> tol(W * H * 3, 0); int64_t newest = 0;
        for (int lay = 0; lay <= MAXCH; lay++) for (auto &c : conf) {
            if (!pic.count(c.first) || c.second.layer != lay || !c.second.on) continue;
            newest = std::max(newest, pts[c.first]);
            int w = (float)c.second.w * W, h = (float)c.second.h * H, x0 = (float)c.second.x * W, y0 = (float)c.second.y * H;
            for (int y = 0; y < h && y + y0 < H; y++) for (int x = 0; x < w && x + x0 < W; x++) for (int k = 0; k < 3; k++) {
                double v = want_at(pic[c.first], w, h, x, y, k, (c.first - 1) * 5 + stepno); size_t at = ((y + y0) * W + x + x0) * 3 + k;
                bool exact = pic[c.first].w == w && pic[c.first].h == h; double slack = exact ? 0 : 12;
                ref[at] = v * c.second.op + ref[at] * (1 - c.second.op); tol[at] = slack * c.second.op + tol[at] * (1 - c.second.op) + (c.second.op == 1 ? 0 : .51);
            }
        }
        std::string desc; for (auto &p : pts) desc += " " + std::to_string(p.first) + "@" + std::to_string(p.second); mc::op("mix%s into %dx%d", desc.c_str(), W, H);
        memset(out->getDataBuf(), 0xEE, CAP); out->setConsumed(false); out->setPresentationTime(usec(-5)); out->setDecodeTime(usec(-6)); out->setLength(1); out->setSize(1, 1);
        if (ft > 0) m.sts(usec(777000 + stepno));
        bool ok = m.mix(o, out.get());
        MC_CHECK(ok && out->getConsumed(), "delivery", "no frame was made");
        MC_CHECK(out->getWidth() == W && out->getHeight() == H && out->getLength() == (unsigned)W * H * 3, "format", "frame of %dx%d and %u bytes for a layout of %dx%d", out->getWidth(), out->getHeight(), out->getLength(), W, H);
        int64_t wp = ft > 0 ? 777000 + stepno : newest;
        MC_CHECK(out->getPresentationTime() == usec(wp) && out->getDecodeTime() == usec(wp), "timestamp", "mixed frame at %ld / %ld, expected %ld", (long)out->getPresentationTime().count(), (long)out->getDecodeTime().count(), (long)wp);
        MC_CHECK(m.sts() == usec(wp), "timestamp", "synchronisation time %ld, expected %ld", (long)m.sts().count(), (long)wp);
        for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) for (int k = 0; k < 3; k++) { size_t at = (y * W + x) * 3 + k; double g = out->getDataBuf()[at]; MC_CHECK(fabs(g - ref[at]) <= tol[at], "pixels", "pixel (%d,%d) component %d of the mixed frame is %g, expected %g", x, y, k, g, ref[at]); }
        for (size_t k = W * H * 3; k < CAP; k++) MC_CHECK(out->getDataBuf()[k] == 0xEE, "pixels", "byte %zu beyond the picture was written", k);
        for (auto &p : pic) MC_CHECK(!memcmp(o[p.first]->getDataBuf(), p.second.d.data(), p.second.d.size()), "pixels", "mixing changed the picture of input %d", p.first);
    };
    auto feq = [](double a, double b) { return fabs(a - b) < 1e-4; };
    auto check_state = [&] {
        Jzon::Object s; m.getState(s);
        MC_CHECK(s.Get("width").ToInt() == W && s.Get("height").ToInt() == H && s.Get("maxChannels").ToInt() == MAXCH, "state", "layout %dx%d (%d channels) reported", s.Get("width").ToInt(), s.Get("height").ToInt(), s.Get("maxChannels").ToInt());
        const Jzon::Array &a = s.Get("channels").AsArray(); MC_CHECK(a.GetCount() == conf.size(), "state", "%zu channels reported, %zu inputs", a.GetCount(), conf.size());
        for (size_t i = 0; i < a.GetCount(); i++) {
            const Jzon::Node &n = a.Get(i); int id = n.Get("id").ToInt(); MC_CHECK(conf.count(id), "state", "channel %d reported", id); Chan c = conf[id];
            MC_CHECK(feq(n.Get("width").ToDouble(), c.w) && feq(n.Get("height").ToDouble(), c.h) && feq(n.Get("x").ToDouble(), c.x) && feq(n.Get("y").ToDouble(), c.y) && n.Get("layer").ToInt() == c.layer && n.Get("enabled").ToBool() == c.on && feq(n.Get("opacity").ToDouble(), c.op), "state",
                "channel %d reported as %gx%g at %g,%g layer %d enabled %d opacity %g", id, n.Get("width").ToDouble(), n.Get("height").ToDouble(), n.Get("x").ToDouble(), n.Get("y").ToDouble(), n.Get("layer").ToInt(), n.Get("enabled").ToBool(), n.Get("opacity").ToDouble());
        }
        MC_CHECK(m.ft() == usec(ft), "state", "frame time %ld, expected %ld", (long)m.ft().count(), (long)ft);
    };
    struct { Chan c; bool ok; } alpha[] = {
        {{1, 1, 0, 0, 0, true, 1}, true}, {{.5, .5, .5, .5, 1, true, 1}, true}, {{.5, .5, .25, 0, 0, true, .5}, true}, {{.75, 1, 0, 0, MAXCH, true, 1}, true},
        {{.5, .5, .75, .25, 2, true, 1}, true}, {{.5, .5, .25, .75, 2, true, .25}, true}, {{1, 1, 1, 0, 1, true, 1}, true}, {{.5, .5, 0, 1.5, 1, true, .5}, true},
        {{.05, .5, .25, .25, 1, true, 1}, true}, {{1, 1, 0, 0, 3, false, 1}, true}, {{1, 1, 0, 0, 1, true, 0}, true}, {{1, 1, 0, 0, 2, true, .95}, true}, {{2, 1, 0, 0, 0, true, 1}, true},
        {{1, 1, 0, 0, MAXCH + 1, true, 1}, false}, {{1, 1, 0, 0, -1, true, 1}, false}, {{1, 1, 0, 0, 0, true, 1.5}, false}, {{1, 1, 0, 0, 0, true, -.5}, false},
        {{1, 1, -.25, 0, 0, true, 1}, false}, {{1, 1, 0, -.25, 0, true, 1}, false}, {{0, 1, 0, 0, 0, true, 1}, false}, {{1, -.5, 0, 0, 0, true, 1}, false}};
    const int NA = sizeof alpha / sizeof *alpha;
    int fid = 30, full = (1 << nin) - 1;
    if (!mc::param("bare", 0)) for (int i = 0; i < nin; i++) { Chan c = alpha[i].c; conf[i + 1] = c; m.configChannel(i + 1, c.w, c.h, c.x, c.y, c.layer, c.on, c.op); int r; mc::vclock_ns += 1000000; m.processFrame(r); }
    for (int d = 0; d < depth; d++) {
        int op = mc::choose(6), r = 0; mc::vclock_ns += 1000000;
        switch (op) {
        case 0: { int ch = mc::choose(nin) + 1, k = mc::choose(NA); Chan c = alpha[k].c; mc::op("channel %d: %gx%g at %g,%g layer %d %s opacity %g", ch, c.w, c.h, c.x, c.y, c.layer, c.on ? "on" : "off", c.op);
            m.configChannel(ch, c.w, c.h, c.x, c.y, c.layer, c.on, c.op); if (alpha[k].ok && conf.count(ch)) conf[ch] = c; break; }
        case 1: { static const int L[][4] = {{20, 16, 0, 1}, {8, 6, 25, 1}, {16, 12, -3, 1}, {0, 12, 30, 0}, {16, -1, 0, 0}, {DEFAULT_WIDTH + 1, 12, 0, 0}, {16, DEFAULT_HEIGHT + 1, 50, 0}}; const int *l = L[mc::choose(7)];
            mc::op("layout %dx%d, %d frames per second", l[0], l[1], l[2]); m.configure(l[0], l[1], l[2]); if (l[3]) { W = l[0]; H = l[1]; if (l[2] > 0) ft = 1000000 / l[2]; } break; }
        case 2: { static const char *lack[] = {"id", "width", "height", "x", "y", "layer", "enabled", "opacity"}; int k = mc::choose(8); mc::op("channel configuration without %s", lack[k]);
            Jzon::Object root, p; root.Add("action", "configChannel"); for (int j = 0; j < 8; j++) if (j != k) { if (j == 6) p.Add(lack[j], true); else p.Add(lack[j], j == 0 ? 1 : j == 5 ? 2 : j == 4 || j == 3 ? 0 : 1); } root.Add("params", p); m.pushEvent(Event(root, std::chrono::system_clock::now(), 0)); break; }
        case 3: { int k = mc::choose(4); Jzon::Object root, p; root.Add("action", "configure");
            if (k == 0) { mc::op("configure without parameters"); } else if (k == 1) { mc::op("configure only the width"); p.Add("width", 8); root.Add("params", p); } else if (k == 2) { mc::op("configure only the rate"); p.Add("fps", 20); root.Add("params", p); ft = 50000; } else { mc::op("configure with texts"); p.Add("width", "a"); p.Add("height", "b"); root.Add("params", p); }
            m.pushEvent(Event(root, std::chrono::system_clock::now(), 0)); break; }
        case 4: { int i = mc::choose(nin); if (conf.count(i + 1)) { mc::op("input %d leaves", i + 1); m.disconnectReader(i + 1); conf.erase(i + 1); feed[i].reset(); } else { mc::op("input %d comes back", i + 1); join(i, fid++); } break; }
        case 5: { int mk = mc::choose(1 << nin); step(mk); break; }
        }
        m.processFrame(r); check_state(); step(full);
        mc::Hash h; h.add(W).add(ft); for (auto &c : conf) h.add(c.first).add((uint64_t)(c.second.w * 100 + c.second.h * 7 + c.second.x * 1009 + c.second.y * 13)).add(c.second.layer).add(c.second.on).add((uint64_t)(c.second.op * 8)); mc::state(h.h);
        mc::outcome(h.h);
    }
}
