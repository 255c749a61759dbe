// Strict reader of the ISO base media files the segmenters write.
#ifndef VERIF_BMFF_HH
#define VERIF_BMFF_HH
#include <string>
#include <vector>
#include <stdint.h>
#include <stdio.h>
#include <string.h>

namespace bmff {
typedef std::string S;
struct Bad { S why; };
inline void bad(const S &w) { Bad b; b.why = w; throw b; }
struct Cur {
    const unsigned char *p; size_t n, i;
    Cur(const S &s) : p((const unsigned char*)s.data()), n(s.size()), i(0) {}
    uint64_t u(int k) { if (n - i < (size_t)k) bad("truncated"); uint64_t v = 0; while (k--) v = v << 8 | p[i++]; return v; }
    S bytes(size_t k) { if (n - i < k) bad("truncated"); S s((const char*)p + i, k); i += k; return s; }
    bool end() { return i == n; }
};
struct Box { S type, body; size_t pos; };
inline std::vector<Box> boxes(const S &d, size_t base = 0) {
    std::vector<Box> v; size_t i = 0;
    while (i < d.size()) {
        if (d.size() - i < 8) bad("box header truncated");
        uint32_t z = 0; for (int k = 0; k < 4; k++) z = z << 8 | (unsigned char)d[i + k];
        if (z < 8 || z > d.size() - i) bad("box " + d.substr(i + 4, 4) + " has size " + std::to_string(z) + " of " + std::to_string(d.size() - i));
        Box b; b.type = d.substr(i + 4, 4); b.body = d.substr(i + 8, z - 8); b.pos = base + i; v.push_back(b); i += z;
    }
    return v;
}
inline const Box &one(const std::vector<Box> &v, const char *t) {
    const Box *r = NULL;
    for (auto &b : v) if (b.type == t) { if (r) bad(S("two boxes ") + t); r = &b; }
    if (!r) bad(S("no box ") + t);
    return *r;
}
inline void order(const std::vector<Box> &v, const char *o) {
    S s; for (auto &b : v) s += (s.empty() ? "" : " ") + b.type;
    if (s != o) bad("boxes are '" + s + "', expected '" + o + "'");
}
struct Sample { uint32_t duration, flags; int32_t cto; S data; };
struct Segment { uint32_t seq, timescale; uint64_t tfdt, earliest, sidxDuration; std::vector<Sample> samples; uint64_t duration; };
inline Segment segment(const S &file, bool video) {
    Segment g; std::vector<Box> top = boxes(file); order(top, "styp sidx moof mdat");
    { Cur c(top[1].body); int ver = c.u(1); c.u(3); if (c.u(4) != 1) bad("sidx reference id"); g.timescale = c.u(4);
      uint64_t fo; if (ver) { g.earliest = c.u(8); fo = c.u(8); } else { g.earliest = c.u(4); fo = c.u(4); }
      if (fo) bad("sidx first offset"); c.u(2); if (c.u(2) != 1) bad("sidx reference count");
      uint32_t rs = c.u(4); if (rs != file.size() - top[2].pos) bad("sidx refers to " + std::to_string(rs) + " bytes of " + std::to_string(file.size() - top[2].pos));
      g.sidxDuration = c.u(4); c.u(4); if (!c.end()) bad("sidx length"); }
    std::vector<Box> mf = boxes(top[2].body); order(mf, "mfhd traf");
    { Cur c(mf[0].body); c.u(4); g.seq = c.u(4); if (!c.end()) bad("mfhd length"); }
    std::vector<Box> tf = boxes(mf[1].body); order(tf, "tfhd tfdt trun");
    { Cur c(tf[0].body); if (c.u(4) != 0x020000) bad("tfhd flags"); if (c.u(4) != 1) bad("track id"); if (!c.end()) bad("tfhd length"); }
    { Cur c(tf[1].body); int ver = c.u(1); c.u(3); g.tfdt = ver ? c.u(8) : c.u(4); if (!c.end()) bad("tfdt length"); }
    { Cur c(tf[2].body); c.u(1); uint32_t fl = c.u(3), n = c.u(4); if (!(fl & 1)) bad("trun without data offset"); uint32_t off = c.u(4);
      size_t want = top[3].pos + 8 - top[2].pos; if (off != want) bad("data offset " + std::to_string(off) + ", the data begin at " + std::to_string(want));
      if (fl & 4) c.u(4);
      Cur m(top[3].body); g.duration = 0;
      for (uint32_t i = 0; i < n; i++) {
          Sample s; s.duration = fl & 0x100 ? c.u(4) : 0; uint32_t z = fl & 0x200 ? c.u(4) : 0; s.flags = fl & 0x400 ? c.u(4) : 0; s.cto = fl & 0x800 ? (int32_t)c.u(4) : 0;
          s.data = m.bytes(z); g.duration += s.duration; g.samples.push_back(s);
      }
      if (!c.end()) bad("trun length"); if (!m.end()) bad("mdat has more bytes than the samples"); }
    if (g.samples.empty()) bad("no samples");
    return g;
}
struct Init { uint32_t timescale; unsigned width, height, channels, rate; S entry; S config; };
inline Init init(const S &file, bool video) {
    Init r; memset(&r.timescale, 0, sizeof r.timescale); r.width = r.height = r.channels = r.rate = 0;
    std::vector<Box> top = boxes(file); order(top, "ftyp moov");
    std::vector<Box> mv = boxes(top[1].body); one(mv, "mvhd"); one(mv, "mvex");
    std::vector<Box> tk = boxes(one(mv, "trak").body); one(tk, "tkhd");
    std::vector<Box> md = boxes(one(tk, "mdia").body);
    { Cur c(one(md, "mdhd").body); int ver = c.u(1); c.u(3); c.u(ver ? 8 : 4); c.u(ver ? 8 : 4); r.timescale = c.u(4); }
    std::vector<Box> mi = boxes(one(md, "minf").body); one(mi, video ? "vmhd" : "smhd");
    std::vector<Box> st = boxes(one(mi, "stbl").body);
    Cur c(one(st, "stsd").body); c.u(4); if (c.u(4) != 1) bad("sample descriptions");
    std::vector<Box> en = boxes(c.bytes(c.n - c.i)); if (en.size() != 1) bad("sample entries");
    r.entry = en[0].type; Cur e(en[0].body); e.u(6); e.u(2);
    if (video) { e.u(8); e.u(8); r.width = e.u(2); r.height = e.u(2); e.bytes(50); }
    else { e.u(8); r.channels = e.u(2); e.u(2); e.u(4); r.rate = e.u(2); e.u(2); }
    std::vector<Box> cf = boxes(e.bytes(e.n - e.i)); if (cf.size() != 1) bad("codec boxes");
    r.config = cf[0].type + cf[0].body;
    return r;
}
}
#endif
