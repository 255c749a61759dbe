// Reference sample conversion.
#ifndef VERIF_AUDIO_REF_HH
#define VERIF_AUDIO_REF_HH
static AVSampleFormat avfmt(SampleFmt f) { switch (f) { case U8: return AV_SAMPLE_FMT_U8; case S16: return AV_SAMPLE_FMT_S16; case FLT: return AV_SAMPLE_FMT_FLT; case U8P: return AV_SAMPLE_FMT_U8P; case S16P: return AV_SAMPLE_FMT_S16P; case FLTP: return AV_SAMPLE_FMT_FLTP; default: return AV_SAMPLE_FMT_NONE; } }
// reference conversion
struct Conv {
    SwrContext *s = NULL; int ic = 0, ir = 0, oc = 0, orr = 0; AVSampleFormat iff = AV_SAMPLE_FMT_NONE, of = AV_SAMPLE_FMT_NONE;
    ~Conv() { swr_free(&s); }
    bool fit(int ic_, int ir_, AVSampleFormat if_, int oc_, int or_, AVSampleFormat of_) {
        if (s && ic == ic_ && ir == ir_ && iff == if_ && oc == oc_ && orr == or_ && of == of_) return true;
        swr_free(&s); ic = ic_; ir = ir_; iff = if_; oc = oc_; orr = or_; of = of_;
        s = swr_alloc_set_opts(NULL, av_get_default_channel_layout(oc), of, orr, av_get_default_channel_layout(ic), iff, ir, 0, NULL); return s && swr_init(s) >= 0;
    }
    // (libswresample may write a few bytes beyond the room it is given)
    int run(const std::vector<std::string> &in, int n, std::vector<std::string> &out, int room) {    // appends
        const bool pl = av_sample_fmt_is_planar(of); const int bs = av_get_bytes_per_sample(of) * (pl ? 1 : oc), np = pl ? oc : 1; std::vector<std::vector<uint8_t>> b(np, std::vector<uint8_t>(room * bs + 256)); uint8_t *o[8]; const uint8_t *i[8]; for (int k = 0; k < np; k++) o[k] = b[k].data(); for (size_t k = 0; k < in.size(); k++) i[k] = (const uint8_t*)in[k].data();
        int r = swr_convert(s, o, room, i, n); if (r < 0) return r; out.resize(np); for (int k = 0; k < np; k++) out[k].append((char*)b[k].data(), r * bs); return r;
    }
};
#endif
