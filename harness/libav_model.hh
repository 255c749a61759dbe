// A modelled libavcodec: contexts are tracked, every call can be made to fail.
#ifndef VERIF_LIBAV_MODEL_HH
#define VERIF_LIBAV_MODEL_HH
#include "libav_old.h"
#include <set>
#include <map>
#include <string>
#include <vector>
static int av_fault_at, av_calls, av_live, av_opened; static std::string av_faulted, av_bad;
static bool av_fails(const char *what) { if (++av_calls == av_fault_at) { av_faulted = what; mc::note("%s fails", what); return true; } return false; }
struct ModelCtx { const AVCodec *codec = nullptr; bool open = false; std::vector<std::pair<int, uint8_t*>> held; int calls = 0; std::vector<int> delayed; std::string extradata; };
static std::map<AVCodecContext*, ModelCtx> av_ctx_;
static AVCodec *model_codec(int id, bool encoder);        // NULL: not supported
static bool model_open(AVCodecContext *c) ;
extern "C" {
void __real_av_free(void *p);
void avcodec_register_all(void) {}
const AVCodec *__wrap_avcodec_find_decoder(enum AVCodecID id) { if (av_fails("find_decoder")) return NULL; return model_codec(id, false); }
const AVCodec *__wrap_avcodec_find_encoder(enum AVCodecID id) { if (av_fails("find_encoder")) return NULL; return model_codec(id, true); }
AVCodecContext *__wrap_avcodec_alloc_context3(const AVCodec *codec) {
    if (av_fails("alloc_context")) return NULL; AVCodecContext *c = (AVCodecContext*)av_mallocz(sizeof(AVCodecContext)); c->codec_id = codec ? codec->id : AV_CODEC_ID_NONE; c->thread_count = 1; c->sample_fmt = AV_SAMPLE_FMT_NONE; c->pix_fmt = AV_PIX_FMT_NONE; c->time_base.num = 0; c->time_base.den = 1;
    av_ctx_[c] = ModelCtx(); av_ctx_[c].codec = codec; av_live++; return c;
}
int __wrap_avcodec_open2(AVCodecContext *c, const AVCodec *codec, AVDictionary **) {
    if (!av_ctx_.count(c)) { av_bad = "opened what is no context"; return -1; } ModelCtx &m = av_ctx_[c];
    if (m.open) { av_bad = "opened twice"; return -1; } if (codec && m.codec && codec != m.codec) { av_bad = "opened with another codec"; return -1; }
    if (av_fails("open")) return AVERROR(EINVAL); if (!model_open(c)) return AVERROR(EINVAL);
    m.extradata = c->extradata ? std::string((char*)c->extradata, c->extradata_size) : ""; m.open = true; av_opened++; return 0;
}
int __wrap_avcodec_close(AVCodecContext *c) {
    if (!c) return 0; if (!av_ctx_.count(c)) { av_bad = "closed what is no context"; return -1; } ModelCtx &m = av_ctx_[c];
    for (auto &h : m.held) free(h.second); m.held.clear(); if (m.open) av_opened--; m.open = false; return 0;
}
void __wrap_av_free(void *p) {
    AVCodecContext *c = (AVCodecContext*)p; if (p && av_ctx_.count(c)) { if (av_ctx_[c].open) av_bad = "freed an open context"; for (auto &h : av_ctx_[c].held) free(h.second); av_ctx_.erase(c); av_live--; }
    __real_av_free(p);
}
void __wrap_avcodec_free_context(AVCodecContext **c) { if (!c || !*c) return; __wrap_avcodec_close(*c); __wrap_av_free(*c); *c = NULL; }
void __wrap_av_freep(void *a) { void *p; memcpy(&p, a, sizeof p); void *z = NULL; memcpy(a, &z, sizeof z); __wrap_av_free(p); }
}
static void av_model_reset() { av_fault_at = av_calls = 0; av_bad.clear(); av_faulted.clear(); av_ctx_.clear(); av_live = av_opened = 0; }
#endif
