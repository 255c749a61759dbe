/* The libav interface of the time the decoders and encoders were written for,
   on top of the installed headers (which dropped it).  The functions are
   defined by the harness: they model a codec. */
#ifndef VERIF_LIBAV_OLD_H
#define VERIF_LIBAV_OLD_H
extern "C" {
#include <libavcodec/avcodec.h>
#include <libavutil/mem.h>
void avcodec_register_all(void);
int avcodec_decode_video2(AVCodecContext *c, AVFrame *picture, int *got, const AVPacket *p);
int avcodec_decode_audio4(AVCodecContext *c, AVFrame *frame, int *got, const AVPacket *p);
int avcodec_encode_audio2(AVCodecContext *c, AVPacket *p, const AVFrame *frame, int *got);
}
#define CODEC_CAP_TRUNCATED 0x0008
#define CODEC_FLAG_TRUNCATED 0x00010000
#define CODEC_CAP_SLICE_THREADS AV_CODEC_CAP_SLICE_THREADS
#define CODEC_FLAG2_CHUNKS AV_CODEC_FLAG2_CHUNKS
#endif
