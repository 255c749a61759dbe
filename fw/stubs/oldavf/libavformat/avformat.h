/* The part of the libavformat interface of the time the demuxer was written
   for that it uses.  The functions are defined by the harness: they model the
   source. */
#ifndef VERIF_OLDAVF_H
#define VERIF_OLDAVF_H
#include <libavcodec/avcodec.h>
#include <libavcodec/codec_desc.h>
#include <libavutil/avutil.h>
typedef struct AVStream { int index; AVCodecContext *codec; AVRational time_base; } AVStream;
typedef struct AVFormatContext { unsigned nb_streams; AVStream **streams; int64_t start_time_realtime; } AVFormatContext;
typedef struct AVBitStreamFilterContext { int magic; } AVBitStreamFilterContext;
typedef struct AVInputFormat AVInputFormat;
void av_register_all(void);
int avformat_network_init(void);
int avformat_network_deinit(void);
int avformat_open_input(AVFormatContext **ps, const char *url, const AVInputFormat *fmt, AVDictionary **options);
int avformat_find_stream_info(AVFormatContext *ic, AVDictionary **options);
void avformat_close_input(AVFormatContext **s);
int av_read_frame(AVFormatContext *s, AVPacket *pkt);
AVBitStreamFilterContext *av_bitstream_filter_init(const char *name);
int av_bitstream_filter_filter(AVBitStreamFilterContext *bsfc, AVCodecContext *avctx, const char *args, uint8_t **poutbuf, int *poutbuf_size, const uint8_t *buf, int buf_size, int keyframe);
void av_bitstream_filter_close(AVBitStreamFilterContext *bsfc);
#endif
