// Stand-ins for the filter classes that the pipeline manager creates (the
// codecs and network modules do not build here): same base classes, visible
// content.  Included into PipelineManager.cpp in place of the modules' headers.
#ifndef VERIF_PIPE_STUBS_HH
#define VERIF_PIPE_STUBS_HH
#define _AUDIO_ENCODER_LIBAV_HH
#define _AUDIO_DECODER_LIBAV_HH
#define _AUDIO_MIXER_HH
#define _VIDEO_ENCODER_X264_HH
#define _VIDEO_DECODER_LIBAV_HH
#define _VIDEO_MIXER_HH
#define _VIDEO_SPLITTER_HH
#define _VIDEO_RESAMPLER_HH
#define _SOURCE_MANAGER_HH
#define _SINK_MANAGER_HH
#define _HEAD_DEMUXER_LIBAV_HH
#define _DASHER_HH
#define _V4L_CAPTURE_HH
#define _SHARED_MEMORY_HH
#include "Filter.hh"
#include "Utils.hh"
#include <algorithm>

struct StubHead : public HeadFilter {
    StubHead(FilterType t); ~StubHead();
    bool doProcessFrame(std::map<int, Frame*> &d, int &ret); FrameQueue *allocQueue(ConnectionData c); void doGetState(Jzon::Object &o);
    bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
};
struct StubMid : public OneToOneFilter {
    StubMid(FilterType t); ~StubMid();
    bool doProcessFrame(Frame *o, Frame *d); FrameQueue *allocQueue(ConnectionData c); void doGetState(Jzon::Object &o);
    bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; }
    bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
};
struct StubTail : public TailFilter {
    StubTail(FilterType t); ~StubTail();
    bool doProcessFrame(std::map<int, Frame*> &o, std::vector<int> n, int &ret); FrameQueue *allocQueue(ConnectionData c); void doGetState(Jzon::Object &o);
    bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; }
};
struct StubMixer : public ManyToOneFilter {
    StubMixer(FilterType t); ~StubMixer();
    bool doProcessFrame(std::map<int, Frame*> &o, Frame *d, std::vector<int> n); FrameQueue *allocQueue(ConnectionData c); void doGetState(Jzon::Object &o);
    bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; }
    bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
};
struct StubSplit : public OneToManyFilter {
    StubSplit(FilterType t); ~StubSplit();
    bool doProcessFrame(Frame *o, std::map<int, Frame*> &d); FrameQueue *allocQueue(ConnectionData c); void doGetState(Jzon::Object &o);
    bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; }
    bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
};
struct SourceManager : StubHead { SourceManager() : StubHead(RECEIVER) {} };
struct HeadDemuxerLibav : StubHead { HeadDemuxerLibav() : StubHead(DEMUXER) {} };
struct V4LCapture : StubHead { V4LCapture() : StubHead(V4L_CAPTURE) {} };
struct SinkManager : StubTail { SinkManager() : StubTail(TRANSMITTER) {} static SinkManager *createNew(unsigned = 0) { return new SinkManager(); } };
struct Dasher : StubTail { Dasher() : StubTail(DASHER) {} };
struct VideoDecoderLibav : StubMid { VideoDecoderLibav() : StubMid(VIDEO_DECODER) {} };
struct VideoEncoderX264 : StubMid { VideoEncoderX264() : StubMid(VIDEO_ENCODER) {} };
struct VideoResampler : StubMid { VideoResampler() : StubMid(VIDEO_RESAMPLER) {} };
struct AudioDecoderLibav : StubMid { AudioDecoderLibav() : StubMid(AUDIO_DECODER) {} };
struct AudioEncoderLibav : StubMid { AudioEncoderLibav() : StubMid(AUDIO_ENCODER) {} };
struct SharedMemory : StubMid { SharedMemory() : StubMid(SHARED_MEMORY) {} static SharedMemory *createNew(VCodecType = RAW) { return new SharedMemory(); } };
struct VideoMixer : StubMixer { VideoMixer() : StubMixer(VIDEO_MIXER) {} static VideoMixer *createNew(int = 0, int = 0, int = 0) { return new VideoMixer(); } };
struct AudioMixer : StubMixer { AudioMixer() : StubMixer(AUDIO_MIXER) {} };
struct VideoSplitter : StubSplit { VideoSplitter() : StubSplit(VIDEO_SPLITTER) {} static VideoSplitter *createNew() { return new VideoSplitter(); } };
#endif
