// Queues of a few small frames, the code that uses them is unchanged.
#include "Types.hh"
#include "VideoFrame.hh"
#include "AVFramedQueue.hh"
#undef DEFAULT_VIDEO_FRAMES
#define DEFAULT_VIDEO_FRAMES 8
#undef DEFAULT_AUDIO_FRAMES
#define DEFAULT_AUDIO_FRAMES 8
#undef MAX_H264_OR_5_NAL_SIZE
#define MAX_H264_OR_5_NAL_SIZE 4096
#undef LENGTH_VP8
#define LENGTH_VP8 4096
