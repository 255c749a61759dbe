#ifndef VERIF_COMMON_HH
#define VERIF_COMMON_HH
#include "mc.hh"
#include <map>
#include <set>
#include <deque>
#include <list>
#include <vector>
#include <string>
#include <memory>
#include <functional>
#include <chrono>
#include <thread>
#include <mutex>
#include <algorithm>
#include <condition_variable>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include "Types.hh"
#include "Utils.hh"
#include "Frame.hh"
#include "VideoFrame.hh"
#include "AudioFrame.hh"
#include "AVFramedQueue.hh"

typedef std::chrono::microseconds usec;

inline ConnectionData cdata(int wf, int w, int rf, int r) {
    ConnectionData c; c.wFilterId = wf; c.writerId = w;
    ReaderData rd; rd.rFilterId = rf; rd.readerId = r; c.readers.push_back(rd);
    return c;
}

// A discrete queue of small byte frames (same construction as the repository's own test queue).
class SmallQueue : public AVFramedQueue {
public:
    static int live;                 // queues currently allocated
    SmallQueue(ConnectionData c, const StreamInfo *si, unsigned n, unsigned bytes = 16) : AVFramedQueue(c, si, n) {
        for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(H264, bytes);
        live++;
    }
    ~SmallQueue() { live--; }
};
int SmallQueue::live = 0;

// Every byte of the payload, its length and the times are derived from one value.
inline void stamp(Frame *f, unsigned v) {
    unsigned n = 4 + v % 9;
    for (unsigned i = 0; i < n; i++) f->getDataBuf()[i] = (unsigned char)(v * 7 + i * 31 + (v >> 8));
    f->setLength(n);
    f->setSequenceNumber(v);
    f->setPresentationTime(usec(1000 + 40 * (long)v));
}
inline bool stamped(Frame *f, unsigned v) {
    unsigned n = 4 + v % 9;
    if (f->getLength() != n || f->getSequenceNumber() != v || f->getPresentationTime() != usec(1000 + 40 * (long)v)) return false;
    for (unsigned i = 0; i < n; i++) if (f->getDataBuf()[i] != (unsigned char)(v * 7 + i * 31 + (v >> 8))) return false;
    return true;
}
inline std::string ids(const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
#endif
