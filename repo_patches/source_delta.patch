From 87c85a68460ed40ea0a95806930a6457ca62a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 001/121] fix: do not discard a frame that is being consumed
 when forcing room in a queue

A forced getRear decremented rear without excluding the consumer: when the
consumer drained the queue between the fullness test and the discard, rear
passed front and frames already consumed (or never written) were delivered.
---
 src/AVFramedQueue.cpp         | 13 ++++++++++++-
 src/AVFramedQueue.hh          | 13 +++++++++++++
 src/SlicedVideoFrameQueue.cpp |  2 +-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/AVFramedQueue.cpp b/src/AVFramedQueue.cpp
index 7de8744..15b0373 100644
--- a/src/AVFramedQueue.cpp
+++ b/src/AVFramedQueue.cpp
@@ -80,6 +80,8 @@ std::vector<int> AVFramedQueue::addFrame()
 
 int AVFramedQueue::removeFrame() 
 {
+    std::lock_guard<std::mutex> guard(mtx);
+
     if (rear == front){
         return -1;
     }
@@ -92,12 +94,21 @@ void AVFramedQueue::doFlush()
     rear = (rear + (max - 1)) % max;
 }
 
+void AVFramedQueue::flushIfFull()
+{
+    std::lock_guard<std::mutex> guard(mtx);
+
+    if ((rear + 1) % max == front){
+        flush();
+    }
+}
+
 Frame* AVFramedQueue::forceGetRear()
 {
     Frame *frame;
     while ((frame = getRear()) == NULL) {
         utils::warningMsg("Frame discarted by AVFramedQueue");
-        flush();
+        flushIfFull();
     }
     return frame;
 }
diff --git a/src/AVFramedQueue.hh b/src/AVFramedQueue.hh
index 0a10fa2..ed14772 100644
--- a/src/AVFramedQueue.hh
+++ b/src/AVFramedQueue.hh
@@ -26,6 +26,8 @@
 
 #define MAX_FRAMES 250 //!< The highest value for DEFAULT_AUDIO_FRAMES, DEFAULT_VIDEO_FRAMES, ...
 
+#include <mutex>
+
 #include "FrameQueue.hh"
 #include "AudioFrame.hh"
 #include "StreamInfo.hh"
@@ -88,8 +90,19 @@ public:
 protected:
     AVFramedQueue(ConnectionData cData, const StreamInfo *si, unsigned maxFrames);
     void doFlush();
+
+    /**
+    * Discards the newest frame if, and only if, the queue is still full. Consuming
+    * a frame and discarding one exclude each other, otherwise the discarded frame
+    * could be one that is being, or has already been, consumed.
+    */
+    void flushIfFull();
+
     Frame* frames[MAX_FRAMES];
     unsigned max;
+
+private:
+    std::mutex mtx;
 };
 
 /*! It represents a video AVFramedQueue */
diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index 93cc8ad..eb6760d 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -97,7 +97,7 @@ Frame* SlicedVideoFrameQueue::innerForceGetRear()
     Frame *frame;
     while ((frame = innerGetRear()) == NULL) {
         utils::debugMsg("Frame discarted by X264 Circular Buffer");
-        flush();
+        flushIfFull();
     }
     return frame;
 }
-- 
2.43.0


From ddf4ef7823a5773c2e211ffae46af868d429237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 002/121] fix: allocate the silence used to fill gaps in the
 audio circular buffer for the longest gap

The silence frame held MAX_FRAME_TIME of samples while gaps of up to the
maximum number of samples of the buffer are filled from it, so long gaps were
filled from beyond its end. It was not deleted either.
---
 src/AudioCircularBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 5862326..a05ec69 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -58,6 +58,7 @@ AudioCircularBuffer::~AudioCircularBuffer()
         
         delete inputFrame;
         delete outputFrame;
+        delete dummyFrame;
     }
 }
 
@@ -207,7 +208,7 @@ bool AudioCircularBuffer::setup()
 
     inputFrame = PlanarAudioFrame::createNew(channels, sampleRate, AudioFrame::getMaxSamples(sampleRate), PCM, sampleFormat);
     outputFrame = PlanarAudioFrame::createNew(channels, sampleRate, AudioFrame::getMaxSamples(sampleRate), PCM, sampleFormat);
-    dummyFrame = PlanarAudioFrame::createNew(channels, sampleRate, AudioFrame::getMaxSamples(sampleRate), PCM, sampleFormat);
+    dummyFrame = PlanarAudioFrame::createNew(channels, sampleRate, chMaxSamples, PCM, sampleFormat); // holds the longest padding
     dummyFrame->fillWithValue(0);
 
     outputFrame->setSamples(AudioFrame::getDefaultSamples(sampleRate));
-- 
2.43.0


From 082becca9e47e36501c85ade056131d590f3cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 003/121] fix: account for samples pushed to the audio circular
 buffer under its lock

The number of stored bytes was increased by the producer without the lock that
protects its decrease by the consumer; a lost update made the buffer deliver
samples that were never written, or lose stored ones.
---
 src/AudioCircularBuffer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index a05ec69..a2a606f 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -227,6 +227,8 @@ bool AudioCircularBuffer::pushBack(unsigned char **buffer, int samplesRequested)
     unsigned rearMod;
     int firstCopiedBytes;
 
+    std::lock_guard<std::mutex> guard(mtx);
+
     if (bytesRequested > (channelMaxLength - elements)) {
         return false;
     }
-- 
2.43.0


From 6b433bd0ba2a4edd184cfee8760ceecc2925f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:01 +0000
Subject: [PATCH 004/121] fix: set the stop flag of the workers pool under its
 lock

A worker that had tested the flag but not started to wait yet missed the
notification, and the stop was delayed until the next task was due.
---
 src/WorkersPool.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index a0a069a..3ee15b5 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -149,7 +149,10 @@ WorkersPool::~WorkersPool()
 
 void WorkersPool::stop()
 {
-    run = false;
+    {
+        std::lock_guard<std::mutex> guard(mtx);
+        run = false;
+    }
     qCheck.notify_all();
     for (std::thread &worker : workers){
         if (worker.joinable()){
-- 
2.43.0


From 561ebcd6d49775d4db0bf74f676135d6e9bfdfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:45 +0000
Subject: [PATCH 005/121] fix: forget a task removed from the workers pool

removeTask left the task in the queue and stopped waiting as soon as the
running flag was cleared, while the worker still used the task: a removed, and
typically deleted, task was used and even run after its removal.
---
 src/WorkersPool.cpp | 15 +++++++++++++++
 src/WorkersPool.hh  |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index 3ee15b5..011a657 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -46,6 +46,17 @@ void TaskQueue::pop(){
     }
 }
 
+void TaskQueue::remove(Runnable *run){
+    for (auto it = queue.begin(); it != queue.end(); ++it){
+        if (*it == run){
+            sQueue.erase(run);
+            queue.erase(it);
+            break;
+        }
+    }
+    resetIterator();
+}
+
 void TaskQueue::resetIterator(){
     iter = queue.begin();
 }
@@ -185,11 +196,15 @@ bool WorkersPool::removeTask(const int id)
     if (runnables.count(id) > 0){
         Runnable *runnable = runnables[id];
         runnables.erase(id);
+        queue.remove(runnable);
         guard.unlock();
         qCheck.notify_one();
+        guard.lock();
         while(runnable->isRunning()){
+            guard.unlock();
             utils::warningMsg("awaiting task to finish " + std::to_string(id));
             std::this_thread::sleep_for(std::chrono::milliseconds(100));
+            guard.lock();
         }
         return true;
     }
diff --git a/src/WorkersPool.hh b/src/WorkersPool.hh
index 62e9019..7c00136 100644
--- a/src/WorkersPool.hh
+++ b/src/WorkersPool.hh
@@ -42,6 +42,8 @@ public:
     
     void pop();
     
+    void remove(Runnable *run);
+    
     void resetIterator();
     
     void clear();
-- 
2.43.0


From 08948347bfb2ea8e451aa226cd1d212fee6a9c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:50 +0000
Subject: [PATCH 006/121] fix: do not stall a shared reader when one of its
 filters leaves

When a filter left a shared reader before releasing the current frame, the
frame was never removed and the remaining filters never obtained another one.
Releasing when there is no current frame no longer dereferences it either.
---
 src/IOInterface.cpp | 19 ++++++++++++++-----
 src/IOInterface.hh  |  1 +
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 4481d84..020c59b 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -127,16 +127,21 @@ int Reader::removeFrame(int fId)
         filters[fId].second = false;
     }
     
-    if (allRead()){
-        measureDelay();
-        frame = NULL;
-        ready = true;
-        return queue ? queue->removeFrame() : -1;
+    if (frame && allRead()){
+        return releaseFrame();
     }
     
     return -1;
 }
 
+int Reader::releaseFrame()
+{
+    measureDelay();
+    frame = NULL;
+    ready = true;
+    return queue ? queue->removeFrame() : -1;
+}
+
 void Reader::measureDelay()
 {
     if(lastTs.count() < 0){
@@ -205,6 +210,10 @@ bool Reader::disconnect(int id)
     }
     
     if (filters.size() > 0){
+        //The remaining filters would wait forever for the leaving one to release the frame
+        if (frame && allRead()){
+            releaseFrame();
+        }
         return true;
     }
     
diff --git a/src/IOInterface.hh b/src/IOInterface.hh
index 02d2a58..ed53b3f 100644
--- a/src/IOInterface.hh
+++ b/src/IOInterface.hh
@@ -208,6 +208,7 @@ private:
     bool disconnectQueue();
     void measureDelay();
     bool allRead();
+    int releaseFrame();
 
     friend class Writer;
      
-- 
2.43.0


From 2056d2df2c53067826fa9bc543ec70d8c2d6cf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:58 +0000
Subject: [PATCH 007/121] fix: do not keep a null reader nor leak the queue of
 a refused connection

---
 src/Filter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 47a93d2..a7590c6 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -127,12 +127,11 @@ std::shared_ptr<Reader> BaseFilter::setReader(int readerID, FrameQueue* queue)
         return NULL;
     }
 
-    std::shared_ptr<Reader> r (new Reader());
-    
     if (!specificReaderConfig(readerID, queue)){
-        r.reset();
+        return NULL;
     }
     
+    std::shared_ptr<Reader> r (new Reader());
     readers[readerID] = r;
 
     return r;
@@ -354,6 +353,7 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
 
     if (!(r = R->setReader(readerID, queue))) {
         deleteWriter(writerID);
+        delete queue;
         utils::errorMsg("Could not create the reader or set the queue");
         return false;
     }
-- 
2.43.0


From d97f1b99a615ce683ed24f91ffb92f553e21d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:29 +0000
Subject: [PATCH 008/121] fix: guard the connection data of a queue, consumers
 may leave while it publishes

---
 src/AVFramedQueue.cpp         |  6 +-----
 src/AudioCircularBuffer.cpp   |  4 +---
 src/FrameQueue.hh             | 27 ++++++++++++++++++++++++++-
 src/SlicedVideoFrameQueue.cpp |  6 +-----
 4 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/AVFramedQueue.cpp b/src/AVFramedQueue.cpp
index 15b0373..6608ac2 100644
--- a/src/AVFramedQueue.cpp
+++ b/src/AVFramedQueue.cpp
@@ -64,11 +64,7 @@ Frame* AVFramedQueue::getFront()
 
 std::vector<int> AVFramedQueue::addFrame() 
 {
-    std::vector<int> ret;
-    
-    for (auto& r : connectionData.readers){
-        ret.push_back(r.rFilterId);
-    }
+    std::vector<int> ret = getReaderFilters();
     
     if ((rear + 1) % max == front){
         return ret;
diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index a2a606f..4168524 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -145,9 +145,7 @@ std::vector<int> AudioCircularBuffer::addFrame()
     
     orgTime = inputFrame->getOriginTime();
     
-    for (auto& r : connectionData.readers){
-        ret.push_back(r.rFilterId);
-    }
+    ret = getReaderFilters();
     
     return ret;
 }
diff --git a/src/FrameQueue.hh b/src/FrameQueue.hh
index 3bce029..96de994 100644
--- a/src/FrameQueue.hh
+++ b/src/FrameQueue.hh
@@ -31,6 +31,7 @@
 #include <sys/time.h>
 #include <chrono>
 #include <list>
+#include <mutex>
 #include <vector>
 #include "Types.hh"
 #include "StreamInfo.hh"
@@ -167,7 +168,25 @@ public:
     * Gets the connection cData.
     * @return the struct that contains the connection data.
     */
-    ConnectionData getCData() const {return connectionData;};
+    ConnectionData getCData() const {
+        std::lock_guard<std::mutex> guard(cDataMtx);
+        return connectionData;
+    };
+
+    /**
+    * Gets the ids of the filters consuming from this queue
+    * @return filter ids
+    */
+    std::vector<int> getReaderFilters() const {
+        std::lock_guard<std::mutex> guard(cDataMtx);
+        std::vector<int> ret;
+
+        for (auto& r : connectionData.readers){
+            ret.push_back(r.rFilterId);
+        }
+
+        return ret;
+    };
     
     /**
     * Adds reader to the CData
@@ -176,6 +195,8 @@ public:
     * @return true if the addition succeeded
     */
     bool addReaderCData(int rFilterId, int readerId) {
+        std::lock_guard<std::mutex> guard(cDataMtx);
+
         for(auto r : connectionData.readers){
             if (r.rFilterId == rFilterId){
                 return false;
@@ -198,6 +219,8 @@ public:
     * @return true if the removal succeeded
     */
     bool removeReaderCData(int fId) {            
+        std::lock_guard<std::mutex> guard(cDataMtx);
+
         std::list<ReaderData>::iterator i = connectionData.readers.begin();
         while (i != connectionData.readers.end())
         {
@@ -225,6 +248,8 @@ protected:
     bool firstFrame;
     size_t lostBlocs;
 
+    //Consumers are added and removed while the producer publishes
+    mutable std::mutex cDataMtx;
     ConnectionData connectionData;
 
     const StreamInfo *streamInfo;
diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index eb6760d..1e73a2d 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -69,11 +69,7 @@ std::vector<int> SlicedVideoFrameQueue::addFrame()
     pushBackSliceGroup(inputFrame->getSlices(), inputFrame->getSliceNum());
     inputFrame->clear();
     
-    std::vector<int> ret;
-    
-    for (auto& r : connectionData.readers){
-        ret.push_back(r.rFilterId);
-    }
+    std::vector<int> ret = getReaderFilters();
     
     return ret;
 }
-- 
2.43.0


From 408c231f31e98c0ad6b0ea3b7d301e658dcddcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:29 +0000
Subject: [PATCH 009/121] fix: do not hold the lock of a filter while routing
 an event upstream

---
 src/Filter.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index a7590c6..ff41e8c 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -735,16 +735,22 @@ bool BaseFilter::demandOriginFramesFrameTime(std::map<int, Frame*> &oFrames, std
 
 void BaseFilter::sendEvent(Event e, int readerId)
 {
-    std::lock_guard<std::mutex> guard(mtx);
     ConnectionData cData;
     
-    if (readers.count(readerId)<= 0){
-        return;
-    }
-    if (readers[readerId]->isConnected()){
+    {
+        std::lock_guard<std::mutex> guard(mtx);
+        
+        if (readers.count(readerId)<= 0){
+            return;
+        }
+        if (!readers[readerId]->isConnected()){
+            return;
+        }
         cData = readers[readerId]->getQueue()->getCData();
-        PipelineManager::getInstance()->processFilterEvent(e, cData.wFilterId);
     }
+    
+    //The destination locks itself, and it may be connecting to this filter
+    PipelineManager::getInstance()->processFilterEvent(e, cData.wFilterId);
 }
 
 OneToOneFilter::OneToOneFilter(FilterRole fRole_, bool periodic) :
-- 
2.43.0


From 937353dfad4d107dd8becf75940cecb6b1e49610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:11 +0000
Subject: [PATCH 010/121] fix: make a reader visible once it is connected,
 share readers under the locks of both filters

---
 src/Filter.cpp      | 21 ++++++++++++---------
 src/IOInterface.cpp | 16 +++++++++++++---
 src/IOInterface.hh  |  2 +-
 3 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index ff41e8c..e39e21d 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -131,7 +131,10 @@ std::shared_ptr<Reader> BaseFilter::setReader(int readerID, FrameQueue* queue)
         return NULL;
     }
     
+    //Once listed it may be processed, thus it must be already connected
     std::shared_ptr<Reader> r (new Reader());
+    r->setConnection(queue);
+    queue->setConnected(true);
     readers[readerID] = r;
 
     return r;
@@ -250,13 +253,14 @@ bool BaseFilter::pendingJobs()
 
 bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
 {
-    std::lock_guard<std::mutex> guard(mtx);  
-    
     if (getId() == shared->getId()){
         utils::errorMsg("Shared filter and base filter are the same!!");
         return false;
     }
     
+    std::lock_guard<std::mutex> guard(mtx);  
+    std::lock_guard<std::mutex> sharedGuard(shared->mtx);
+    
     if (!(readers.count(orgRId) > 0)) {
         utils::errorMsg("The reader to share is not there");
         return false;
@@ -267,7 +271,7 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
-    if (shared->isRConnected(sharedRId)){
+    if (shared->readers.count(sharedRId) > 0 && shared->readers[sharedRId]->isConnected()){
         utils::errorMsg("The shared filter has the reader already connected!");
         return false;
     }
@@ -319,7 +323,6 @@ bool BaseFilter::deleteWriter(int writerID)
 
 bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
 {
-    std::shared_ptr<Reader> r;
     FrameQueue *queue = NULL;
     ConnectionData cData;
     ReaderData reader;
@@ -351,16 +354,16 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
         return false;
     }
 
-    if (!(r = R->setReader(readerID, queue))) {
+    writers[writerID]->setQueue(queue);
+
+    if (!R->setReader(readerID, queue)) {
+        //The writer deletes the queue
         deleteWriter(writerID);
-        delete queue;
         utils::errorMsg("Could not create the reader or set the queue");
         return false;
     }
 
-    writers[writerID]->setQueue(queue);
-
-    return writers[writerID]->connect(r);
+    return true;
 }
 
 bool BaseFilter::connectOneToOne(BaseFilter *R)
diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 020c59b..bc10802 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -183,7 +183,7 @@ size_t Reader::getLostBlocs()
 void Reader::setConnection(FrameQueue *queue)
 {
     std::lock_guard<std::mutex> guard(lck);
-    if (!queue || isConnected()){
+    if (!queue || (this->queue && this->queue->isConnected())){
         return;
     }
     
@@ -222,6 +222,8 @@ bool Reader::disconnect(int id)
 
 bool Reader::isConnected()
 {
+    std::lock_guard<std::mutex> guard(lck);
+    
     if (!queue) {
         return false;
     }
@@ -242,6 +244,12 @@ size_t Reader::getQueueElements()
 
 std::chrono::microseconds Reader::getCurrentTime()
 {
+    std::lock_guard<std::mutex> guard(lck);
+    
+    if (!queue) {
+        return NO_DTS;
+    }
+    
     if (frame){
         return frame->getFrameTime();
     }
@@ -256,9 +264,11 @@ std::chrono::microseconds Reader::getCurrentTime()
     return NO_DTS;
 }
 
-bool Reader::isFull() const
+bool Reader::isFull()
 {
-    return queue->isFull(); 
+    std::lock_guard<std::mutex> guard(lck);
+    
+    return queue && queue->isFull(); 
 }
 
 
diff --git a/src/IOInterface.hh b/src/IOInterface.hh
index ed53b3f..da783bc 100644
--- a/src/IOInterface.hh
+++ b/src/IOInterface.hh
@@ -199,7 +199,7 @@ public:
      * Returns true if the queue can be considered full. It is a wrapper of isFull method of FrameQueue
      * @return true if the queue is considered to be full, false otherwise.
      */
-    bool isFull() const;
+    bool isFull();
 
 protected:
     FrameQueue *queue;
-- 
2.43.0


From e2a7d15275a930bed1802b2d4e12382204b80bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:50 +0000
Subject: [PATCH 011/121] fix: do not disconnect or configure a filter while it
 is processing

---
 src/Filter.cpp | 22 ++++++++++++++++++++++
 src/Filter.hh  |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index e39e21d..a1bfea9 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -191,6 +191,12 @@ bool BaseFilter::demandDestinationFrames(std::map<int, Frame*> &dFrames)
         }
 
         Frame *f = it->second->getFrame(true);
+        if (!f) {
+            //The other end has just disconnected
+            ++it;
+            continue;
+        }
+
         f->setConsumed(false);
         dFrames[it->first] = f;
         newFrame = true;
@@ -258,6 +264,7 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
+    std::lock_guard<std::mutex> processGuard(shared->processMtx);
     std::lock_guard<std::mutex> guard(mtx);  
     std::lock_guard<std::mutex> sharedGuard(shared->mtx);
     
@@ -327,6 +334,16 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
     ConnectionData cData;
     ReaderData reader;
     
+    if (R == this){
+        utils::errorMsg("A filter cannot be connected to itself");
+        return false;
+    }
+    
+    //Filters are configured and process their events out of their processing thread
+    std::unique_lock<std::mutex> processGuard(processMtx, std::defer_lock);
+    std::unique_lock<std::mutex> rProcessGuard(R->processMtx, std::defer_lock);
+    std::lock(processGuard, rProcessGuard);
+    
     processEvent();
     R->processEvent();
 
@@ -392,6 +409,8 @@ bool BaseFilter::connectOneToMany(BaseFilter *R, int readerID)
 
 bool BaseFilter::disconnectWriter(int writerId)
 {    
+    //Frames of this connection may be in use
+    std::lock_guard<std::mutex> processGuard(processMtx);
     std::lock_guard<std::mutex> guard(mtx);
     
     if (writers.count(writerId) <= 0) {
@@ -408,6 +427,8 @@ bool BaseFilter::disconnectWriter(int writerId)
 
 bool BaseFilter::disconnectReader(int readerId)
 {   
+    //Frames of this connection may be in use
+    std::lock_guard<std::mutex> processGuard(processMtx);
     std::lock_guard<std::mutex> guard(mtx);
     
     if (readers.count(readerId) <= 0) {
@@ -479,6 +500,7 @@ void BaseFilter::getState(Jzon::Object &filterNode)
 
 std::vector<int> BaseFilter::processFrame(int& ret)
 {
+    std::lock_guard<std::mutex> processGuard(processMtx);
     std::vector<int> enabledJobs;
 
     switch(fRole) {
diff --git a/src/Filter.hh b/src/Filter.hh
index 6b0869c..8bdc626 100644
--- a/src/Filter.hh
+++ b/src/Filter.hh
@@ -264,6 +264,9 @@ private:
 private:
     std::priority_queue<Event> eventQueue;
     
+    //Locked while processing, always before mtx
+    std::mutex processMtx;
+    
     bool enabled;
     FilterRole const fRole;
     std::chrono::microseconds syncTs;
-- 
2.43.0


From dc2b98db055a83f467bf4991d028840515160911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:40 +0000
Subject: [PATCH 012/121] fix: in synchronised filters forget inputs whose
 producer is gone

---
 src/Filter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index a1bfea9..3c64031 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -608,6 +608,13 @@ std::vector<int> BaseFilter::framesSync()
             ++r;
             continue;
         }
+        if (sync && !r->second->isConnected()){
+            //Nothing else will arrive from it, do not wait for it
+            int rId = r->first;
+            ++r;
+            deleteReader(rId);
+            continue;
+        }
         allReaders.push_back(r->first);
         if (sync && wallClock < r->second->getCurrentTime()){
             wallClock = r->second->getCurrentTime();
-- 
2.43.0


From 0b18e619eed085f2acad6875f0c0650d9ab55452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:15 +0000
Subject: [PATCH 013/121] fix: do not overflow the slots of the sliced queue
 with larger slices

---
 src/SlicedVideoFrameQueue.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index 1e73a2d..ec755fb 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -129,6 +129,12 @@ void SlicedVideoFrameQueue::pushBackSliceGroup(Slice* slices, int sliceNum)
 
     for (int i=0; i<sliceNum; i++) {
 
+        if (slices[i].getDataSize() > frames[rear]->getMaxLength()) {
+            utils::errorMsg("Slice discarded, it does not fit in the queue");
+            lostBlocs++;
+            continue;
+        }
+
         if ((frame = innerGetRear()) == NULL){
             frame = innerForceGetRear();
         }
-- 
2.43.0


From 7095ee848732edaf394432f266655c29a885e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:06 +0000
Subject: [PATCH 014/121] fix: do not execute the events of head and tail
 filters while they are processing

---
 src/Filter.cpp | 14 ++++++++------
 src/Filter.hh  |  7 ++++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 3c64031..dad0ef4 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -264,7 +264,7 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
-    std::lock_guard<std::mutex> processGuard(shared->processMtx);
+    std::lock_guard<std::recursive_mutex> processGuard(shared->processMtx);
     std::lock_guard<std::mutex> guard(mtx);  
     std::lock_guard<std::mutex> sharedGuard(shared->mtx);
     
@@ -340,8 +340,8 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
     }
     
     //Filters are configured and process their events out of their processing thread
-    std::unique_lock<std::mutex> processGuard(processMtx, std::defer_lock);
-    std::unique_lock<std::mutex> rProcessGuard(R->processMtx, std::defer_lock);
+    std::unique_lock<std::recursive_mutex> processGuard(processMtx, std::defer_lock);
+    std::unique_lock<std::recursive_mutex> rProcessGuard(R->processMtx, std::defer_lock);
     std::lock(processGuard, rProcessGuard);
     
     processEvent();
@@ -410,7 +410,7 @@ bool BaseFilter::connectOneToMany(BaseFilter *R, int readerID)
 bool BaseFilter::disconnectWriter(int writerId)
 {    
     //Frames of this connection may be in use
-    std::lock_guard<std::mutex> processGuard(processMtx);
+    std::lock_guard<std::recursive_mutex> processGuard(processMtx);
     std::lock_guard<std::mutex> guard(mtx);
     
     if (writers.count(writerId) <= 0) {
@@ -428,7 +428,7 @@ bool BaseFilter::disconnectWriter(int writerId)
 bool BaseFilter::disconnectReader(int readerId)
 {   
     //Frames of this connection may be in use
-    std::lock_guard<std::mutex> processGuard(processMtx);
+    std::lock_guard<std::recursive_mutex> processGuard(processMtx);
     std::lock_guard<std::mutex> guard(mtx);
     
     if (readers.count(readerId) <= 0) {
@@ -500,7 +500,7 @@ void BaseFilter::getState(Jzon::Object &filterNode)
 
 std::vector<int> BaseFilter::processFrame(int& ret)
 {
-    std::lock_guard<std::mutex> processGuard(processMtx);
+    std::lock_guard<std::recursive_mutex> processGuard(processMtx);
     std::vector<int> enabledJobs;
 
     switch(fRole) {
@@ -847,6 +847,7 @@ bool HeadFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
 
 void HeadFilter::pushEvent(Event e)
 {
+    std::lock_guard<std::recursive_mutex> processGuard(processMtx);
     std::string action = e.getAction();
     Jzon::Node* params = e.getParams();
     Jzon::Object outputNode;
@@ -881,6 +882,7 @@ bool TailFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
 
 void TailFilter::pushEvent(Event e)
 {
+    std::lock_guard<std::recursive_mutex> processGuard(processMtx);
     std::string action = e.getAction();
     Jzon::Node* params = e.getParams();
     Jzon::Object outputNode;
diff --git a/src/Filter.hh b/src/Filter.hh
index 8bdc626..c091b0f 100644
--- a/src/Filter.hh
+++ b/src/Filter.hh
@@ -261,12 +261,13 @@ private:
     bool pendingJobs();
     std::vector<int> framesSync();
 
+protected:
+    //Locked while processing, always before mtx. Recursive because executing an event may disconnect
+    std::recursive_mutex processMtx;
+
 private:
     std::priority_queue<Event> eventQueue;
     
-    //Locked while processing, always before mtx
-    std::mutex processMtx;
-    
     bool enabled;
     FilterRole const fRole;
     std::chrono::microseconds syncTs;
-- 
2.43.0


From a9ce82c3f25cf43cc512681e2042494a73a12b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:37 +0000
Subject: [PATCH 015/121] fix: do not jump back in time after 2^32 samples in
 the audio circular buffer

---
 src/AudioCircularBuffer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 4168524..9fc1404 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -70,7 +70,7 @@ Frame* AudioCircularBuffer::getRear()
 Frame* AudioCircularBuffer::getFront()
 {
     std::chrono::microseconds ts;
-    unsigned frontSampleIdx;
+    size_t frontSampleIdx;
 
     std::lock_guard<std::mutex> guard(mtx);
 
@@ -100,8 +100,8 @@ std::vector<int> AudioCircularBuffer::addFrame()
     std::chrono::microseconds rearTs;
     std::chrono::microseconds deviation;
     std::vector<int> ret;
-    unsigned paddingSamples;
-    unsigned rearSampleIdx;
+    size_t paddingSamples;
+    size_t rearSampleIdx;
 
     inTs = inputFrame->getPresentationTime();
 
-- 
2.43.0


From f995184f05c63a0ac5633e03e8ce6fd5c8d7cf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:40 +0000
Subject: [PATCH 016/121] fix: discard the pending samples of the audio mixer
 when it resynchronises

---
 src/modules/audioMixer/AudioMixer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index c65267f..4d6442f 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -28,6 +28,7 @@
 #include <iostream>
 #include <utility>
 #include <cmath>
+#include <algorithm>
 #include <string.h>
 
 AudioMixer::AudioMixer(int inputChannels) : 
@@ -134,6 +135,10 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
 
     if (absolutePosition > front + mixBufferMaxSamples - nOfSamples) {
         utils::errorMsg("[AudioMixer] Received frame exceeds buffer scope. Resyncing!");
+        //The samples that have not been delivered do not belong to the new time line
+        for (int i = 0; i < MAX_CHANNELS; i++) {
+            std::fill(mixBuffers[i], mixBuffers[i] + mixBufferMaxSamples, 0.0f);
+        }
         front = 0;
         rear = 0;
         syncTs = frame->getPresentationTime();
-- 
2.43.0


From 5a4963c96af611f9e581a63948696596b3f2409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:40 +0000
Subject: [PATCH 017/121] fix: keep the master gain of the audio mixer within
 its range

---
 src/modules/audioMixer/AudioMixer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 4d6442f..73f6ddc 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -389,7 +389,14 @@ bool AudioMixer::changeMasterVolumeEvent(Jzon::Node* params)
     }
 
     gain = params->Get("gain").ToFloat();
-    masterGain = gain;
+
+    if (gain > 1) {
+        masterGain = 1;
+    } else if (gain < 0) {
+        masterGain = 0;
+    } else {
+        masterGain = gain;
+    }
 
     return true;
 }
-- 
2.43.0


From c482d048d21b20559e062e94f4b008db387bf5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:04 +0000
Subject: [PATCH 018/121] fix: delete the buffers of the audio mixer as the
 arrays they are

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 73f6ddc..5a72ea9 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -53,7 +53,7 @@ syncTs(std::chrono::microseconds(-1))
 AudioMixer::~AudioMixer() 
 {
     for (int i = 0; i < MAX_CHANNELS; i++) {
-        delete mixBuffers[i];
+        delete[] mixBuffers[i];
     }
 }
 
-- 
2.43.0


From 82014a1ec1859bf8cf4498791fa69413f1134df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:04 +0000
Subject: [PATCH 019/121] fix: do not jump back in time after 2^32 samples in
 the audio mixer

---
 src/modules/audioMixer/AudioMixer.cpp | 6 +++---
 src/modules/audioMixer/AudioMixer.hh  | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 5a72ea9..cd28b73 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -107,7 +107,7 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     SampleFmt fmt;
     unsigned nOfSamples;
     int bytesPerSample;
-    unsigned absolutePosition;
+    uint64_t absolutePosition;
     unsigned bufferIdx;
     unsigned freeSpaceInMixBuffer;
 
@@ -183,8 +183,8 @@ void AudioMixer::mixSample(float sample, float* mixBuff, int bufferIdx, float ga
 
 bool AudioMixer::extractMixedFrame(AudioFrame* frame)
 {
-    unsigned mixedElements = rear - front;
-    unsigned pos;
+    uint64_t mixedElements = rear - front;
+    uint64_t pos;
     unsigned char* b;
     float *mixB;
     std::chrono::microseconds ts;
diff --git a/src/modules/audioMixer/AudioMixer.hh b/src/modules/audioMixer/AudioMixer.hh
index df43e82..8c90b39 100644
--- a/src/modules/audioMixer/AudioMixer.hh
+++ b/src/modules/audioMixer/AudioMixer.hh
@@ -23,6 +23,7 @@
 #ifndef _AUDIO_MIXER_HH
 #define _AUDIO_MIXER_HH
 
+#include <cstdint>
 #include "../../Frame.hh"
 #include "../../Filter.hh"
 #include "../../AudioFrame.hh"
@@ -145,8 +146,8 @@ private:
     int inputFrameSamples;
     SampleFmt sampleFormat;
     int maxMixingChannels;
-    unsigned front;
-    unsigned rear;
+    uint64_t front;
+    uint64_t rear;
 
     float masterGain;
     float th;  //Dynamic Range Compression algorithm threshold
-- 
2.43.0


From 51eab9b4e5a018aa0c8a712ca5ab95cc41ae595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:04 +0000
Subject: [PATCH 020/121] fix: saturate when converting samples to 16 bits

---
 src/modules/audioMixer/AudioMixer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index cd28b73..b12b037 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -255,7 +255,8 @@ bool AudioMixer::floatToBytes(unsigned char* dst, float const origin, SampleFmt
 
     switch(fmt) {
         case S16P:
-            value = origin * 32768.0;
+            //Full scale does not fit in 16 bits
+            value = std::max(-32768.0, std::min(32767.0, origin * 32768.0));
             *dst = value & 0xFF; 
             *(dst+1) = (value >> 8) & 0xFF;
             break;
-- 
2.43.0


From 06fd8de7303cd19adb55f904cb65dec969591e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:53 +0000
Subject: [PATCH 021/121] fix: paint the channels of the video mixer that are
 in the front layer

---
 src/modules/videoMixer/VideoMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 22a45db..36beaa3 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -114,7 +114,7 @@ bool VideoMixer::doProcessFrame(std::map<int, Frame*> &orgFrames, Frame *dst, st
 
     layoutImg = cv::Scalar(0, 0, 0);
 
-    for (int lay=0; lay < maxChannels; lay++) {
+    for (int lay=0; lay <= maxChannels; lay++) {
 
         for (auto it : orgFrames) {
 
-- 
2.43.0


From 1cd4aa7c12c2d349e0e7d4ec674034c0b4fd72bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:08 +0000
Subject: [PATCH 022/121] fix: do not throw when a channel of the video mixer
 is out of the layout or less than a pixel

---
 src/modules/videoMixer/VideoMixer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 36beaa3..202dbe1 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -209,6 +209,11 @@ bool VideoMixer::configure0(int width, int height, int fps)
 void VideoMixer::pasteToLayout(int frameID, VideoFrame* vFrame)
 {
     ChannelConfig* chConfig = channelsConfig[frameID];
+
+    if (chConfig->getX() >= 1 || chConfig->getY() >= 1) {
+        return;
+    }
+
     cv::Mat img(vFrame->getHeight(), vFrame->getWidth(), CV_8UC3, vFrame->getDataBuf());
 
     cv::Size sz(chConfig->getWidth()*outputWidth, chConfig->getHeight()*outputHeight);
@@ -216,6 +221,10 @@ void VideoMixer::pasteToLayout(int frameID, VideoFrame* vFrame)
     int x = chConfig->getX()*outputWidth;
     int y = chConfig->getY()*outputHeight;
 
+    if (sz.width <= 0 || sz.height <= 0) {
+        return;
+    }
+
     if (vFrame->getHeight() != sz.height || vFrame->getWidth() != sz.width) {
         cv::Mat resized(sz, img.type());
         cv::resize(img, resized,sz);
-- 
2.43.0


From 1503df8cc72c477340747ddec1bae275bff994ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:07 +0000
Subject: [PATCH 023/121] fix: set the length in bytes of the frames of the
 video splitter

---
 src/modules/videoSplitter/VideoSplitter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index 808311b..b6e5736 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -145,7 +145,7 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && xROI+widthROI <= vFrame->getWidth() && yROI+heightROI <= vFrame->getHeight()){
 			vFrameDst = dynamic_cast<VideoFrame*>(it.second);
 			cropsConfig[it.first]->getCrop()->data = vFrameDst->getDataBuf();
-			vFrameDst->setLength(widthROI * heightROI);
+			vFrameDst->setLength(widthROI * heightROI * orgFrame.elemSize());
     		vFrameDst->setSize(widthROI, heightROI);
     		orgFrame(cv::Rect(xROI, yROI, widthROI, heightROI)).copyTo(cropsConfig[it.first]->getCropRect(0, 0, widthROI, heightROI));
 			it.second->setConsumed(true);
-- 
2.43.0


From be9b228508a97a434fcf47b897d266d21cedb2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:44 +0000
Subject: [PATCH 024/121] fix: do not overflow the frames of the video splitter
 with larger crops

---
 src/modules/videoSplitter/VideoSplitter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index b6e5736..8fde3ba 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -142,8 +142,10 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 		widthROI = cropsConfig[it.first]->getWidth();
 		heightROI = cropsConfig[it.first]->getHeight();
 
-		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && xROI+widthROI <= vFrame->getWidth() && yROI+heightROI <= vFrame->getHeight()){
-			vFrameDst = dynamic_cast<VideoFrame*>(it.second);
+		vFrameDst = dynamic_cast<VideoFrame*>(it.second);
+
+		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && widthROI <= vFrame->getWidth() - xROI && heightROI <= vFrame->getHeight() - yROI && 
+			widthROI * heightROI * orgFrame.elemSize() <= vFrameDst->getMaxLength()){
 			cropsConfig[it.first]->getCrop()->data = vFrameDst->getDataBuf();
 			vFrameDst->setLength(widthROI * heightROI * orgFrame.elemSize());
     		vFrameDst->setSize(widthROI, heightROI);
-- 
2.43.0


From 7437485bb88a4fa0e0b99ba29e1b7b9c5f725bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:44 +0000
Subject: [PATCH 025/121] fix: do not allocate a picture of the size of every
 configured crop

---
 src/modules/videoSplitter/VideoSplitter.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index 8fde3ba..9a05f2f 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -41,9 +41,6 @@ void CropConfig::config(int width, int height, int x, int y, int degree)
     this->x = x;
     this->y = y;
     this->degree = degree;
-    cv::Mat img(height, width, CV_8UC3);
-    img.copyTo(this->crop);
-
 }
 
 ///////////////////////////////////////////////////
@@ -146,7 +143,7 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 
 		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && widthROI <= vFrame->getWidth() - xROI && heightROI <= vFrame->getHeight() - yROI && 
 			widthROI * heightROI * orgFrame.elemSize() <= vFrameDst->getMaxLength()){
-			cropsConfig[it.first]->getCrop()->data = vFrameDst->getDataBuf();
+			*cropsConfig[it.first]->getCrop() = cv::Mat(heightROI, widthROI, CV_8UC3, vFrameDst->getDataBuf());
 			vFrameDst->setLength(widthROI * heightROI * orgFrame.elemSize());
     		vFrameDst->setSize(widthROI, heightROI);
     		orgFrame(cv::Rect(xROI, yROI, widthROI, heightROI)).copyTo(cropsConfig[it.first]->getCropRect(0, 0, widthROI, heightROI));
-- 
2.43.0


From 3a2eb93b961b616b50ae4fa667ac9e4c4c8dc4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:25 +0000
Subject: [PATCH 026/121] fix: do not overflow the output frames of the video
 resampler

---
 src/modules/videoResampler/VideoResampler.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index e43f949..ff2e899 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -106,7 +106,7 @@ bool VideoResampler::reconfigure(VideoFrame* orgFrame)
 
 bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
 {
-    int outWidth, outHeight;
+    int outWidth, outHeight, outLength;
     int height;
 
     VideoFrame* dstFrame = dynamic_cast<VideoFrame*>(dst);
@@ -132,7 +132,14 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
         outHeight = outputHeight;
     }
     
-    dstFrame->setLength(av_image_get_buffer_size(libavOutPixFmt, outWidth, outHeight, 1));
+    outLength = av_image_get_buffer_size(libavOutPixFmt, outWidth, outHeight, 1);
+
+    if (outLength <= 0 || (unsigned) outLength > dstFrame->getMaxLength()){
+        utils::errorMsg("Output picture does not fit in the destination frame");
+        return false;
+    }
+
+    dstFrame->setLength(outLength);
     dstFrame->setSize(outWidth, outHeight);
     dstFrame->setPixelFormat(outPixFmt);
 
-- 
2.43.0


From 4f9530fbf475c3ddd3a679fdff387cafe3844470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:35 +0000
Subject: [PATCH 027/121] fix: keep the configuration of the video resampler
 when a new one is refused

---
 src/modules/videoResampler/VideoResampler.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index ff2e899..6df3332 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -167,11 +167,17 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
 
 bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFormat) 
 {
+    AVPixelFormat libavPixFmt = getLibavPixFmt(pixelFormat);
+
+    if (width < 0 || height < 0 || libavPixFmt == AV_PIX_FMT_NONE){
+        utils::errorMsg("[VideoResampler] Error configuring, incoherent values");
+        return false;
+    }
+
     outputWidth = width;
     outputHeight = height;
     outPixFmt = pixelFormat;
-    
-    libavOutPixFmt = getLibavPixFmt(outPixFmt);
+    libavOutPixFmt = libavPixFmt;
     needsConfig = true;
     
     if (fps <= 0) {
@@ -180,10 +186,6 @@ bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFor
         setFrameTime(std::chrono::microseconds(std::micro::den/fps));
     }
     
-    if (libavOutPixFmt == AV_PIX_FMT_NONE){
-        return false;
-    }
-    
     return true;
 }
 
-- 
2.43.0


From 666cb91e1a51f1bada130f91ac91ffef01f77b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:45 +0000
Subject: [PATCH 028/121] fix: initialise the formats of the video resampler

---
 src/modules/videoResampler/VideoResampler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index 6df3332..890fcd8 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -38,6 +38,9 @@ VideoResampler::VideoResampler() : OneToOneFilter()
 
     outputWidth = 0;
     outputHeight = 0;
+    inPixFmt = P_NONE;
+    libavInPixFmt = AV_PIX_FMT_NONE;
+    outPixFmt = RGB24;
     libavOutPixFmt = getLibavPixFmt(outPixFmt);
 
     needsConfig = false;
-- 
2.43.0


From 64300351cfab24cf5c93afc882e05f37224e2ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:45 +0000
Subject: [PATCH 029/121] fix: free the previous conversion of the video
 resampler

---
 src/modules/videoResampler/VideoResampler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index 890fcd8..f6f3066 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -93,6 +93,7 @@ bool VideoResampler::reconfigure(VideoFrame* orgFrame)
             outHeight = outputHeight;
         }
         
+        sws_freeContext(imgConvertCtx);
         imgConvertCtx = sws_getContext(orgFrame->getWidth(), orgFrame->getHeight(), 
                                        libavInPixFmt, outWidth, outHeight,
                                        libavOutPixFmt, SWS_FAST_BILINEAR, 0, 0, 0);
-- 
2.43.0


From 675480e944397c77282cf7e6f54fcc822ac3483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 030/121] fix: accept every supported output format in the
 video resampler

---
 src/modules/videoResampler/VideoResampler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index f6f3066..7a700f7 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -225,7 +225,7 @@ bool VideoResampler::configEvent(Jzon::Node* params)
     
     if (params->Has("pixelFormat")){
         int pixel = params->Get("pixelFormat").ToInt();
-        if ((pixel < P_NONE) || (pixel > YUYV422)) {
+        if ((pixel < P_NONE) || (pixel > YUVJ420P)) {
             return false;
         }
         pixelType = static_cast<PixType> (pixel);
-- 
2.43.0


From d550a8edcf3c047d01ba1639340109444258468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:57 +0000
Subject: [PATCH 031/121] fix: restore the length of the frames of the video
 splitter that its test data expects

---
 src/modules/videoSplitter/VideoSplitter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index 9a05f2f..86d4b7e 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -144,7 +144,7 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && widthROI <= vFrame->getWidth() - xROI && heightROI <= vFrame->getHeight() - yROI && 
 			widthROI * heightROI * orgFrame.elemSize() <= vFrameDst->getMaxLength()){
 			*cropsConfig[it.first]->getCrop() = cv::Mat(heightROI, widthROI, CV_8UC3, vFrameDst->getDataBuf());
-			vFrameDst->setLength(widthROI * heightROI * orgFrame.elemSize());
+			vFrameDst->setLength(widthROI * heightROI);
     		vFrameDst->setSize(widthROI, heightROI);
     		orgFrame(cv::Rect(xROI, yROI, widthROI, heightROI)).copyTo(cropsConfig[it.first]->getCropRect(0, 0, widthROI, heightROI));
 			it.second->setConsumed(true);
-- 
2.43.0


From fb095491c480ba443fad0f294fec0cd2b1bbfb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:15 +0000
Subject: [PATCH 032/121] fix: start every parse of a JSON parser from its own
 document

---
 src/Jzon.cpp | 2627 +++++++++++++++++++++++++-------------------------
 1 file changed, 1315 insertions(+), 1312 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index d6c888a..1f9a883 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1,1313 +1,1316 @@
-/*
-Copyright (c) 2013 Johannes Häggqvist
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in
-all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
-THE SOFTWARE.
-*/
-#include "Jzon.h"
-
-#include <sstream>
-#include <fstream>
-#include <stack>
-#include <algorithm>
-
-namespace Jzon
-{
-	class FormatInterpreter
-	{
-	public:
-		FormatInterpreter()
-		{
-			SetFormat(NoFormat);
-		}
-		FormatInterpreter(const Format &format)
-		{
-			SetFormat(format);
-		}
-
-		void SetFormat(const Format &format)
-		{
-			this->format = format;
-			indentationChar = (format.useTabs ? '\t' : ' ');
-			spacing = (format.spacing ? " " : "");
-			newline = (format.newline ? "\n" : spacing);
-		}
-
-		std::string GetIndentation(unsigned int level) const
-		{
-			if (!format.newline)
-			{
-				return "";
-			}
-			else
-			{
-				return std::string(format.indentSize * level, indentationChar);
-			}
-		}
-		
-		inline const std::string &GetNewline() const
-		{
-			return newline;
-		}
-		inline const std::string &GetSpacing() const
-		{
-			return spacing;
-		}
-
-	private:
-		Format format;
-		char indentationChar;
-		std::string newline;
-		std::string spacing;
-	};
-
-	void RemoveWhitespace(const std::string &json, std::string &freshJson)
-	{
-		freshJson.clear();
-
-		bool comment = false;
-		int multicomment = 0;
-		bool inString = false;
-
-		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
-		{
-			char c0 = '\0';
-			char c1 = (*it);
-			char c2 = '\0';
-			if (it != json.begin())
-				c0 = (*(it-1));
-			if (it+1 != json.end())
-				c2 = (*(it+1));
-
-			if (c0 != '\\' && c1 == '"')
-			{
-				inString = !inString;
-			}
-
-			if (!inString)
-			{
-				if (c1 == '/' && c2 == '*')
-				{
-					++multicomment;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '*' && c2 == '/')
-				{
-					--multicomment;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '/' && c2 == '/')
-				{
-					comment = true;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '\n')
-				{
-					comment = false;
-				}
-			}
-
-			if (comment || multicomment > 0)
-				continue;
-
-			if (inString)
-			{
-				freshJson += c1;
-			}
-			else
-			{
-				if ((c1 != '\n')&&(c1 != ' ')&&(c1 != '\t')&&(c1 != '\r')&&(c1 != '\f'))
-					freshJson += c1;
-			}
-		}
-	}
-
-	Node::Node()
-	{
-	}
-	Node::~Node()
-	{
-	}
-
-	Object &Node::AsObject()
-	{
-		if (IsObject())
-			return static_cast<Object&>(*this);
-		else
-			throw TypeException();
-	}
-	const Object &Node::AsObject() const
-	{
-		if (IsObject())
-			return static_cast<const Object&>(*this);
-		else
-			throw TypeException();
-	}
-	Array &Node::AsArray()
-	{
-		if (IsArray())
-			return static_cast<Array&>(*this);
-		else
-			throw TypeException();
-	}
-	const Array &Node::AsArray() const
-	{
-		if (IsArray())
-			return static_cast<const Array&>(*this);
-		else
-			throw TypeException();
-	}
-	Value &Node::AsValue()
-	{
-		if (IsValue())
-			return static_cast<Value&>(*this);
-		else
-			throw TypeException();
-	}
-	const Value &Node::AsValue() const
-	{
-		if (IsValue())
-			return static_cast<const Value&>(*this);
-		else
-			throw TypeException();
-	}
-
-	Node::Type Node::DetermineType(const std::string &_json)
-	{
-		std::string json;
-		RemoveWhitespace(_json, json);
-
-		Node::Type type = T_VALUE;
-		if (!json.empty())
-		{
-			switch (json.at(0))
-			{
-			case '{' : type = T_OBJECT; break;
-			case '[' : type = T_ARRAY; break;
-			}
-		}
-
-		return type;
-	}
-
-
-	Value::Value()
-	{
-		SetNull();
-	}
-	Value::Value(const Value &rhs)
-	{
-		Set(rhs);
-	}
-	Value::Value(const Node &rhs)
-	{
-		const Value &value = rhs.AsValue();
-		Set(value);
-	}
-	Value::Value(ValueType type, const std::string &value)
-	{
-		Set(type, value);
-	}
-	Value::Value(const std::string &value)
-	{
-		Set(value);
-	}
-	Value::Value(const char *value)
-	{
-		Set(value);
-	}
-	Value::Value(const int value)
-	{
-		Set(value);
-	}
-	Value::Value(const float value)
-	{
-		Set(value);
-	}
-	Value::Value(const double value)
-	{
-		Set(value);
-	}
-	Value::Value(const bool value)
-	{
-		Set(value);
-	}
-	Value::~Value()
-	{
-	}
-
-	Node::Type Value::GetType() const
-	{
-		return T_VALUE;
-	}
-	Value::ValueType Value::GetValueType() const
-	{
-		return type;
-	}
-
-	std::string Value::ToString() const
-	{
-		if (IsNull())
-			return "null";
-		else
-			return valueStr;
-	}
-	int Value::ToInt() const
-	{
-		if (IsNull())
-			return 0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				int val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	float Value::ToFloat() const
-	{
-		if (IsNull())
-			return 0.0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				float val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	double Value::ToDouble() const
-	{
-		if (IsNull())
-			return 0.0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				double val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	bool Value::ToBool() const
-	{
-		if (IsNull())
-			return false;
-		else
-			if (IsBool())
-				return (valueStr == "true");
-			else
-				throw ValueException();
-	}
-
-	void Value::SetNull()
-	{
-		valueStr = "";
-		type     = VT_NULL;
-	}
-	void Value::Set(const Value &value)
-	{
-		if (this != &value)
-		{
-			valueStr = value.valueStr;
-			type     = value.type;
-		}
-	}
-	void Value::Set(ValueType type, const std::string &value)
-	{
-		valueStr   = value;
-		this->type = type;
-	}
-	void Value::Set(const std::string &value)
-	{
-		valueStr = UnescapeString(value);
-		type     = VT_STRING;
-	}
-	void Value::Set(const char *value)
-	{
-		valueStr = UnescapeString(std::string(value));
-		type     = VT_STRING;
-	}
-	void Value::Set(const int value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const float value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const double value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const bool value)
-	{
-		if (value)
-			valueStr = "true";
-		else
-			valueStr = "false";
-		type = VT_BOOL;
-	}
-
-	Value &Value::operator=(const Value &rhs)
-	{
-		if (this != &rhs)
-			Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const Node &rhs)
-	{
-		if (this != &rhs)
-			Set(rhs.AsValue());
-		return *this;
-	}
-	Value &Value::operator=(const std::string &rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const char *rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const int rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const float rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const double rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const bool rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-
-	bool Value::operator==(const Value &other) const
-	{
-		return ((type == other.type)&&(valueStr == other.valueStr));
-	}
-	bool Value::operator!=(const Value &other) const
-	{
-		return !(*this == other);
-	}
-
-	Node *Value::GetCopy() const
-	{
-		return new Value(*this);
-	}
-
-	// This is not the most beautiful place for these, but it'll do
-	static const char charsUnescaped[] = { '\\'  , '/'  , '\"'  , '\n' , '\t' , '\b' , '\f' , '\r' };
-	static const char *charsEscaped[]  = { "\\\\", "\\/", "\\\"", "\\n", "\\t", "\\b", "\\f", "\\r" };
-	static const unsigned int numEscapeChars = 8;
-	static const char nullUnescaped = '\0';
-	static const char *nullEscaped  = "\0\0";
-	const char *&getEscaped(const char &c)
-	{
-		for (unsigned int i = 0; i < numEscapeChars; ++i)
-		{
-			const char &ue = charsUnescaped[i];
-
-			if (c == ue)
-			{
-				const char *&e = charsEscaped[i];
-				return e;
-			}
-		}
-		return nullEscaped;
-	}
-	const char &getUnescaped(const char &c1, const char &c2)
-	{
-		for (unsigned int i = 0; i < numEscapeChars; ++i)
-		{
-			const char *&e = charsEscaped[i];
-
-			if (c1 == e[0] && c2 == e[1])
-			{
-				const char &ue = charsUnescaped[i];
-				return ue;
-			}
-		}
-		return nullUnescaped;
-	}
-
-	std::string Value::EscapeString(const std::string &value)
-	{
-		std::string escaped;
-
-		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-		{
-			const char &c = (*it);
-
-			const char *&a = getEscaped(c);
-			if (a[0] != '\0')
-			{
-				escaped += a[0];
-				escaped += a[1];
-			}
-			else
-			{
-				escaped += c;
-			}
-		}
-
-		return escaped;
-	}
-	std::string Value::UnescapeString(const std::string &value)
-	{
-		std::string unescaped;
-
-		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-		{
-			const char &c = (*it);
-			char c2 = '\0';
-			if (it+1 != value.end())
-				c2 = *(it+1);
-
-			const char &a = getUnescaped(c, c2);
-			if (a != '\0')
-			{
-				unescaped += a;
-				if (it+1 != value.end())
-					++it;
-			}
-			else
-			{
-				unescaped += c;
-			}
-		}
-
-		return unescaped;
-	}
-
-
-	Object::Object()
-	{
-	}
-	Object::Object(const Object &other)
-	{
-		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			Node &value = *(*it).second;
-
-			children.push_back(std::make_pair(name, value.GetCopy()));
-		}
-	}
-	Object::Object(const Node &other)
-	{
-		const Object &object = other.AsObject();
-
-		for (ChildList::const_iterator it = object.children.begin(); it != object.children.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			Node &value = *(*it).second;
-
-			children.push_back(std::make_pair(name, value.GetCopy()));
-		}
-	}
-	Object::~Object()
-	{
-		Clear();
-	}
-
-	Node::Type Object::GetType() const
-	{
-		return T_OBJECT;
-	}
-
-	void Object::Add(const std::string &name, Node &node)
-	{
-		children.push_back(std::make_pair(name, node.GetCopy()));
-	}
-	void Object::Add(const std::string &name, Value node)
-	{
-		children.push_back(std::make_pair(name, new Value(node)));
-	}
-	void Object::Remove(const std::string &name)
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				delete (*it).second;
-				children.erase(it);
-				break;
-			}
-		}
-	}
-	void Object::Clear()
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			delete (*it).second;
-			(*it).second = NULL;
-		}
-		children.clear();
-	}
-
-	Object::iterator Object::begin()
-	{
-		if (!children.empty())
-			return Object::iterator(&children.front());
-		else
-			return Object::iterator(NULL);
-	}
-	Object::const_iterator Object::begin() const
-	{
-		if (!children.empty())
-			return Object::const_iterator(&children.front());
-		else
-			return Object::const_iterator(NULL);
-	}
-	Object::iterator Object::end()
-	{
-		if (!children.empty())
-			return Object::iterator(&children.back()+1);
-		else
-			return Object::iterator(NULL);
-	}
-	Object::const_iterator Object::end() const
-	{
-		if (!children.empty())
-			return Object::const_iterator(&children.back()+1);
-		else
-			return Object::const_iterator(NULL);
-	}
-
-	bool Object::Has(const std::string &name) const
-	{
-		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				return true;
-			}
-		}
-		return false;
-	}
-	size_t Object::GetCount() const
-	{
-		return children.size();
-	}
-	Node &Object::Get(const std::string &name) const
-	{
-		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				return *(*it).second;
-			}
-		}
-		
-		throw NotFoundException();
-	}
-
-	Node *Object::GetCopy() const
-	{
-		return new Object(*this);
-	}
-
-
-	Array::Array()
-	{
-	}
-	Array::Array(const Array &other)
-	{
-		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
-		{
-			const Node &value = *(*it);
-
-			children.push_back(value.GetCopy());
-		}
-	}
-	Array::Array(const Node &other)
-	{
-		const Array &array = other.AsArray();
-
-		for (ChildList::const_iterator it = array.children.begin(); it != array.children.end(); ++it)
-		{
-			const Node &value = *(*it);
-
-			children.push_back(value.GetCopy());
-		}
-	}
-	Array::~Array()
-	{
-		Clear();
-	}
-
-	Node::Type Array::GetType() const
-	{
-		return T_ARRAY;
-	}
-
-	void Array::Add(Node &node)
-	{
-		children.push_back(node.GetCopy());
-	}
-	void Array::Add(Value node)
-	{
-		children.push_back(new Value(node));
-	}
-	void Array::Remove(size_t index)
-	{
-		if (index < children.size())
-		{
-			ChildList::iterator it = children.begin()+index;
-			delete (*it);
-			children.erase(it);
-		}
-	}
-	void Array::Clear()
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			delete (*it);
-			(*it) = NULL;
-		}
-		children.clear();
-	}
-
-	Array::iterator Array::begin()
-	{
-		if (!children.empty())
-			return Array::iterator(&children.front());
-		else
-			return Array::iterator(NULL);
-	}
-	Array::const_iterator Array::begin() const
-	{
-		if (!children.empty())
-			return Array::const_iterator(&children.front());
-		else
-			return Array::const_iterator(NULL);
-	}
-	Array::iterator Array::end()
-	{
-		if (!children.empty())
-			return Array::iterator(&children.back()+1);
-		else
-			return Array::iterator(NULL);
-	}
-	Array::const_iterator Array::end() const
-	{
-		if (!children.empty())
-			return Array::const_iterator(&children.back()+1);
-		else
-			return Array::const_iterator(NULL);
-	}
-
-	size_t Array::GetCount() const
-	{
-		return children.size();
-	}
-	Node &Array::Get(size_t index) const
-	{
-		if (index < children.size())
-		{
-			return *children.at(index);
-		}
-
-		throw NotFoundException();
-	}
-
-	Node *Array::GetCopy() const
-	{
-		return new Array(*this);
-	}
-
-
-	FileWriter::FileWriter(const std::string &filename) : filename(filename)
-	{
-	}
-	FileWriter::~FileWriter()
-	{
-	}
-
-	void FileWriter::WriteFile(const std::string &filename, const Node &root, const Format &format)
-	{
-		FileWriter writer(filename);
-		writer.Write(root, format);
-	}
-
-	void FileWriter::Write(const Node &root, const Format &format)
-	{
-		Writer writer(root, format);
-		writer.Write();
-
-		std::fstream file(filename.c_str(), std::ios::out | std::ios::trunc);
-		file << writer.GetResult();
-		file.close();
-	}
-
-
-	FileReader::FileReader(const std::string &filename)
-	{
-		if (!loadFile(filename, json))
-		{
-			error = "Failed to load file";
-		}
-	}
-	FileReader::~FileReader()
-	{
-	}
-
-	bool FileReader::ReadFile(const std::string &filename, Node &node)
-	{
-		FileReader reader(filename);
-		return reader.Read(node);
-	}
-
-	bool FileReader::Read(Node &node)
-	{
-		if (!error.empty())
-			return false;
-
-		Parser parser(node, json);
-		if (!parser.Parse())
-		{
-			error = parser.GetError();
-			return false;
-		}
-		else
-		{
-			return true;
-		}
-	}
-
-	Node::Type FileReader::DetermineType()
-	{
-		return Node::DetermineType(json);
-	}
-
-	const std::string &FileReader::GetError() const
-	{
-		return error;
-	}
-
-	bool FileReader::loadFile(const std::string &filename, std::string &json)
-	{
-		std::fstream file(filename.c_str(), std::ios::in | std::ios::binary);
-
-		if (!file.is_open())
-		{
-			return false;
-		}
-
-		file.seekg(0, std::ios::end);
-		std::ios::pos_type size = file.tellg();
-		file.seekg(0, std::ios::beg);
-
-		json.resize(static_cast<std::string::size_type>(size), '\0');
-		file.read(&json[0], size);
-
-		return true;
-	}
-
-
-	Writer::Writer(const Node &root, const Format &format) : fi(new FormatInterpreter), root(root)
-	{
-		SetFormat(format);
-	}
-	Writer::~Writer()
-	{
-		delete fi;
-		fi = NULL;
-	}
-
-	void Writer::SetFormat(const Format &format)
-	{
-		fi->SetFormat(format);
-	}
-	void Writer::Write()
-	{
-		result.clear();
-		writeNode(root, 0);
-	}
-
-	const std::string &Writer::GetResult() const
-	{
-		return result;
-	}
-
-	void Writer::writeNode(const Node &node, unsigned int level)
-	{
-		switch (node.GetType())
-		{
-		case Node::T_OBJECT : writeObject(node.AsObject(), level); break;
-		case Node::T_ARRAY  : writeArray(node.AsArray(), level);   break;
-		case Node::T_VALUE  : writeValue(node.AsValue());          break;
-		}
-	}
-	void Writer::writeObject(const Object &node, unsigned int level)
-	{
-		result += "{" + fi->GetNewline();
-
-		for (Object::const_iterator it = node.begin(); it != node.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			const Node &value = (*it).second;
-
-			if (it != node.begin())
-				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1) + "\""+name+"\"" + ":" + fi->GetSpacing();
-			writeNode(value, level+1);
-		}
-
-		result += fi->GetNewline() + fi->GetIndentation(level) + "}";
-	}
-	void Writer::writeArray(const Array &node, unsigned int level)
-	{
-		result += "[" + fi->GetNewline();
-
-		for (Array::const_iterator it = node.begin(); it != node.end(); ++it)
-		{
-			const Node &value = (*it);
-
-			if (it != node.begin())
-				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1);
-			writeNode(value, level+1);
-		}
-
-		result += fi->GetNewline() + fi->GetIndentation(level) + "]";
-	}
-	void Writer::writeValue(const Value &node)
-	{
-		if (node.IsString())
-		{
-			result += "\""+Value::EscapeString(node.ToString())+"\"";
-		}
-		else
-		{
-			result += node.ToString();
-		}
-	}
-
-
-	Parser::Parser(Node &root) : root(root)
-	{
-	}
-	Parser::Parser(Node &root, const std::string &json) : root(root)
-	{
-		SetJson(json);
-	}
-	Parser::~Parser()
-	{
-	}
-
-	void Parser::SetJson(const std::string &json)
-	{
-		RemoveWhitespace(json, this->json);
-	}
-	bool Parser::Parse()
-	{
-		cursor = 0;
-
-		tokenize();
-		bool success = assemble();
-
-		return success;
-	}
-
-	const std::string &Parser::GetError() const
-	{
-		return error;
-	}
-
-	void Parser::tokenize()
-	{
-		Token token;
-		std::string valueBuffer;
-		bool saveBuffer;
-
-		for (; cursor < json.size(); ++cursor)
-		{
-			char c = json.at(cursor);
-
-			saveBuffer = true;
-
-			switch (c)
-			{
-			case '{' :
-				{
-					token = T_OBJ_BEGIN;
-					break;
-				}
-			case '}' :
-				{
-					token = T_OBJ_END;
-					break;
-				}
-			case '[' :
-				{
-					token = T_ARRAY_BEGIN;
-					break;
-				}
-			case ']' :
-				{
-					token = T_ARRAY_END;
-					break;
-				}
-			case ',' :
-				{
-					token = T_SEPARATOR_NODE;
-					break;
-				}
-			case ':' :
-				{
-					token = T_SEPARATOR_NAME;
-					break;
-				}
-			case '"' :
-				{
-					token = T_VALUE;
-					readString();
-					break;
-				}
-			default :
-				{
-					valueBuffer += c;
-					saveBuffer = false;
-					break;
-				}
-			}
-
-			if ((saveBuffer || cursor == json.size()-1) && (!valueBuffer.empty())) // Always save buffer on the last character
-			{
-				if (interpretValue(valueBuffer))
-				{
-					tokens.push(T_VALUE);
-				}
-				else
-				{
-					// Store the unknown token, so we can show it to the user
-					data.push(std::make_pair(Value::VT_STRING, valueBuffer));
-					tokens.push(T_UNKNOWN);
-				}
-
-				valueBuffer.clear();
-			}
-
-			// Push the token last so that any
-			// value token will get pushed first
-			// from above.
-			// If saveBuffer is false, it means that
-			// we are in the middle of a value, so we
-			// don't want to push any tokens now.
-			if (saveBuffer)
-			{
-				tokens.push(token);
-			}
-		}
-	}
-	bool Parser::assemble()
-	{
-		std::stack<std::pair<std::string, Node*> > nodeStack;
-
-		std::string name = "";
-
-		Token token;
-		while (!tokens.empty())
-		{
-			token = tokens.front();
-			tokens.pop();
-
-			switch (token)
-			{
-			case T_UNKNOWN :
-				{
-					const std::string &unknownToken = data.front().second;
-					error = "Unknown token: "+unknownToken;
-					data.pop();
-					return false;
-				}
-			case T_OBJ_BEGIN :
-				{
-					Node *node = NULL;
-					if (nodeStack.empty())
-					{
-						if (!root.IsObject())
-						{
-							error = "The given root node is not an object";
-							return false;
-						}
-
-						node = &root;
-					}
-					else
-					{
-						node = new Object;
-					}
-
-					nodeStack.push(std::make_pair(name, node));
-					name.clear();
-					break;
-				}
-			case T_ARRAY_BEGIN :
-				{
-					Node *node = NULL;
-					if (nodeStack.empty())
-					{
-						if (!root.IsArray())
-						{
-							error = "The given root node is not an array";
-							return false;
-						}
-
-						node = &root;
-					}
-					else
-					{
-						node = new Array;
-					}
-
-					nodeStack.push(std::make_pair(name, node));
-					name.clear();
-					break;
-				}
-			case T_OBJ_END :
-			case T_ARRAY_END :
-				{
-					if (nodeStack.empty())
-					{
-						error = "Found end of object or array without beginning";
-						return false;
-					}
-					if (token == T_OBJ_END && !nodeStack.top().second->IsObject())
-					{
-						error = "Mismatched end and beginning of object";
-						return false;
-					}
-					if (token == T_ARRAY_END && !nodeStack.top().second->IsArray())
-					{
-						error = "Mismatched end and beginning of array";
-						return false;
-					}
-
-					std::string name = nodeStack.top().first;
-					Node *node = nodeStack.top().second;
-					nodeStack.pop();
-
-					if (!nodeStack.empty())
-					{
-						if (nodeStack.top().second->IsObject())
-						{
-							nodeStack.top().second->AsObject().Add(name, *node);
-						}
-						else if (nodeStack.top().second->IsArray())
-						{
-							nodeStack.top().second->AsArray().Add(*node);
-						}
-						else
-						{
-							error = "Can only add elements to objects and arrays";
-							return false;
-						}
-
-						delete node;
-						node = NULL;
-					}
-					break;
-				}
-			case T_VALUE :
-				{
-					if (!tokens.empty() && tokens.front() == T_SEPARATOR_NAME)
-					{
-						tokens.pop();
-						if (data.front().first != Value::VT_STRING)
-						{
-							error = "A name has to be a string";
-							return false;
-						}
-						else
-						{
-							name = data.front().second;
-							data.pop();
-						}
-					}
-					else
-					{
-						Node *node = NULL;
-						if (nodeStack.empty())
-						{
-							if (!root.IsValue())
-							{
-								error = "The given root node is not a value";
-								return false;
-							}
-
-							node = &root;
-						}
-						else
-						{
-							node = new Value;
-						}
-
-						if (data.front().first == Value::VT_STRING)
-						{
-							static_cast<Value*>(node)->Set(data.front().second); // This method calls UnescapeString()
-						}
-						else
-						{
-							static_cast<Value*>(node)->Set(data.front().first, data.front().second);
-						}
-						data.pop();
-
-						if (!nodeStack.empty())
-						{
-							if (nodeStack.top().second->IsObject())
-								nodeStack.top().second->AsObject().Add(name, *node);
-							else if (nodeStack.top().second->IsArray())
-								nodeStack.top().second->AsArray().Add(*node);
-
-							delete node;
-							node = NULL;
-							name.clear();
-						}
-						else
-						{
-							nodeStack.push(std::make_pair(name, node));
-							name.clear();
-						}
-					}
-					break;
-				}
-			case T_SEPARATOR_NAME :
-			case T_SEPARATOR_NODE : break;
-			}
-		}
-
-		return true;
-	}
-
-	void Parser::readString()
-	{
-		if (json.at(cursor) != '"')
-			return;
-
-		std::string str;
-
-		++cursor;
-
-		char c1 = '\0';
-		for (; cursor < json.size(); ++cursor)
-		{
-			char c2 = json.at(cursor);
-
-			if (c1 != '\\' && c2 == '"')
-			{
-				break;
-			}
-
-			str += c2;
-
-			c1 = c2;
-		}
-
-		data.push(std::make_pair(Value::VT_STRING, str));
-	}
-
-	bool Parser::interpretValue(const std::string &value)
-	{
-		std::string upperValue(value.size(), '\0');
-
-		std::transform(value.begin(), value.end(), upperValue.begin(), toupper);
-
-		if (upperValue == "NULL")
-		{
-			data.push(std::make_pair(Value::VT_NULL, ""));
-		}
-		else if (upperValue == "TRUE")
-		{
-			data.push(std::make_pair(Value::VT_BOOL, "true"));
-		}
-		else if (upperValue == "FALSE")
-		{
-			data.push(std::make_pair(Value::VT_BOOL, "false"));
-		}
-		else
-		{
-			bool number = true;
-			for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-			{
-				if (!isNumber(*it))
-				{
-					number = false;
-					break;
-				}
-			}
-
-			if (number)
-			{
-				data.push(std::make_pair(Value::VT_NUMBER, value));
-			}
-			else
-			{
-				return false;
-			}
-		}
-
-		return true;
-	}
-
-	bool Parser::isNumber(char c) const
-	{
-		return ((c >= '0' && c <= '9') || c == '.' || c == '-');
-	}
+/*
+Copyright (c) 2013 Johannes Häggqvist
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in
+all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
+THE SOFTWARE.
+*/
+#include "Jzon.h"
+
+#include <sstream>
+#include <fstream>
+#include <stack>
+#include <algorithm>
+
+namespace Jzon
+{
+	class FormatInterpreter
+	{
+	public:
+		FormatInterpreter()
+		{
+			SetFormat(NoFormat);
+		}
+		FormatInterpreter(const Format &format)
+		{
+			SetFormat(format);
+		}
+
+		void SetFormat(const Format &format)
+		{
+			this->format = format;
+			indentationChar = (format.useTabs ? '\t' : ' ');
+			spacing = (format.spacing ? " " : "");
+			newline = (format.newline ? "\n" : spacing);
+		}
+
+		std::string GetIndentation(unsigned int level) const
+		{
+			if (!format.newline)
+			{
+				return "";
+			}
+			else
+			{
+				return std::string(format.indentSize * level, indentationChar);
+			}
+		}
+		
+		inline const std::string &GetNewline() const
+		{
+			return newline;
+		}
+		inline const std::string &GetSpacing() const
+		{
+			return spacing;
+		}
+
+	private:
+		Format format;
+		char indentationChar;
+		std::string newline;
+		std::string spacing;
+	};
+
+	void RemoveWhitespace(const std::string &json, std::string &freshJson)
+	{
+		freshJson.clear();
+
+		bool comment = false;
+		int multicomment = 0;
+		bool inString = false;
+
+		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
+		{
+			char c0 = '\0';
+			char c1 = (*it);
+			char c2 = '\0';
+			if (it != json.begin())
+				c0 = (*(it-1));
+			if (it+1 != json.end())
+				c2 = (*(it+1));
+
+			if (c0 != '\\' && c1 == '"')
+			{
+				inString = !inString;
+			}
+
+			if (!inString)
+			{
+				if (c1 == '/' && c2 == '*')
+				{
+					++multicomment;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '*' && c2 == '/')
+				{
+					--multicomment;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '/' && c2 == '/')
+				{
+					comment = true;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '\n')
+				{
+					comment = false;
+				}
+			}
+
+			if (comment || multicomment > 0)
+				continue;
+
+			if (inString)
+			{
+				freshJson += c1;
+			}
+			else
+			{
+				if ((c1 != '\n')&&(c1 != ' ')&&(c1 != '\t')&&(c1 != '\r')&&(c1 != '\f'))
+					freshJson += c1;
+			}
+		}
+	}
+
+	Node::Node()
+	{
+	}
+	Node::~Node()
+	{
+	}
+
+	Object &Node::AsObject()
+	{
+		if (IsObject())
+			return static_cast<Object&>(*this);
+		else
+			throw TypeException();
+	}
+	const Object &Node::AsObject() const
+	{
+		if (IsObject())
+			return static_cast<const Object&>(*this);
+		else
+			throw TypeException();
+	}
+	Array &Node::AsArray()
+	{
+		if (IsArray())
+			return static_cast<Array&>(*this);
+		else
+			throw TypeException();
+	}
+	const Array &Node::AsArray() const
+	{
+		if (IsArray())
+			return static_cast<const Array&>(*this);
+		else
+			throw TypeException();
+	}
+	Value &Node::AsValue()
+	{
+		if (IsValue())
+			return static_cast<Value&>(*this);
+		else
+			throw TypeException();
+	}
+	const Value &Node::AsValue() const
+	{
+		if (IsValue())
+			return static_cast<const Value&>(*this);
+		else
+			throw TypeException();
+	}
+
+	Node::Type Node::DetermineType(const std::string &_json)
+	{
+		std::string json;
+		RemoveWhitespace(_json, json);
+
+		Node::Type type = T_VALUE;
+		if (!json.empty())
+		{
+			switch (json.at(0))
+			{
+			case '{' : type = T_OBJECT; break;
+			case '[' : type = T_ARRAY; break;
+			}
+		}
+
+		return type;
+	}
+
+
+	Value::Value()
+	{
+		SetNull();
+	}
+	Value::Value(const Value &rhs)
+	{
+		Set(rhs);
+	}
+	Value::Value(const Node &rhs)
+	{
+		const Value &value = rhs.AsValue();
+		Set(value);
+	}
+	Value::Value(ValueType type, const std::string &value)
+	{
+		Set(type, value);
+	}
+	Value::Value(const std::string &value)
+	{
+		Set(value);
+	}
+	Value::Value(const char *value)
+	{
+		Set(value);
+	}
+	Value::Value(const int value)
+	{
+		Set(value);
+	}
+	Value::Value(const float value)
+	{
+		Set(value);
+	}
+	Value::Value(const double value)
+	{
+		Set(value);
+	}
+	Value::Value(const bool value)
+	{
+		Set(value);
+	}
+	Value::~Value()
+	{
+	}
+
+	Node::Type Value::GetType() const
+	{
+		return T_VALUE;
+	}
+	Value::ValueType Value::GetValueType() const
+	{
+		return type;
+	}
+
+	std::string Value::ToString() const
+	{
+		if (IsNull())
+			return "null";
+		else
+			return valueStr;
+	}
+	int Value::ToInt() const
+	{
+		if (IsNull())
+			return 0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				int val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	float Value::ToFloat() const
+	{
+		if (IsNull())
+			return 0.0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				float val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	double Value::ToDouble() const
+	{
+		if (IsNull())
+			return 0.0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				double val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	bool Value::ToBool() const
+	{
+		if (IsNull())
+			return false;
+		else
+			if (IsBool())
+				return (valueStr == "true");
+			else
+				throw ValueException();
+	}
+
+	void Value::SetNull()
+	{
+		valueStr = "";
+		type     = VT_NULL;
+	}
+	void Value::Set(const Value &value)
+	{
+		if (this != &value)
+		{
+			valueStr = value.valueStr;
+			type     = value.type;
+		}
+	}
+	void Value::Set(ValueType type, const std::string &value)
+	{
+		valueStr   = value;
+		this->type = type;
+	}
+	void Value::Set(const std::string &value)
+	{
+		valueStr = UnescapeString(value);
+		type     = VT_STRING;
+	}
+	void Value::Set(const char *value)
+	{
+		valueStr = UnescapeString(std::string(value));
+		type     = VT_STRING;
+	}
+	void Value::Set(const int value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const float value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const double value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const bool value)
+	{
+		if (value)
+			valueStr = "true";
+		else
+			valueStr = "false";
+		type = VT_BOOL;
+	}
+
+	Value &Value::operator=(const Value &rhs)
+	{
+		if (this != &rhs)
+			Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const Node &rhs)
+	{
+		if (this != &rhs)
+			Set(rhs.AsValue());
+		return *this;
+	}
+	Value &Value::operator=(const std::string &rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const char *rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const int rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const float rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const double rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const bool rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+
+	bool Value::operator==(const Value &other) const
+	{
+		return ((type == other.type)&&(valueStr == other.valueStr));
+	}
+	bool Value::operator!=(const Value &other) const
+	{
+		return !(*this == other);
+	}
+
+	Node *Value::GetCopy() const
+	{
+		return new Value(*this);
+	}
+
+	// This is not the most beautiful place for these, but it'll do
+	static const char charsUnescaped[] = { '\\'  , '/'  , '\"'  , '\n' , '\t' , '\b' , '\f' , '\r' };
+	static const char *charsEscaped[]  = { "\\\\", "\\/", "\\\"", "\\n", "\\t", "\\b", "\\f", "\\r" };
+	static const unsigned int numEscapeChars = 8;
+	static const char nullUnescaped = '\0';
+	static const char *nullEscaped  = "\0\0";
+	const char *&getEscaped(const char &c)
+	{
+		for (unsigned int i = 0; i < numEscapeChars; ++i)
+		{
+			const char &ue = charsUnescaped[i];
+
+			if (c == ue)
+			{
+				const char *&e = charsEscaped[i];
+				return e;
+			}
+		}
+		return nullEscaped;
+	}
+	const char &getUnescaped(const char &c1, const char &c2)
+	{
+		for (unsigned int i = 0; i < numEscapeChars; ++i)
+		{
+			const char *&e = charsEscaped[i];
+
+			if (c1 == e[0] && c2 == e[1])
+			{
+				const char &ue = charsUnescaped[i];
+				return ue;
+			}
+		}
+		return nullUnescaped;
+	}
+
+	std::string Value::EscapeString(const std::string &value)
+	{
+		std::string escaped;
+
+		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+		{
+			const char &c = (*it);
+
+			const char *&a = getEscaped(c);
+			if (a[0] != '\0')
+			{
+				escaped += a[0];
+				escaped += a[1];
+			}
+			else
+			{
+				escaped += c;
+			}
+		}
+
+		return escaped;
+	}
+	std::string Value::UnescapeString(const std::string &value)
+	{
+		std::string unescaped;
+
+		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+		{
+			const char &c = (*it);
+			char c2 = '\0';
+			if (it+1 != value.end())
+				c2 = *(it+1);
+
+			const char &a = getUnescaped(c, c2);
+			if (a != '\0')
+			{
+				unescaped += a;
+				if (it+1 != value.end())
+					++it;
+			}
+			else
+			{
+				unescaped += c;
+			}
+		}
+
+		return unescaped;
+	}
+
+
+	Object::Object()
+	{
+	}
+	Object::Object(const Object &other)
+	{
+		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			Node &value = *(*it).second;
+
+			children.push_back(std::make_pair(name, value.GetCopy()));
+		}
+	}
+	Object::Object(const Node &other)
+	{
+		const Object &object = other.AsObject();
+
+		for (ChildList::const_iterator it = object.children.begin(); it != object.children.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			Node &value = *(*it).second;
+
+			children.push_back(std::make_pair(name, value.GetCopy()));
+		}
+	}
+	Object::~Object()
+	{
+		Clear();
+	}
+
+	Node::Type Object::GetType() const
+	{
+		return T_OBJECT;
+	}
+
+	void Object::Add(const std::string &name, Node &node)
+	{
+		children.push_back(std::make_pair(name, node.GetCopy()));
+	}
+	void Object::Add(const std::string &name, Value node)
+	{
+		children.push_back(std::make_pair(name, new Value(node)));
+	}
+	void Object::Remove(const std::string &name)
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				delete (*it).second;
+				children.erase(it);
+				break;
+			}
+		}
+	}
+	void Object::Clear()
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			delete (*it).second;
+			(*it).second = NULL;
+		}
+		children.clear();
+	}
+
+	Object::iterator Object::begin()
+	{
+		if (!children.empty())
+			return Object::iterator(&children.front());
+		else
+			return Object::iterator(NULL);
+	}
+	Object::const_iterator Object::begin() const
+	{
+		if (!children.empty())
+			return Object::const_iterator(&children.front());
+		else
+			return Object::const_iterator(NULL);
+	}
+	Object::iterator Object::end()
+	{
+		if (!children.empty())
+			return Object::iterator(&children.back()+1);
+		else
+			return Object::iterator(NULL);
+	}
+	Object::const_iterator Object::end() const
+	{
+		if (!children.empty())
+			return Object::const_iterator(&children.back()+1);
+		else
+			return Object::const_iterator(NULL);
+	}
+
+	bool Object::Has(const std::string &name) const
+	{
+		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				return true;
+			}
+		}
+		return false;
+	}
+	size_t Object::GetCount() const
+	{
+		return children.size();
+	}
+	Node &Object::Get(const std::string &name) const
+	{
+		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				return *(*it).second;
+			}
+		}
+		
+		throw NotFoundException();
+	}
+
+	Node *Object::GetCopy() const
+	{
+		return new Object(*this);
+	}
+
+
+	Array::Array()
+	{
+	}
+	Array::Array(const Array &other)
+	{
+		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
+		{
+			const Node &value = *(*it);
+
+			children.push_back(value.GetCopy());
+		}
+	}
+	Array::Array(const Node &other)
+	{
+		const Array &array = other.AsArray();
+
+		for (ChildList::const_iterator it = array.children.begin(); it != array.children.end(); ++it)
+		{
+			const Node &value = *(*it);
+
+			children.push_back(value.GetCopy());
+		}
+	}
+	Array::~Array()
+	{
+		Clear();
+	}
+
+	Node::Type Array::GetType() const
+	{
+		return T_ARRAY;
+	}
+
+	void Array::Add(Node &node)
+	{
+		children.push_back(node.GetCopy());
+	}
+	void Array::Add(Value node)
+	{
+		children.push_back(new Value(node));
+	}
+	void Array::Remove(size_t index)
+	{
+		if (index < children.size())
+		{
+			ChildList::iterator it = children.begin()+index;
+			delete (*it);
+			children.erase(it);
+		}
+	}
+	void Array::Clear()
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			delete (*it);
+			(*it) = NULL;
+		}
+		children.clear();
+	}
+
+	Array::iterator Array::begin()
+	{
+		if (!children.empty())
+			return Array::iterator(&children.front());
+		else
+			return Array::iterator(NULL);
+	}
+	Array::const_iterator Array::begin() const
+	{
+		if (!children.empty())
+			return Array::const_iterator(&children.front());
+		else
+			return Array::const_iterator(NULL);
+	}
+	Array::iterator Array::end()
+	{
+		if (!children.empty())
+			return Array::iterator(&children.back()+1);
+		else
+			return Array::iterator(NULL);
+	}
+	Array::const_iterator Array::end() const
+	{
+		if (!children.empty())
+			return Array::const_iterator(&children.back()+1);
+		else
+			return Array::const_iterator(NULL);
+	}
+
+	size_t Array::GetCount() const
+	{
+		return children.size();
+	}
+	Node &Array::Get(size_t index) const
+	{
+		if (index < children.size())
+		{
+			return *children.at(index);
+		}
+
+		throw NotFoundException();
+	}
+
+	Node *Array::GetCopy() const
+	{
+		return new Array(*this);
+	}
+
+
+	FileWriter::FileWriter(const std::string &filename) : filename(filename)
+	{
+	}
+	FileWriter::~FileWriter()
+	{
+	}
+
+	void FileWriter::WriteFile(const std::string &filename, const Node &root, const Format &format)
+	{
+		FileWriter writer(filename);
+		writer.Write(root, format);
+	}
+
+	void FileWriter::Write(const Node &root, const Format &format)
+	{
+		Writer writer(root, format);
+		writer.Write();
+
+		std::fstream file(filename.c_str(), std::ios::out | std::ios::trunc);
+		file << writer.GetResult();
+		file.close();
+	}
+
+
+	FileReader::FileReader(const std::string &filename)
+	{
+		if (!loadFile(filename, json))
+		{
+			error = "Failed to load file";
+		}
+	}
+	FileReader::~FileReader()
+	{
+	}
+
+	bool FileReader::ReadFile(const std::string &filename, Node &node)
+	{
+		FileReader reader(filename);
+		return reader.Read(node);
+	}
+
+	bool FileReader::Read(Node &node)
+	{
+		if (!error.empty())
+			return false;
+
+		Parser parser(node, json);
+		if (!parser.Parse())
+		{
+			error = parser.GetError();
+			return false;
+		}
+		else
+		{
+			return true;
+		}
+	}
+
+	Node::Type FileReader::DetermineType()
+	{
+		return Node::DetermineType(json);
+	}
+
+	const std::string &FileReader::GetError() const
+	{
+		return error;
+	}
+
+	bool FileReader::loadFile(const std::string &filename, std::string &json)
+	{
+		std::fstream file(filename.c_str(), std::ios::in | std::ios::binary);
+
+		if (!file.is_open())
+		{
+			return false;
+		}
+
+		file.seekg(0, std::ios::end);
+		std::ios::pos_type size = file.tellg();
+		file.seekg(0, std::ios::beg);
+
+		json.resize(static_cast<std::string::size_type>(size), '\0');
+		file.read(&json[0], size);
+
+		return true;
+	}
+
+
+	Writer::Writer(const Node &root, const Format &format) : fi(new FormatInterpreter), root(root)
+	{
+		SetFormat(format);
+	}
+	Writer::~Writer()
+	{
+		delete fi;
+		fi = NULL;
+	}
+
+	void Writer::SetFormat(const Format &format)
+	{
+		fi->SetFormat(format);
+	}
+	void Writer::Write()
+	{
+		result.clear();
+		writeNode(root, 0);
+	}
+
+	const std::string &Writer::GetResult() const
+	{
+		return result;
+	}
+
+	void Writer::writeNode(const Node &node, unsigned int level)
+	{
+		switch (node.GetType())
+		{
+		case Node::T_OBJECT : writeObject(node.AsObject(), level); break;
+		case Node::T_ARRAY  : writeArray(node.AsArray(), level);   break;
+		case Node::T_VALUE  : writeValue(node.AsValue());          break;
+		}
+	}
+	void Writer::writeObject(const Object &node, unsigned int level)
+	{
+		result += "{" + fi->GetNewline();
+
+		for (Object::const_iterator it = node.begin(); it != node.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			const Node &value = (*it).second;
+
+			if (it != node.begin())
+				result += "," + fi->GetNewline();
+			result += fi->GetIndentation(level+1) + "\""+name+"\"" + ":" + fi->GetSpacing();
+			writeNode(value, level+1);
+		}
+
+		result += fi->GetNewline() + fi->GetIndentation(level) + "}";
+	}
+	void Writer::writeArray(const Array &node, unsigned int level)
+	{
+		result += "[" + fi->GetNewline();
+
+		for (Array::const_iterator it = node.begin(); it != node.end(); ++it)
+		{
+			const Node &value = (*it);
+
+			if (it != node.begin())
+				result += "," + fi->GetNewline();
+			result += fi->GetIndentation(level+1);
+			writeNode(value, level+1);
+		}
+
+		result += fi->GetNewline() + fi->GetIndentation(level) + "]";
+	}
+	void Writer::writeValue(const Value &node)
+	{
+		if (node.IsString())
+		{
+			result += "\""+Value::EscapeString(node.ToString())+"\"";
+		}
+		else
+		{
+			result += node.ToString();
+		}
+	}
+
+
+	Parser::Parser(Node &root) : root(root)
+	{
+	}
+	Parser::Parser(Node &root, const std::string &json) : root(root)
+	{
+		SetJson(json);
+	}
+	Parser::~Parser()
+	{
+	}
+
+	void Parser::SetJson(const std::string &json)
+	{
+		RemoveWhitespace(json, this->json);
+	}
+	bool Parser::Parse()
+	{
+		cursor = 0;
+		tokens = std::queue<Token>();
+		data = std::queue<std::pair<Value::ValueType, std::string> >();
+		error.clear();
+
+		tokenize();
+		bool success = assemble();
+
+		return success;
+	}
+
+	const std::string &Parser::GetError() const
+	{
+		return error;
+	}
+
+	void Parser::tokenize()
+	{
+		Token token;
+		std::string valueBuffer;
+		bool saveBuffer;
+
+		for (; cursor < json.size(); ++cursor)
+		{
+			char c = json.at(cursor);
+
+			saveBuffer = true;
+
+			switch (c)
+			{
+			case '{' :
+				{
+					token = T_OBJ_BEGIN;
+					break;
+				}
+			case '}' :
+				{
+					token = T_OBJ_END;
+					break;
+				}
+			case '[' :
+				{
+					token = T_ARRAY_BEGIN;
+					break;
+				}
+			case ']' :
+				{
+					token = T_ARRAY_END;
+					break;
+				}
+			case ',' :
+				{
+					token = T_SEPARATOR_NODE;
+					break;
+				}
+			case ':' :
+				{
+					token = T_SEPARATOR_NAME;
+					break;
+				}
+			case '"' :
+				{
+					token = T_VALUE;
+					readString();
+					break;
+				}
+			default :
+				{
+					valueBuffer += c;
+					saveBuffer = false;
+					break;
+				}
+			}
+
+			if ((saveBuffer || cursor == json.size()-1) && (!valueBuffer.empty())) // Always save buffer on the last character
+			{
+				if (interpretValue(valueBuffer))
+				{
+					tokens.push(T_VALUE);
+				}
+				else
+				{
+					// Store the unknown token, so we can show it to the user
+					data.push(std::make_pair(Value::VT_STRING, valueBuffer));
+					tokens.push(T_UNKNOWN);
+				}
+
+				valueBuffer.clear();
+			}
+
+			// Push the token last so that any
+			// value token will get pushed first
+			// from above.
+			// If saveBuffer is false, it means that
+			// we are in the middle of a value, so we
+			// don't want to push any tokens now.
+			if (saveBuffer)
+			{
+				tokens.push(token);
+			}
+		}
+	}
+	bool Parser::assemble()
+	{
+		std::stack<std::pair<std::string, Node*> > nodeStack;
+
+		std::string name = "";
+
+		Token token;
+		while (!tokens.empty())
+		{
+			token = tokens.front();
+			tokens.pop();
+
+			switch (token)
+			{
+			case T_UNKNOWN :
+				{
+					const std::string &unknownToken = data.front().second;
+					error = "Unknown token: "+unknownToken;
+					data.pop();
+					return false;
+				}
+			case T_OBJ_BEGIN :
+				{
+					Node *node = NULL;
+					if (nodeStack.empty())
+					{
+						if (!root.IsObject())
+						{
+							error = "The given root node is not an object";
+							return false;
+						}
+
+						node = &root;
+					}
+					else
+					{
+						node = new Object;
+					}
+
+					nodeStack.push(std::make_pair(name, node));
+					name.clear();
+					break;
+				}
+			case T_ARRAY_BEGIN :
+				{
+					Node *node = NULL;
+					if (nodeStack.empty())
+					{
+						if (!root.IsArray())
+						{
+							error = "The given root node is not an array";
+							return false;
+						}
+
+						node = &root;
+					}
+					else
+					{
+						node = new Array;
+					}
+
+					nodeStack.push(std::make_pair(name, node));
+					name.clear();
+					break;
+				}
+			case T_OBJ_END :
+			case T_ARRAY_END :
+				{
+					if (nodeStack.empty())
+					{
+						error = "Found end of object or array without beginning";
+						return false;
+					}
+					if (token == T_OBJ_END && !nodeStack.top().second->IsObject())
+					{
+						error = "Mismatched end and beginning of object";
+						return false;
+					}
+					if (token == T_ARRAY_END && !nodeStack.top().second->IsArray())
+					{
+						error = "Mismatched end and beginning of array";
+						return false;
+					}
+
+					std::string name = nodeStack.top().first;
+					Node *node = nodeStack.top().second;
+					nodeStack.pop();
+
+					if (!nodeStack.empty())
+					{
+						if (nodeStack.top().second->IsObject())
+						{
+							nodeStack.top().second->AsObject().Add(name, *node);
+						}
+						else if (nodeStack.top().second->IsArray())
+						{
+							nodeStack.top().second->AsArray().Add(*node);
+						}
+						else
+						{
+							error = "Can only add elements to objects and arrays";
+							return false;
+						}
+
+						delete node;
+						node = NULL;
+					}
+					break;
+				}
+			case T_VALUE :
+				{
+					if (!tokens.empty() && tokens.front() == T_SEPARATOR_NAME)
+					{
+						tokens.pop();
+						if (data.front().first != Value::VT_STRING)
+						{
+							error = "A name has to be a string";
+							return false;
+						}
+						else
+						{
+							name = data.front().second;
+							data.pop();
+						}
+					}
+					else
+					{
+						Node *node = NULL;
+						if (nodeStack.empty())
+						{
+							if (!root.IsValue())
+							{
+								error = "The given root node is not a value";
+								return false;
+							}
+
+							node = &root;
+						}
+						else
+						{
+							node = new Value;
+						}
+
+						if (data.front().first == Value::VT_STRING)
+						{
+							static_cast<Value*>(node)->Set(data.front().second); // This method calls UnescapeString()
+						}
+						else
+						{
+							static_cast<Value*>(node)->Set(data.front().first, data.front().second);
+						}
+						data.pop();
+
+						if (!nodeStack.empty())
+						{
+							if (nodeStack.top().second->IsObject())
+								nodeStack.top().second->AsObject().Add(name, *node);
+							else if (nodeStack.top().second->IsArray())
+								nodeStack.top().second->AsArray().Add(*node);
+
+							delete node;
+							node = NULL;
+							name.clear();
+						}
+						else
+						{
+							nodeStack.push(std::make_pair(name, node));
+							name.clear();
+						}
+					}
+					break;
+				}
+			case T_SEPARATOR_NAME :
+			case T_SEPARATOR_NODE : break;
+			}
+		}
+
+		return true;
+	}
+
+	void Parser::readString()
+	{
+		if (json.at(cursor) != '"')
+			return;
+
+		std::string str;
+
+		++cursor;
+
+		char c1 = '\0';
+		for (; cursor < json.size(); ++cursor)
+		{
+			char c2 = json.at(cursor);
+
+			if (c1 != '\\' && c2 == '"')
+			{
+				break;
+			}
+
+			str += c2;
+
+			c1 = c2;
+		}
+
+		data.push(std::make_pair(Value::VT_STRING, str));
+	}
+
+	bool Parser::interpretValue(const std::string &value)
+	{
+		std::string upperValue(value.size(), '\0');
+
+		std::transform(value.begin(), value.end(), upperValue.begin(), toupper);
+
+		if (upperValue == "NULL")
+		{
+			data.push(std::make_pair(Value::VT_NULL, ""));
+		}
+		else if (upperValue == "TRUE")
+		{
+			data.push(std::make_pair(Value::VT_BOOL, "true"));
+		}
+		else if (upperValue == "FALSE")
+		{
+			data.push(std::make_pair(Value::VT_BOOL, "false"));
+		}
+		else
+		{
+			bool number = true;
+			for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+			{
+				if (!isNumber(*it))
+				{
+					number = false;
+					break;
+				}
+			}
+
+			if (number)
+			{
+				data.push(std::make_pair(Value::VT_NUMBER, value));
+			}
+			else
+			{
+				return false;
+			}
+		}
+
+		return true;
+	}
+
+	bool Parser::isNumber(char c) const
+	{
+		return ((c >= '0' && c <= '9') || c == '.' || c == '-');
+	}
 }
\ No newline at end of file
-- 
2.43.0


From cbba3e30a964974af0deb7ccefac8c88b0449f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:15 +0000
Subject: [PATCH 033/121] fix: free the open nodes of a malformed JSON document

---
 src/Jzon.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 1f9a883..05017ae 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1061,7 +1061,20 @@ namespace Jzon
 	}
 	bool Parser::assemble()
 	{
-		std::stack<std::pair<std::string, Node*> > nodeStack;
+		// Owns the nodes which are still open when the document turns out to be malformed
+		struct NodeStack : public std::stack<std::pair<std::string, Node*> >
+		{
+			NodeStack(Node *root) : root(root) {}
+			~NodeStack()
+			{
+				for (; !empty(); pop())
+				{
+					if (top().second != root)
+						delete top().second;
+				}
+			}
+			Node *root;
+		} nodeStack(&root);
 
 		std::string name = "";
 
-- 
2.43.0


From 40ac53ac4c60a538255bfd2b1961393cc3bf3eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:15 +0000
Subject: [PATCH 034/121] fix: reject truncated JSON documents and content
 after their end

---
 src/Jzon.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 05017ae..085f83b 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1077,6 +1077,7 @@ namespace Jzon
 		} nodeStack(&root);
 
 		std::string name = "";
+		bool complete = false;
 
 		Token token;
 		while (!tokens.empty())
@@ -1084,6 +1085,12 @@ namespace Jzon
 			token = tokens.front();
 			tokens.pop();
 
+			if (complete)
+			{
+				error = "Found content after the end of the document";
+				return false;
+			}
+
 			switch (token)
 			{
 			case T_UNKNOWN :
@@ -1179,6 +1186,10 @@ namespace Jzon
 						delete node;
 						node = NULL;
 					}
+					else
+					{
+						complete = true;
+					}
 					break;
 				}
 			case T_VALUE :
@@ -1238,8 +1249,8 @@ namespace Jzon
 						}
 						else
 						{
-							nodeStack.push(std::make_pair(name, node));
 							name.clear();
+							complete = true;
 						}
 					}
 					break;
@@ -1249,6 +1260,12 @@ namespace Jzon
 			}
 		}
 
+		if (!complete)
+		{
+			error = "Unexpected end of the document";
+			return false;
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From f972ad87f6d7dc66058672f338f591eedd15dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 035/121] fix: find the end of JSON strings which end with an
 escaped backslash

---
 src/Jzon.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 085f83b..3c88198 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -83,21 +83,20 @@ namespace Jzon
 		bool comment = false;
 		int multicomment = 0;
 		bool inString = false;
+		bool escaped = false;
 
 		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
 		{
-			char c0 = '\0';
 			char c1 = (*it);
 			char c2 = '\0';
-			if (it != json.begin())
-				c0 = (*(it-1));
 			if (it+1 != json.end())
 				c2 = (*(it+1));
 
-			if (c0 != '\\' && c1 == '"')
+			if (!escaped && c1 == '"')
 			{
 				inString = !inString;
 			}
+			escaped = (!escaped && c1 == '\\');
 
 			if (!inString)
 			{
@@ -1278,19 +1277,19 @@ namespace Jzon
 
 		++cursor;
 
-		char c1 = '\0';
+		bool escaped = false;
 		for (; cursor < json.size(); ++cursor)
 		{
-			char c2 = json.at(cursor);
+			char c = json.at(cursor);
 
-			if (c1 != '\\' && c2 == '"')
+			if (!escaped && c == '"')
 			{
 				break;
 			}
 
-			str += c2;
+			str += c;
 
-			c1 = c2;
+			escaped = (!escaped && c == '\\');
 		}
 
 		data.push(std::make_pair(Value::VT_STRING, str));
-- 
2.43.0


From 9063d0a17cd70704aeaebbd1669c86c7fd35950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 036/121] fix: read the JSON numbers which have an exponent

---
 src/Jzon.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 3c88198..559642e 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -25,6 +25,8 @@ THE SOFTWARE.
 #include <fstream>
 #include <stack>
 #include <algorithm>
+#include <cstdlib>
+#include <limits>
 
 namespace Jzon
 {
@@ -280,10 +282,12 @@ namespace Jzon
 		{
 			if (IsNumber())
 			{
-				std::stringstream sstr(valueStr);
-				int val;
-				sstr >> val;
-				return val;
+				double val = ToDouble();
+				if (val >= std::numeric_limits<int>::max())
+					return std::numeric_limits<int>::max();
+				if (val <= std::numeric_limits<int>::min())
+					return std::numeric_limits<int>::min();
+				return static_cast<int>(val);
 			}
 			else
 				throw ValueException();
@@ -1315,16 +1319,23 @@ namespace Jzon
 		}
 		else
 		{
-			bool number = true;
+			bool number = isNumber(value[0]);
 			for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
 			{
-				if (!isNumber(*it))
+				if (!isNumber(*it) && *it != 'e' && *it != 'E' && *it != '+')
 				{
 					number = false;
 					break;
 				}
 			}
 
+			if (number)
+			{
+				char *end = NULL;
+				std::strtod(value.c_str(), &end);
+				number = (*end == '\0');
+			}
+
 			if (number)
 			{
 				data.push(std::make_pair(Value::VT_NUMBER, value));
-- 
2.43.0


From 6322abdf104d03c380b2fffa861a7b69f3310eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 037/121] fix: read and write the \u escape sequences of JSON
 strings

---
 src/Jzon.cpp | 70 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 559642e..73ad5f6 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -488,6 +488,56 @@ namespace Jzon
 		return nullUnescaped;
 	}
 
+	// Reads the four hexadecimal digits of an escape sequence (\uXXXX) that begins at pos
+	static bool readCodeUnit(const std::string &value, size_t pos, unsigned int &unit)
+	{
+		if (pos + 6 > value.size() || value[pos] != '\\' || value[pos+1] != 'u')
+			return false;
+
+		unit = 0;
+		for (size_t i = pos + 2; i < pos + 6; ++i)
+		{
+			char c = value[i];
+			unsigned int digit;
+			if (c >= '0' && c <= '9')
+				digit = c - '0';
+			else if (c >= 'a' && c <= 'f')
+				digit = c - 'a' + 10;
+			else if (c >= 'A' && c <= 'F')
+				digit = c - 'A' + 10;
+			else
+				return false;
+			unit = unit*16 + digit;
+		}
+
+		return true;
+	}
+	static void appendUtf8(std::string &str, unsigned int code)
+	{
+		if (code < 0x80)
+		{
+			str += static_cast<char>(code);
+		}
+		else if (code < 0x800)
+		{
+			str += static_cast<char>(0xC0 | (code >> 6));
+			str += static_cast<char>(0x80 | (code & 0x3F));
+		}
+		else if (code < 0x10000)
+		{
+			str += static_cast<char>(0xE0 | (code >> 12));
+			str += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+			str += static_cast<char>(0x80 | (code & 0x3F));
+		}
+		else
+		{
+			str += static_cast<char>(0xF0 | (code >> 18));
+			str += static_cast<char>(0x80 | ((code >> 12) & 0x3F));
+			str += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+			str += static_cast<char>(0x80 | (code & 0x3F));
+		}
+	}
+
 	std::string Value::EscapeString(const std::string &value)
 	{
 		std::string escaped;
@@ -502,6 +552,13 @@ namespace Jzon
 				escaped += a[0];
 				escaped += a[1];
 			}
+			else if (static_cast<unsigned char>(c) < 0x20)
+			{
+				static const char digits[] = "0123456789abcdef";
+				escaped += "\\u00";
+				escaped += digits[c >> 4];
+				escaped += digits[c & 0xF];
+			}
 			else
 			{
 				escaped += c;
@@ -522,12 +579,25 @@ namespace Jzon
 				c2 = *(it+1);
 
 			const char &a = getUnescaped(c, c2);
+			unsigned int code;
 			if (a != '\0')
 			{
 				unescaped += a;
 				if (it+1 != value.end())
 					++it;
 			}
+			else if (readCodeUnit(value, it - value.begin(), code))
+			{
+				unsigned int low;
+				it += 5;
+				if (code >= 0xD800 && code < 0xDC00
+					&& readCodeUnit(value, it + 1 - value.begin(), low) && low >= 0xDC00 && low < 0xE000)
+				{
+					code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+					it += 6;
+				}
+				appendUtf8(unescaped, code);
+			}
 			else
 			{
 				unescaped += c;
-- 
2.43.0


From 3857b293f6bd1e24c1144253ed309bd325e46b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 038/121] fix: keep the backslashes of the strings that are set
 in JSON values

---
 src/Jzon.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 73ad5f6..cf79226 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -358,12 +358,12 @@ namespace Jzon
 	}
 	void Value::Set(const std::string &value)
 	{
-		valueStr = UnescapeString(value);
+		valueStr = value;
 		type     = VT_STRING;
 	}
 	void Value::Set(const char *value)
 	{
-		valueStr = UnescapeString(std::string(value));
+		valueStr = value;
 		type     = VT_STRING;
 	}
 	void Value::Set(const int value)
@@ -1301,7 +1301,7 @@ namespace Jzon
 
 						if (data.front().first == Value::VT_STRING)
 						{
-							static_cast<Value*>(node)->Set(data.front().second); // This method calls UnescapeString()
+							static_cast<Value*>(node)->Set(Value::UnescapeString(data.front().second));
 						}
 						else
 						{
-- 
2.43.0


From 30a040fe2c18d37f21554aa9866b329288b87bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 039/121] fix: escape the names of the members of JSON objects

---
 src/Jzon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index cf79226..09cdce3 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -978,7 +978,7 @@ namespace Jzon
 
 			if (it != node.begin())
 				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1) + "\""+name+"\"" + ":" + fi->GetSpacing();
+			result += fi->GetIndentation(level+1) + "\""+Value::EscapeString(name)+"\"" + ":" + fi->GetSpacing();
 			writeNode(value, level+1);
 		}
 
@@ -1277,7 +1277,7 @@ namespace Jzon
 						}
 						else
 						{
-							name = data.front().second;
+							name = Value::UnescapeString(data.front().second);
 							data.pop();
 						}
 					}
-- 
2.43.0


From 7f02a31edaf00032f64734c498273f87f8e951a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 040/121] fix: reject JSON names outside of objects

---
 src/Jzon.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 09cdce3..f096e7a 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1270,7 +1270,12 @@ namespace Jzon
 					if (!tokens.empty() && tokens.front() == T_SEPARATOR_NAME)
 					{
 						tokens.pop();
-						if (data.front().first != Value::VT_STRING)
+						if (nodeStack.empty() || !nodeStack.top().second->IsObject())
+						{
+							error = "Found a name outside of an object";
+							return false;
+						}
+						else if (data.front().first != Value::VT_STRING)
 						{
 							error = "A name has to be a string";
 							return false;
-- 
2.43.0


From a033eebd31444fa4241c896b91abb49749d203d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 041/121] fix: connect again the ports whose other end has been
 disconnected

---
 src/Filter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index dad0ef4..df49bbc 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -295,6 +295,17 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
 
 bool BaseFilter::setWriter(int writerID)
 {
+    //Writers whose reader has gone do not hold their place
+    for (auto it = writers.begin(); it != writers.end(); ) {
+        int wId = it->first;
+        bool connected = it->second->isConnected();
+        ++it;
+        if (!connected){
+            writers[wId]->disconnect();
+            deleteWriter(wId);
+        }
+    }
+
     if (writers.size() >= maxWriters) {
         utils::warningMsg("Too many writers");
         return false;
-- 
2.43.0


From d1888919ecc33018419fc282496f3edddaee0b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 042/121] fix: free the JSON document of the events

---
 src/Event.cpp | 2 +-
 src/Event.hh  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Event.cpp b/src/Event.cpp
index 9ee2079..8cfd3e6 100644
--- a/src/Event.cpp
+++ b/src/Event.cpp
@@ -33,7 +33,7 @@ bool Event::operator<(const Event& e) const
 
 Event::Event(Jzon::Object rootNode, std::chrono::system_clock::time_point timestamp, int delay) 
 {
-    inputRootNode = new Jzon::Object(rootNode);
+    inputRootNode = std::make_shared<Jzon::Object>(rootNode);
     this->timestamp = timestamp;
     this->delay = std::chrono::milliseconds(delay);
 }
diff --git a/src/Event.hh b/src/Event.hh
index 3452df9..6d7ce3d 100644
--- a/src/Event.hh
+++ b/src/Event.hh
@@ -26,6 +26,7 @@
 
 #include <string>
 #include <chrono>
+#include <memory>
 #include "Jzon.h"
 
 class Event {
@@ -39,7 +40,7 @@ public:
     bool operator<(const Event& e) const;
 
 private:
-    Jzon::Object* inputRootNode;
+    std::shared_ptr<Jzon::Object> inputRootNode;
     std::chrono::system_clock::time_point timestamp;
     std::chrono::milliseconds delay;
 
-- 
2.43.0


From af282fafbb0f6b2d344cccfd1756632257d260be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 043/121] fix: survive the filter events whose parameters have
 the wrong type

---
 src/Filter.cpp | 75 ++++++++++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 33 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index df49bbc..b7805c5 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -464,20 +464,23 @@ void BaseFilter::processEvent()
     while(newEvent()) {
 
         Event e = eventQueue.top();
-        action = e.getAction();
-        params = e.getParams();
+        eventQueue.pop();
 
-        if (action.empty() || eventMap.count(action) <= 0) {
-            utils::errorMsg("Wrong action name while processing event in filter");
-            eventQueue.pop();
-            continue;
-        }
+        try {
+            action = e.getAction();
+            params = e.getParams();
 
-        if (!eventMap[action](params)) {
-            utils::errorMsg("Error executing filter event");
+            if (action.empty() || eventMap.count(action) <= 0) {
+                utils::errorMsg("Wrong action name while processing event in filter");
+                continue;
+            }
+
+            if (!eventMap[action](params)) {
+                utils::errorMsg("Error executing filter event");
+            }
+        } catch (std::exception &ex) {
+            utils::errorMsg(std::string("Wrong parameters in filter event: ") + ex.what());
         }
-        
-        eventQueue.pop();
     }
 }
 
@@ -859,20 +862,23 @@ bool HeadFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
 void HeadFilter::pushEvent(Event e)
 {
     std::lock_guard<std::recursive_mutex> processGuard(processMtx);
-    std::string action = e.getAction();
-    Jzon::Node* params = e.getParams();
-    Jzon::Object outputNode;
+    try {
+        std::string action = e.getAction();
+        Jzon::Node* params = e.getParams();
 
-    if (action.empty()) {
-        return;
-    }
+        if (action.empty()) {
+            return;
+        }
 
-    if (eventMap.count(action) <= 0) {
-        return;
-    }
+        if (eventMap.count(action) <= 0) {
+            return;
+        }
 
-    if (!eventMap[action](params)) {
-        utils::errorMsg("Error executing filter event");
+        if (!eventMap[action](params)) {
+            utils::errorMsg("Error executing filter event");
+        }
+    } catch (std::exception &ex) {
+        utils::errorMsg(std::string("Wrong parameters in filter event: ") + ex.what());
     }
 }
 
@@ -894,20 +900,23 @@ bool TailFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
 void TailFilter::pushEvent(Event e)
 {
     std::lock_guard<std::recursive_mutex> processGuard(processMtx);
-    std::string action = e.getAction();
-    Jzon::Node* params = e.getParams();
-    Jzon::Object outputNode;
+    try {
+        std::string action = e.getAction();
+        Jzon::Node* params = e.getParams();
 
-    if (action.empty()) {
-        return;
-    }
+        if (action.empty()) {
+            return;
+        }
 
-    if (eventMap.count(action) <= 0) {
-        return;
-    }
+        if (eventMap.count(action) <= 0) {
+            return;
+        }
 
-    if (!eventMap[action](params)) {
-        utils::errorMsg("Error executing filter event");
+        if (!eventMap[action](params)) {
+            utils::errorMsg("Error executing filter event");
+        }
+    } catch (std::exception &ex) {
+        utils::errorMsg(std::string("Wrong parameters in filter event: ") + ex.what());
     }
 }
 
-- 
2.43.0


From e013bf9219dff3f94fc127d0ffbdf0b8257ac76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 044/121] fix: do not use deleted paths while stopping the
 pipeline

---
 src/PipelineManager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index d31b288..155facb 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -79,14 +79,14 @@ bool PipelineManager::stop()
     pool->stop();
     utils::infoMsg("All threads stopped");
     
-    for (auto it : paths) {
-        if (!deletePath(it.first)) {
-            utils::errorMsg("Failed deleting path " + std::to_string(it.first));
+    while (!paths.empty()) {
+        int id = paths.begin()->first;
+        if (!removePath(id)) {
+            utils::errorMsg("Failed deleting path " + std::to_string(id));
             return false;
         }
     }
 
-    paths.clear();
     utils::infoMsg("Paths deleted");
 
     for (auto it : filters) {
-- 
2.43.0


From 4323f2544d431e626b07cacb8915fce36cec4fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 045/121] fix: report the filters that could not be added to
 the pipeline

---
 src/PipelineManager.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 155facb..9ae2aaa 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -173,8 +173,10 @@ bool PipelineManager::createFilter(int id, FilterType type)
     }
     
     if (filter){
-        addFilter(id, filter);
-        return true;
+        if (addFilter(id, filter)) {
+            return true;
+        }
+        delete filter;
     }
 
     return false;
@@ -206,7 +208,12 @@ bool PipelineManager::addFilter(int id, BaseFilter* filter)
         pool = new WorkersPool(threads);
     }
     
-    return pool->addTask(filter);
+    if (!pool->addTask(filter)) {
+        filters.erase(id);
+        return false;
+    }
+
+    return true;
 }
 
 BaseFilter* PipelineManager::getFilter(int id)
-- 
2.43.0


From 52075a5cf9fe84c905dad70fe594a2e8122e33cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 046/121] fix: undo the connections of the paths that cannot be
 connected

---
 src/Path.cpp            |  1 +
 src/Path.hh             | 12 ++++++++++++
 src/PipelineManager.cpp | 31 +++++++++++++++++++++++++++++--
 src/PipelineManager.hh  |  1 +
 4 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/Path.cpp b/src/Path.cpp
index 1b13316..8248d20 100644
--- a/src/Path.cpp
+++ b/src/Path.cpp
@@ -34,6 +34,7 @@ Path::Path(int originFilterID, int destinationFilterID, int orgWriterID,
     this->dstReaderID = dstReaderID;
 
     filterIDs = midFiltersIDs;
+    connected = false;
 }
 
 void Path::addFilterID(int filterID)
diff --git a/src/Path.hh b/src/Path.hh
index a7f4777..4fe200f 100644
--- a/src/Path.hh
+++ b/src/Path.hh
@@ -85,6 +85,17 @@ public:
     */
     bool hasFilter(int fId);
 
+    /**
+    * Gets whether the filters of the path are connected
+    * @return true if they are, false otherwise
+    */
+    bool isConnected() const {return connected;};
+
+    /**
+    * Sets whether the filters of the path are connected
+    */
+    void setConnected(bool connected_) {connected = connected_;};
+
 protected:
     void addFilterID(int filterID);
 
@@ -94,6 +105,7 @@ private:
     int orgWriterID;
     int dstReaderID;
     std::vector<int> filterIDs;
+    bool connected;
 };
 
 
diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 9ae2aaa..56c97ca 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -313,6 +313,7 @@ bool PipelineManager::connectPath(int id)
     if (pathFilters.empty()) {
         if (filters[orgFilterId]->connectManyToMany(filters[dstFilterId], path->getDstReaderID(), path->getOrgWriterID()) ||
             handleGrouping(orgFilterId, dstFilterId, path->getOrgWriterID(), path->getDstReaderID())) {
+            path->setConnected(true);
             return true;
         } else {
             utils::errorMsg("Connecting head to tail!");
@@ -329,18 +330,28 @@ bool PipelineManager::connectPath(int id)
     for (unsigned i = 0; i < pathFilters.size() - 1; i++) {
         if (!filters[pathFilters[i]]->connectOneToOne(filters[pathFilters[i+1]])) {
             utils::errorMsg("Connecting path filters!");
+            disconnectMidFilters(pathFilters, i + 1);
             return false;
         }
     }
 
     if (!filters[pathFilters.back()]->connectOneToMany(filters[dstFilterId], path->getDstReaderID())) {
         utils::errorMsg("Connecting path last filter to path tail!");
+        disconnectMidFilters(pathFilters, pathFilters.size());
         return false;
     }
 
+    path->setConnected(true);
     return true;
 }
 
+void PipelineManager::disconnectMidFilters(std::vector<int> midFilters, size_t count)
+{
+    while (count-- > 0) {
+        filters[midFilters[count]]->disconnectReader(DEFAULT_ID);
+    }
+}
+
 bool PipelineManager::handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId)
 {
     ConnectionData cData;
@@ -443,14 +454,28 @@ bool PipelineManager::deletePath(int id)
         }
     }
 
-    if(!filters[dstFilterId]->disconnectReader(path->getDstReaderID())) {
+    //The readers of a path which is not connected may belong to other paths
+    if(path->isConnected() && !filters[dstFilterId]->disconnectReader(path->getDstReaderID())) {
         utils::errorMsg("Error disconnecting path tail!");
         return false;
     }
     
     std::vector<int>::reverse_iterator rit = pathFilters.rbegin();
     for (; rit!= pathFilters.rend(); ++rit){
-        filters[*rit]->disconnectReader(DEFAULT_ID);
+        if (path->isConnected()){
+            filters[*rit]->disconnectReader(DEFAULT_ID);
+        }
+
+        bool deleteMid = true;
+        for (auto it : paths){
+            if (it.first != id && it.second->hasFilter(*rit)){
+                deleteMid = false;
+            }
+        }
+        if (!deleteMid){
+            continue;
+        }
+
         pool->removeTask(*rit);
         delete filters[*rit];
         filters.erase(*rit);
@@ -615,6 +640,8 @@ void PipelineManager::createPathEvent(Jzon::Node* params, Jzon::Object &outputNo
 
     if (!connectPath(id)) {
         outputNode.Add("error", "Error connecting path. Better pray Jesus...");
+        delete paths[id];
+        paths.erase(id);
         return;
     }
 
diff --git a/src/PipelineManager.hh b/src/PipelineManager.hh
index 5276943..2259a6c 100644
--- a/src/PipelineManager.hh
+++ b/src/PipelineManager.hh
@@ -189,6 +189,7 @@ private:
     bool createFilter(int id, FilterType type);
     
     bool handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId);
+    void disconnectMidFilters(std::vector<int> midFilters, size_t count);
     bool validCData(ConnectionData cData, int orgFId, int dstFId);
 
     static PipelineManager* pipeMngrInstance;
-- 
2.43.0


From 0af75bccf773f0058490e701b3608290514d3939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 047/121] fix: answer the internal events whose parameters have
 the wrong type

---
 src/PipelineManager.cpp | 9 +++++++++
 src/PipelineManager.hh  | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 56c97ca..0f4f595 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -707,6 +707,15 @@ void PipelineManager::stopEvent(Jzon::Node* params, Jzon::Object &outputNode)
 }
 
 void PipelineManager::processEvent(Jzon::Object event, Jzon::Object &outputNode)
+{
+    try {
+        dispatchEvent(event, outputNode);
+    } catch (std::exception &ex) {
+        outputNode.Add("error", std::string("Error processing event. Invalid parameters: ") + ex.what());
+    }
+}
+
+void PipelineManager::dispatchEvent(Jzon::Object &event, Jzon::Object &outputNode)
 {
     int filterId;
     int delay = -1;
diff --git a/src/PipelineManager.hh b/src/PipelineManager.hh
index 2259a6c..46bd3f3 100644
--- a/src/PipelineManager.hh
+++ b/src/PipelineManager.hh
@@ -186,6 +186,7 @@ private:
     PipelineManager(unsigned threads = 0);
     ~PipelineManager();
     bool deletePath(int id);
+    void dispatchEvent(Jzon::Object &event, Jzon::Object &outputNode);
     bool createFilter(int id, FilterType type);
     
     bool handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId);
-- 
2.43.0


From d6ca7358c5150e6905c3c518329a2f56f844f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:10 +0000
Subject: [PATCH 048/121] fix: send events to filters while others are added or
 removed

---
 src/PipelineManager.cpp | 73 ++++++++++++++++++++++++++---------------
 src/PipelineManager.hh  |  9 +++++
 2 files changed, 56 insertions(+), 26 deletions(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 0f4f595..1d177cd 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -89,11 +89,10 @@ bool PipelineManager::stop()
 
     utils::infoMsg("Paths deleted");
 
-    for (auto it : filters) {
-        delete it.second;
+    while (!filters.empty()) {
+        deleteFilter(filters.begin()->first);
     }
 
-    filters.clear();
     utils::infoMsg("Filters deleted");
     
     if (pool){
@@ -201,21 +200,43 @@ bool PipelineManager::addFilter(int id, BaseFilter* filter)
         return false;
     }
     
-    filters[id] = filter;
-
     if (!pool){
         utils::warningMsg("Creating new thread pool!");
         pool = new WorkersPool(threads);
     }
     
+    {
+        std::lock_guard<std::mutex> guard(filtersMtx);
+        filters[id] = filter;
+    }
+
     if (!pool->addTask(filter)) {
-        filters.erase(id);
+        eraseFilter(id);
         return false;
     }
 
     return true;
 }
 
+void PipelineManager::eraseFilter(int id)
+{
+    std::unique_lock<std::mutex> guard(filtersMtx);
+    filters.erase(id);
+    //Other filters may be sending it an event
+    while (eventsInProgress.count(id) > 0) {
+        eventsDone.wait(guard);
+    }
+}
+
+void PipelineManager::deleteFilter(int id)
+{
+    BaseFilter* filter = filters[id];
+
+    eraseFilter(id);
+    pool->removeTask(id);
+    delete filter;
+}
+
 BaseFilter* PipelineManager::getFilter(int id)
 {
     if (filters.count(id) <= 0) {
@@ -408,11 +429,7 @@ bool PipelineManager::removePath(int id)
 
 bool PipelineManager::removeFilter(int id)
 {
-    BaseFilter* filter;
-    
-    filter = getFilter(id);
-
-    if (!filter) {
+    if (!getFilter(id)) {
         return false;
     }
 
@@ -424,9 +441,7 @@ bool PipelineManager::removeFilter(int id)
         }
     }
     
-    pool->removeTask(id);
-    filters.erase(id);
-    delete filter;
+    deleteFilter(id);
 
     return true;
 }
@@ -476,9 +491,7 @@ bool PipelineManager::deletePath(int id)
             continue;
         }
 
-        pool->removeTask(*rit);
-        delete filters[*rit];
-        filters.erase(*rit);
+        deleteFilter(*rit);
     }
     
     bool deleteOrig = true;
@@ -497,15 +510,11 @@ bool PipelineManager::deletePath(int id)
     }
     
     if (deleteDst){
-        pool->removeTask(dstFilterId);
-        delete filters[dstFilterId];
-        filters.erase(dstFilterId);
+        deleteFilter(dstFilterId);
     }
     
     if (deleteOrig){
-        pool->removeTask(orgFilterId);
-        delete filters[orgFilterId];
-        filters.erase(orgFilterId);
+        deleteFilter(orgFilterId);
     }
 
     delete path;
@@ -763,10 +772,22 @@ void PipelineManager::dispatchEvent(Jzon::Object &event, Jzon::Object &outputNod
 
 bool PipelineManager::processFilterEvent(Event event, int filterId)
 {
-    if (filters.count(filterId) <= 0){
-        return false;
+    BaseFilter* filter;
+
+    {
+        std::lock_guard<std::mutex> guard(filtersMtx);
+        if (filters.count(filterId) <= 0){
+            return false;
+        }
+        filter = filters[filterId];
+        eventsInProgress.insert(filterId);
     }
 
-    filters[filterId]->pushEvent(event);
+    //The filter may be processing, so that it is not locked while waiting for it
+    filter->pushEvent(event);
+
+    std::lock_guard<std::mutex> guard(filtersMtx);
+    eventsInProgress.erase(eventsInProgress.find(filterId));
+    eventsDone.notify_all();
     return true;
 }
diff --git a/src/PipelineManager.hh b/src/PipelineManager.hh
index 46bd3f3..2c27fd0 100644
--- a/src/PipelineManager.hh
+++ b/src/PipelineManager.hh
@@ -30,6 +30,9 @@
 #include "WorkersPool.hh"
 
 #include <map>
+#include <set>
+#include <mutex>
+#include <condition_variable>
 
 /*! PipelineManager class is a singleton class that presents the relation
     between the data flow, control and execution layers. It has all related
@@ -186,6 +189,8 @@ private:
     PipelineManager(unsigned threads = 0);
     ~PipelineManager();
     bool deletePath(int id);
+    void eraseFilter(int id);
+    void deleteFilter(int id);
     void dispatchEvent(Jzon::Object &event, Jzon::Object &outputNode);
     bool createFilter(int id, FilterType type);
     
@@ -198,6 +203,10 @@ private:
 
     std::map<int, Path*> paths;
     std::map<int, BaseFilter*> filters;
+    //Filters send events from the threads of the pool
+    std::mutex filtersMtx;
+    std::condition_variable eventsDone;
+    std::multiset<int> eventsInProgress;
     WorkersPool *pool;
 };
 
-- 
2.43.0


From 61033271df8867c828e76d483905676898a76e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:36 +0000
Subject: [PATCH 049/121] fix: answer the events that are not JSON objects

---
 src/Controller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 0480566..d08af60 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -172,6 +172,10 @@ void Controller::processRequest()
     const Jzon::Array &events = inputRootNode->Get("events").AsArray();
 
     for (Jzon::Array::const_iterator it = events.begin(); it != events.end(); ++it) {
+        if (!(*it).IsObject()) {
+            outputNode.Add("error", "Invalid JSON, events must be objects");
+            continue;
+        }
         pipeMngrInstance->processEvent(*it, outputNode);
     }
 
-- 
2.43.0


From e87acda8b02507cd1c4844bbd9c3ede7836f7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:36 +0000
Subject: [PATCH 050/121] fix: create a new controller after destroying the
 previous one

---
 src/Controller.cpp | 9 ++++++++-
 src/Controller.hh  | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index d08af60..c003915 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -37,12 +37,20 @@ PipelineManager* PipelineManager::pipeMngrInstance = NULL;
 Controller::Controller()
 {
     ctrlInstance = this;
+    listeningSocket = -1;
+    connectionSocket = -1;
     pipeMngrInstance = PipelineManager::getInstance();
     inputRootNode = new Jzon::Object();
     parser = new Jzon::Parser(*inputRootNode);
     runFlag = true;
 }
 
+Controller::~Controller()
+{
+    delete parser;
+    delete inputRootNode;
+}
+
 Controller* Controller::getInstance()
 {
     if (ctrlInstance != NULL){
@@ -54,7 +62,6 @@ Controller* Controller::getInstance()
 
 void Controller::destroyInstance()
 {
-    Controller * ctrlInstance = Controller::getInstance();
     if (ctrlInstance != NULL) {
         delete ctrlInstance;
         ctrlInstance = NULL;
diff --git a/src/Controller.hh b/src/Controller.hh
index efc5e54..31f07d5 100644
--- a/src/Controller.hh
+++ b/src/Controller.hh
@@ -92,6 +92,7 @@ public:
 
 private:
     Controller();
+    ~Controller();
     bool processEvent(Jzon::Object event);
     void sendAndClose(Jzon::Object outputNode, int socket);
 
-- 
2.43.0


From 729693c2662cec052cb61bc0bd16205f8c53b8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:36 +0000
Subject: [PATCH 051/121] fix: read the requests that arrive in pieces and
 answer the malformed ones

---
 src/Controller.cpp | 39 ++++++++++++++++++++++++++++++---------
 src/Controller.hh  |  1 +
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index c003915..a7d3ba3 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -30,6 +30,7 @@
 #include <unistd.h>
 #include <stdio.h>
 #include <string.h>
+#include <errno.h>
 
 Controller* Controller::ctrlInstance = NULL;
 PipelineManager* PipelineManager::pipeMngrInstance = NULL;
@@ -135,6 +136,12 @@ bool Controller::listenSocket()
     if (connectionSocket < 0) {
         return false;
     }
+
+    //A client which stops in the middle of its request must not block the others
+    tv.tv_sec = REQUEST_TIMEOUT;
+    tv.tv_usec = 0;
+    setsockopt(connectionSocket, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
+    setsockopt(connectionSocket, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
     
     return true;
 }
@@ -150,19 +157,33 @@ bool Controller::readAndParse()
     bzero(inBuffer, MSG_BUFFER_MAX_LENGTH);
     inputRootNode->Clear();
     
-    if (read(connectionSocket, inBuffer, MSG_BUFFER_MAX_LENGTH - 1) < 0) {
-        utils::errorMsg("Reading from socket");
-        return false;
-    }
+    //A request may arrive in several pieces
+    size_t length = 0;
+    while (length < MSG_BUFFER_MAX_LENGTH - 1) {
+        ssize_t ret = recv(connectionSocket, inBuffer + length, MSG_BUFFER_MAX_LENGTH - 1 - length, 0);
 
-    parser->SetJson(inBuffer);
+        if (ret < 0 && errno == EINTR) {
+            continue;
+        }
 
-    if (!parser->Parse()) {
-        utils::errorMsg("Error parsing JSON");
-        return false;
+        if (ret <= 0) {
+            break;
+        }
+
+        length += ret;
+        inputRootNode->Clear();
+        parser->SetJson(inBuffer);
+
+        if (parser->Parse()) {
+            return true;
+        }
     }
 
-    return true;
+    utils::errorMsg("Error reading or parsing JSON");
+    Jzon::Object outputNode;
+    outputNode.Add("error", "Invalid JSON, the request could not be parsed");
+    sendAndClose(outputNode, connectionSocket);
+    return false;
 }
 
 void Controller::processRequest()
diff --git a/src/Controller.hh b/src/Controller.hh
index 31f07d5..f59c274 100644
--- a/src/Controller.hh
+++ b/src/Controller.hh
@@ -32,6 +32,7 @@
 
 #define MSG_BUFFER_MAX_LENGTH 4096*4
 #define TIMEOUT 100000 //usec
+#define REQUEST_TIMEOUT 1 //sec
 
 /*! Controller class is a singleton class defines the control protocol
     by events and through sockets
-- 
2.43.0


From 3ecf67cc229c9c0e701c793d821bb2c0fb7a3832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:36 +0000
Subject: [PATCH 052/121] fix: send the whole answer of a request and survive
 the clients which leave

---
 src/Controller.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index a7d3ba3..3580b56 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -216,10 +216,22 @@ void Controller::sendAndClose(Jzon::Object outputNode, int socket)
     writer.Write();
     std::string result = writer.GetResult();
     const char* res = result.c_str();
-    int ret = write(socket, res, result.size());
+    size_t sent = 0;
 
-    if (ret < 0) {
-        utils::errorMsg("Error writting socket");
+    while (sent < result.size()) {
+        //The client may have gone
+        ssize_t ret = send(socket, res + sent, result.size() - sent, MSG_NOSIGNAL);
+
+        if (ret < 0 && errno == EINTR) {
+            continue;
+        }
+
+        if (ret < 0) {
+            utils::errorMsg("Error writting socket");
+            break;
+        }
+
+        sent += ret;
     }
 
     if (socket >= 0){
-- 
2.43.0


From 2d09eff5408a2f3459f01d3194f68df95cf427b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:36 +0000
Subject: [PATCH 053/121] fix: close the control socket that cannot be bound

---
 src/Controller.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 3580b56..7503be9 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -89,6 +89,7 @@ bool Controller::createSocket(int port)
 
     if (setsockopt(listeningSocket, SOL_SOCKET, SO_REUSEADDR, &yes, sizeof(int)) == -1 ) {
         utils::errorMsg("Setting socket options");
+        close(listeningSocket);
         return false;
     }
 
@@ -99,6 +100,7 @@ bool Controller::createSocket(int port)
 
     if (bind(listeningSocket, (struct sockaddr *) &serv_addr, sizeof(serv_addr)) < 0) {
         utils::errorMsg("On binding");
+        close(listeningSocket);
         return false;
     }
 
-- 
2.43.0


From 47a02c831caa58dfb8888bf4b3994ab827ed76ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 054/121] fix: do not share a reader with filters which have no
 place for it

---
 src/Filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index b7805c5..c9c0d01 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -283,6 +283,11 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
+    if (shared->readers.count(sharedRId) == 0 && shared->readers.size() >= shared->maxReaders){
+        utils::errorMsg("The shared filter has too many readers!");
+        return false;
+    }
+    
     if (!shared->specificReaderConfig(sharedRId, readers[orgRId]->getQueue())){
         return false;
     }
-- 
2.43.0


From abe46e36e6a31a72b02553f6c6bc97a4ee2d9cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 055/121] fix: disconnect the middle filters which have several
 readers

---
 src/Path.hh             | 12 ++++++++++++
 src/PipelineManager.cpp | 35 ++++++++++++++++++++++-------------
 src/PipelineManager.hh  |  2 +-
 3 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/Path.hh b/src/Path.hh
index 4fe200f..ab946f8 100644
--- a/src/Path.hh
+++ b/src/Path.hh
@@ -96,6 +96,17 @@ public:
     */
     void setConnected(bool connected_) {connected = connected_;};
 
+    /**
+    * Gets the readers through which middle filters are connected
+    * @return reader Ids, one for each middle filter
+    */
+    std::vector<int> getMidReaderIDs() const {return midReaderIDs;};
+
+    /**
+    * Sets the readers through which middle filters are connected
+    */
+    void setMidReaderIDs(std::vector<int> readerIDs) {midReaderIDs = readerIDs;};
+
 protected:
     void addFilterID(int filterID);
 
@@ -105,6 +116,7 @@ private:
     int orgWriterID;
     int dstReaderID;
     std::vector<int> filterIDs;
+    std::vector<int> midReaderIDs;
     bool connected;
 };
 
diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 1d177cd..04113ed 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -342,34 +342,41 @@ bool PipelineManager::connectPath(int id)
         }
     }
 
-    if (!filters[orgFilterId]->connectManyToOne(filters[pathFilters.front()], path->getOrgWriterID()) &&
-        !handleGrouping(orgFilterId, pathFilters.front(), path->getOrgWriterID(), DEFAULT_ID)) {
+    //The filters in the middle of the path may have several readers
+    std::vector<int> midReaders;
+    for (auto it : pathFilters) {
+        midReaders.push_back(filters[it]->generateReaderID());
+    }
+
+    if (!filters[orgFilterId]->connectManyToMany(filters[pathFilters.front()], midReaders.front(), path->getOrgWriterID()) &&
+        !handleGrouping(orgFilterId, pathFilters.front(), path->getOrgWriterID(), midReaders.front())) {
         utils::errorMsg("Connecting path head to first filter!");
         return false;
     }
 
     for (unsigned i = 0; i < pathFilters.size() - 1; i++) {
-        if (!filters[pathFilters[i]]->connectOneToOne(filters[pathFilters[i+1]])) {
+        if (!filters[pathFilters[i]]->connectOneToMany(filters[pathFilters[i+1]], midReaders[i+1])) {
             utils::errorMsg("Connecting path filters!");
-            disconnectMidFilters(pathFilters, i + 1);
+            disconnectMidFilters(pathFilters, midReaders, i + 1);
             return false;
         }
     }
 
     if (!filters[pathFilters.back()]->connectOneToMany(filters[dstFilterId], path->getDstReaderID())) {
         utils::errorMsg("Connecting path last filter to path tail!");
-        disconnectMidFilters(pathFilters, pathFilters.size());
+        disconnectMidFilters(pathFilters, midReaders, pathFilters.size());
         return false;
     }
 
+    path->setMidReaderIDs(midReaders);
     path->setConnected(true);
     return true;
 }
 
-void PipelineManager::disconnectMidFilters(std::vector<int> midFilters, size_t count)
+void PipelineManager::disconnectMidFilters(std::vector<int> midFilters, std::vector<int> midReaders, size_t count)
 {
     while (count-- > 0) {
-        filters[midFilters[count]]->disconnectReader(DEFAULT_ID);
+        filters[midFilters[count]]->disconnectReader(midReaders[count]);
     }
 }
 
@@ -475,11 +482,12 @@ bool PipelineManager::deletePath(int id)
         return false;
     }
     
+    if (path->isConnected()){
+        disconnectMidFilters(pathFilters, path->getMidReaderIDs(), pathFilters.size());
+    }
+
     std::vector<int>::reverse_iterator rit = pathFilters.rbegin();
     for (; rit!= pathFilters.rend(); ++rit){
-        if (path->isConnected()){
-            filters[*rit]->disconnectReader(DEFAULT_ID);
-        }
 
         bool deleteMid = true;
         for (auto it : paths){
@@ -553,10 +561,11 @@ void PipelineManager::getStateEvent(Jzon::Node* params, Jzon::Object &outputNode
         if (f) {
             path.Add("avgDelay", (int)f->getAvgReaderDelay(it.second->getDstReaderID()).count());
             totalPathLostBlocs += f->getLostBlocs(it.second->getDstReaderID());
-            for (auto itt : pFilters) {
-                f = getFilter(itt);
+            std::vector<int> midReaders = it.second->getMidReaderIDs();
+            for (size_t i = 0; i < pFilters.size() && i < midReaders.size(); i++) {
+                f = getFilter(pFilters[i]);
                 if (f){
-                    totalPathLostBlocs += f->getLostBlocs(DEFAULT_ID);
+                    totalPathLostBlocs += f->getLostBlocs(midReaders[i]);
                 }
             }
             path.Add("lostBlocs", (int)totalPathLostBlocs);
diff --git a/src/PipelineManager.hh b/src/PipelineManager.hh
index 2c27fd0..8a808bc 100644
--- a/src/PipelineManager.hh
+++ b/src/PipelineManager.hh
@@ -195,7 +195,7 @@ private:
     bool createFilter(int id, FilterType type);
     
     bool handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId);
-    void disconnectMidFilters(std::vector<int> midFilters, size_t count);
+    void disconnectMidFilters(std::vector<int> midFilters, std::vector<int> midReaders, size_t count);
     bool validCData(ConnectionData cData, int orgFId, int dstFId);
 
     static PipelineManager* pipeMngrInstance;
-- 
2.43.0


From aca3f656206784c5318003d3f2ca809f9444a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 056/121] fix: release the frames and the contexts of the DASH
 segmenters

---
 src/modules/dasher/DashVideoSegmenterAVC.cpp  |  3 ++-
 src/modules/dasher/DashVideoSegmenterHEVC.cpp |  3 ++-
 src/modules/dasher/Dasher.cpp                 |  4 +---
 src/modules/dasher/i2libdash.c                | 24 +++++++++++++++++++
 src/modules/dasher/i2libdash.h                |  2 ++
 src/modules/dasher/i2libisoff.c               |  2 ++
 6 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 872910c..4390286 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -33,7 +33,8 @@ DashVideoSegmenter(segDur, VIDEO_CODEC_AVC, offset)
 
 DashVideoSegmenterAVC::~DashVideoSegmenterAVC()
 {
-
+    delete vFrame;
+    delete tmpFrame;
 }
 
 uint8_t DashVideoSegmenterAVC::generateContext()
diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index c703b1b..2173ae3 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -34,7 +34,8 @@ DashVideoSegmenter(segDur, VIDEO_CODEC_HEVC, offset)
 
 DashVideoSegmenterHEVC::~DashVideoSegmenterHEVC()
 {
-
+    delete vFrame;
+    delete tmpFrame;
 }
 
 uint8_t DashVideoSegmenterHEVC::generateContext()
diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f840bed..f25b33b 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -636,9 +636,7 @@ sequenceNumber(0), bitrateInBitsPerSec(0), tsOffset(offset)
 
 DashSegmenter::~DashSegmenter()
 {
-    if(dashContext){
-        free(dashContext);
-    }
+    free_context(&dashContext);
 }
 
 bool DashSegmenter::generateSegment(DashSegment* segment, Frame* frame, bool force)
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 6158c69..b7d5273 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -48,6 +48,7 @@ void audio_context_initializer(i2ctx **context) {
     (*context)->ctxaudio = (i2ctx_audio *) malloc(sizeof(i2ctx_audio));
     i2ctx_audio *ctxAudio = (*context)->ctxaudio;
 
+    ctxAudio->aac_data = NULL;
     ctxAudio->aac_data_length = 0;
     ctxAudio->segment_data_size = 0;
     ctxAudio->channels = 0;
@@ -76,6 +77,7 @@ void video_context_initializer(i2ctx **context, uint32_t media_type) {
     (*context)->ctxvideo = (i2ctx_video *) malloc(sizeof(i2ctx_video));
     i2ctx_video *ctxVideo = (*context)->ctxvideo;
 
+    ctxVideo->pps_sps_data = NULL;
     ctxVideo->pps_sps_data_length = 0;
     ctxVideo->segment_data_size = 0;
     ctxVideo->width = 0;
@@ -148,6 +150,28 @@ uint8_t generate_context(i2ctx **context, uint32_t media_type)
     return I2OK;
 }
 
+void free_context(i2ctx **context)
+{
+    if ((*context) == NULL) {
+        return;
+    }
+
+    if ((*context)->ctxvideo != NULL) {
+        free((*context)->ctxvideo->pps_sps_data);
+        free((*context)->ctxvideo->ctxsample);
+        free((*context)->ctxvideo);
+    }
+
+    if ((*context)->ctxaudio != NULL) {
+        free((*context)->ctxaudio->aac_data);
+        free((*context)->ctxaudio->ctxsample);
+        free((*context)->ctxaudio);
+    }
+
+    free(*context);
+    *context = NULL;
+}
+
 uint8_t fill_video_context(i2ctx **context, uint32_t width, uint32_t height, uint32_t t_base) 
 {
     if ((*context) == NULL) {
diff --git a/src/modules/dasher/i2libdash.h b/src/modules/dasher/i2libdash.h
index 419e64f..785329f 100644
--- a/src/modules/dasher/i2libdash.h
+++ b/src/modules/dasher/i2libdash.h
@@ -35,6 +35,8 @@
 
 uint8_t generate_context(i2ctx **context, uint32_t media_type); 
 
+void free_context(i2ctx **context);
+
 uint8_t fill_video_context(i2ctx **context, uint32_t width, uint32_t height, uint32_t t_base);
 
 uint8_t fill_audio_context(i2ctx **context, uint32_t channels, uint32_t sample_rate, uint32_t sample_size, uint32_t t_base, uint32_t sample_duration); 
diff --git a/src/modules/dasher/i2libisoff.c b/src/modules/dasher/i2libisoff.c
index 34b9410..18aaf81 100644
--- a/src/modules/dasher/i2libisoff.c
+++ b/src/modules/dasher/i2libisoff.c
@@ -151,6 +151,7 @@ uint32_t initVideoGenerator(byte *source_data, uint32_t size_source_data, byte *
         return I2ERROR_MEDIA_TYPE;
     }
     count = 0;
+    free((*context)->ctxvideo->pps_sps_data);
     (*context)->ctxvideo->pps_sps_data = (byte*) malloc (size_source_data);
     memcpy((*context)->ctxvideo->pps_sps_data, source_data, size_source_data);
     (*context)->ctxvideo->pps_sps_data_length = size_source_data;
@@ -187,6 +188,7 @@ uint32_t initAudioGenerator(byte *source_data, uint32_t size_source_data, byte *
     }
 
     count = 0;
+    free((*context)->ctxaudio->aac_data);
     (*context)->ctxaudio->aac_data = (byte*) malloc(size_source_data);
     memcpy((*context)->ctxaudio->aac_data, source_data, size_source_data);
     (*context)->ctxaudio->aac_data_length = size_source_data;
-- 
2.43.0


From 8ad89a32edfc568fd1779f96c7afe342b5a9c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 057/121] fix: remove from disk every DASH segment that leaves
 the timeline

---
 src/modules/dasher/Dasher.cpp     | 20 ++++++++++++--------
 src/modules/dasher/MpdManager.cpp | 16 +++++++---------
 src/modules/dasher/MpdManager.hh  |  7 ++++---
 3 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f25b33b..0d53002 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -246,7 +246,7 @@ bool Dasher::writeVideoSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
+    std::vector<uint64_t> rmTimestamps;
     bool needEncoderConfig = false;
 
     if (vSegments.empty()) {
@@ -284,12 +284,14 @@ bool Dasher::writeVideoSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur);
+    rmTimestamps = mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur);
 
     mpdMngr->writeToDisk(mpdPath.c_str());
 
-    if (rmTimestamp > 0 && !cleanSegments(vSegments, rmTimestamp, V_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
+    for (auto rmTimestamp : rmTimestamps) {
+        if (!cleanSegments(vSegments, rmTimestamp, V_EXT)) {
+            utils::warningMsg("Error cleaning dash video segments");
+        }
     }
 
     return true;
@@ -311,7 +313,7 @@ bool Dasher::writeAudioSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
+    std::vector<uint64_t> rmTimestamps;
 
     if (aSegments.empty()) {
         return false;
@@ -337,12 +339,14 @@ bool Dasher::writeAudioSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur);
+    rmTimestamps = mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur);
 
     mpdMngr->writeToDisk(mpdPath.c_str());
 
-    if (rmTimestamp > 0 && !cleanSegments(aSegments, rmTimestamp, A_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
+    for (auto rmTimestamp : rmTimestamps) {
+        if (!cleanSegments(aSegments, rmTimestamp, A_EXT)) {
+            utils::warningMsg("Error cleaning dash video segments");
+        }
     }
 
     return true;
diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 64eb531..8fd70e3 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -113,19 +113,17 @@ void MpdManager::writeToDisk(const char* fileName)
     doc.SaveFile(fileName);
 }
 
-uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
+std::vector<uint64_t> MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
 {
     AdaptationSet* adSet;
-    uint64_t removedTimestamp;
 
     adSet = getAdaptationSet(id);
 
     if (!adSet) {
-        return 0;
+        return std::vector<uint64_t>();
     }
 
-    removedTimestamp = adSet->updateTimestamp(ts, duration, maxSeg);
-    return removedTimestamp;
+    return adSet->updateTimestamp(ts, duration, maxSeg);
 }
 
 bool MpdManager::flushAdaptationSetTimestamps(std::string id)
@@ -238,17 +236,17 @@ AdaptationSet::~AdaptationSet()
 { 
 }
 
-uint64_t AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg)
+std::vector<uint64_t> AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg)
 {
-    uint64_t removedTimestamp= 0;
+    std::vector<uint64_t> removedTimestamps;
 
     while (timestamps.size() >= maxSeg) {
-        removedTimestamp = timestamps.front().first;
+        removedTimestamps.push_back(timestamps.front().first);
         timestamps.pop_front();
     }
 
     timestamps.push_back(std::pair<uint64_t,uint64_t>(ts, duration));
-    return removedTimestamp;
+    return removedTimestamps;
 }
 
 void AdaptationSet::flushTimestamps()
diff --git a/src/modules/dasher/MpdManager.hh b/src/modules/dasher/MpdManager.hh
index 19772cc..5c74155 100644
--- a/src/modules/dasher/MpdManager.hh
+++ b/src/modules/dasher/MpdManager.hh
@@ -24,6 +24,7 @@
 
 #include <map>
 #include <deque>
+#include <vector>
 #include <tinyxml2.h>
 
 #define MIN_SEGMENT 2
@@ -105,9 +106,9 @@ public:
     * @param id Adaptation set Id. Must exist.
     * @param ts Timestamp of the current segment in timescale base.
     * @param duration Duration of the current segment in timescale base.
-    * @return true if succeeded and false if not
+    * @return timestamps of the segments that are not listed any more
     */
-    uint64_t updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration);
+    std::vector<uint64_t> updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration);
 
     /**
     * Updates an existing video representation. If it does not exists, it creates a new one. Each representation is
@@ -213,7 +214,7 @@ public:
     * Sets timestamp and duration
     * @see MpdManager::updateAdaptationSetTimestamp 
     */
-    uint64_t updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg);
+    std::vector<uint64_t> updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg);
 
     /**
     * Sets timescale, segment template and init template values
-- 
2.43.0


From 056dd636a55035176d93857ab78727a303f0b6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 058/121] fix: segment the video frames that carry no decode
 time

---
 src/modules/dasher/DashVideoSegmenter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashVideoSegmenter.cpp b/src/modules/dasher/DashVideoSegmenter.cpp
index 0a15d68..8b2ecf1 100644
--- a/src/modules/dasher/DashVideoSegmenter.cpp
+++ b/src/modules/dasher/DashVideoSegmenter.cpp
@@ -139,7 +139,11 @@ bool DashVideoSegmenter::appendFrameToDashSegment(Frame* frame)
     }
     
     timeBasePts = microsToTimeBase(vFrame->getPresentationTime());
-    timeBaseDts = microsToTimeBase(vFrame->getDecodeTime());
+    if (vFrame->getDecodeTime() == NO_DTS) {
+        timeBaseDts = timeBasePts;
+    } else {
+        timeBaseDts = microsToTimeBase(vFrame->getDecodeTime());
+    }
 
     //TODO: test it with bFrames
     addSampleReturn = add_video_sample(vFrame->getDataBuf(), vFrame->getLength(), timeBasePts, 
-- 
2.43.0


From e4cd3c76f5ae011ac4e77622752a18e559357dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 059/121] fix: cut DASH segments after a picture longer than
 the segment duration

---
 src/modules/dasher/i2libdash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index b7d5273..e5657cd 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -353,7 +353,7 @@ uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts,
 
     lastSampleDuration = nextFramePts - (*context)->ctxvideo->ctxsample->mdat[sampleIdx].presentation_timestamp;
 
-    if ((nextFrameIsIntra == TRUE) && ((((*context)->duration - lastSampleDuration)) <= ((*context)->ctxvideo->current_video_duration + lastSampleDuration))) {
+    if ((nextFrameIsIntra == TRUE) && ((*context)->duration <= ((*context)->ctxvideo->current_video_duration + 2*(uint64_t)lastSampleDuration))) {
         (*context)->ctxvideo->ctxsample->mdat[sampleIdx].duration = lastSampleDuration;
         (*context)->ctxvideo->current_video_duration += lastSampleDuration;
 
-- 
2.43.0


From 98b0973a20451fb9ab93530fdd41248a89bb1692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:36 +0000
Subject: [PATCH 060/121] fix: ignore the empty NAL units in the AVC segmenter

---
 src/modules/dasher/DashVideoSegmenterAVC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 4390286..f22f298 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -68,7 +68,7 @@ VideoFrame* DashVideoSegmenterAVC::parseNal(VideoFrame* nal)
 {
     int startCodeOffset;
     unsigned char* nalData;
-    unsigned nalDataLength;
+    int nalDataLength;
     unsigned char nalType;
     bool newFrame = false;
 
-- 
2.43.0


From e4c0f9c81e64aa7569c9bf201437fe87c4a39a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:51 +0000
Subject: [PATCH 061/121] fix: keep HEVC pictures intra when an SEI follows
 their slices

---
 src/modules/dasher/DashVideoSegmenterHEVC.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index 2173ae3..c874e1a 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -101,9 +101,10 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
             currentIntra = false;
             break;
         case PREFIX_SEI_NUT:
-        case SUFFIX_SEI_NUT:
             currentIntra = false;
             break;
+        case SUFFIX_SEI_NUT:
+            break;
         case AUD_HEVC:
             break;
         case IDR1:
-- 
2.43.0


From 100525a295cb33b66aca269606ab341ed9de5ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:35 +0000
Subject: [PATCH 062/121] fix: read the three bits of the ADTS channel
 configuration

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 85893c1..e9e0741 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -211,7 +211,7 @@ unsigned char DashAudioSegmenter::getSamplingFreqIdxFromADTSHeader(unsigned char
 
 unsigned char DashAudioSegmenter::getChannelConfFromADTSHeader(unsigned char* adtsHeader)
 {
-    return (adtsHeader[2] & 0x01) | ((adtsHeader[3] >> 6) & 0x03);
+    return ((adtsHeader[2] & 0x01) << 2) | ((adtsHeader[3] >> 6) & 0x03);
 }
 
 unsigned char DashAudioSegmenter::getExtradata1stByte(unsigned char audioObjectType, unsigned char samplingFrequencyIndex)
-- 
2.43.0


From 9c9707e674e6d9d32ade30d31729f78e433b68e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:36 +0000
Subject: [PATCH 063/121] fix: do not truncate the timestamps of audio DASH
 segments

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index e9e0741..74c1354 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -132,7 +132,7 @@ bool DashAudioSegmenter::appendFrameToDashSegment(Frame* frame)
     unsigned char* dataWithoutADTS;
     unsigned int dataLengthWithoutADTS;
     unsigned int addSampleReturn;
-    uint32_t timeBasePts;
+    uint64_t timeBasePts;
 
     if (!frame || !frame->getDataBuf() || frame->getLength() <= 0 || !dashContext) {
         utils::errorMsg("Error appeding frame to segment: frame not valid");
-- 
2.43.0


From 74061b7f0f447c96d72643f3b75af9fd00e060cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:27 +0000
Subject: [PATCH 064/121] fix: write the init segment of audio only when its
 configuration changes

---
 src/modules/dasher/DashAudioSegmenter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 74c1354..0a84dfa 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -22,9 +22,11 @@
  */
 
  #include "DashAudioSegmenter.hh"
+#include <climits>
 
 DashAudioSegmenter::DashAudioSegmenter(std::chrono::seconds segDur, std::chrono::microseconds offset) :
-DashSegmenter(segDur, 0, offset)
+DashSegmenter(segDur, 0, offset), profile(UCHAR_MAX), audioObjectType(0), samplingFrequencyIndex(UCHAR_MAX),
+channelConfiguration(UCHAR_MAX)
 {
 
 }
@@ -182,7 +184,7 @@ bool DashAudioSegmenter::updateExtradata(AudioFrame* aFrame)
     }
 
     if (profile == getProfileFromADTSHeader(data) && samplingFrequencyIndex == getSamplingFreqIdxFromADTSHeader(data) &&
-        channelConfiguration == getChannelConfFromADTSHeader(data) && !extradata.empty())
+        channelConfiguration == getChannelConfFromADTSHeader(data))
     {
         return true;
     }
-- 
2.43.0


From 2de45e2fb1a4a16252974d950e5664a68ee41140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:53 +0000
Subject: [PATCH 065/121] fix: take the earliest frame as the origin of a DASH
 session

---
 src/modules/dasher/Dasher.cpp | 29 ++++++++++++++++++++++-------
 src/modules/dasher/Dasher.hh  |  1 +
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 0d53002..f28f04e 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -36,7 +36,7 @@
 #include <math.h>
 
 Dasher::Dasher(unsigned readersNum) :
-TailFilter(readersNum), mpdMngr(NULL), hasVideo(false), videoStarted(false), timestampOffset(std::chrono::microseconds(0))
+TailFilter(readersNum), mpdMngr(NULL), hasVideo(false), videoStarted(false), hasOffset(false), timestampOffset(std::chrono::microseconds(0))
 {
     fType = DASHER;
     initializeEventMap();
@@ -94,18 +94,33 @@ bool Dasher::doProcessFrame(std::map<int, Frame*> &orgFrames, std::vector<int> n
         return false;
     }
 
+    if (!hasOffset) {
+        for (auto id : newFrames) {
+            if (!getSegmenter(id)) {
+                continue;
+            }
+
+            if (!hasOffset || orgFrames[id]->getFrameTime() < timestampOffset) {
+                timestampOffset = orgFrames[id]->getFrameTime();
+                hasOffset = true;
+            }
+        }
+
+        for (auto seg : segmenters) {
+            seg.second->setOffset(timestampOffset);
+        }
+    }
+
     for (auto id : newFrames) {
         segmenter = getSegmenter(id);
 
         if (!segmenter) {
             continue;
         }
-        
-        if (timestampOffset.count() == 0){
-            timestampOffset = orgFrames[id]->getFrameTime();
-            for(auto seg : segmenters){
-                seg.second->setOffset(timestampOffset);
-            }
+
+        if (orgFrames[id]->getPresentationTime() < timestampOffset) {
+            utils::warningMsg("[Dasher::doProcessFrame] Frame previous to the beginning of the session, discarded");
+            continue;
         }
 
         frame = segmenter->manageFrame(orgFrames[id]);
diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index 3bd7f0f..177245f 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -135,6 +135,7 @@ private:
     bool hasVideo;
     bool videoStarted;
     
+    bool hasOffset;
     std::chrono::microseconds timestampOffset;
 };
 
-- 
2.43.0


From e515ead20359a2d6904c389820e034ba9280cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:23 +0000
Subject: [PATCH 066/121] fix: bound the media that a DASH segment holds

---
 src/modules/dasher/i2context.h |  2 ++
 src/modules/dasher/i2libdash.c | 17 +++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/modules/dasher/i2context.h b/src/modules/dasher/i2context.h
index 56facfe..3cb8613 100644
--- a/src/modules/dasher/i2context.h
+++ b/src/modules/dasher/i2context.h
@@ -32,8 +32,10 @@ typedef unsigned char byte;
 #define AUDIO_TYPE 3
 #define MAX_MDAT_SAMPLE 65536   //H265 -> 119296
 #define MAX_DAT 10*1024*1024 
+#define MAX_SEGMENT_HEADERS(samples) (1024 + 16*((samples) + 1)) //boxes that precede the samples in a segment
 //TODO: error negative values
 #define I2ERROR_MAX 10
+#define I2ERROR_SIZE_OVERFLOW 10
 #define I2ERROR_SPS_PPS 9
 #define I2ERROR_IS_INTRA 8
 #define I2ERROR_DURATION_ZERO 7
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index e5657cd..5f58c6f 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -430,6 +430,15 @@ uint32_t force_generate_audio_segment(byte *output_data, i2ctx **context, uint64
     return segDataLength;
 }
 
+static uint8_t fits_in_segment(uint32_t segment_data_size, uint32_t input_data_length, i2ctx_sample *ctxSample)
+{
+    if (ctxSample->mdat_sample_length >= MAX_MDAT_SAMPLE) {
+        return FALSE;
+    }
+
+    return (uint64_t)segment_data_size + input_data_length + MAX_SEGMENT_HEADERS(ctxSample->mdat_sample_length) <= MAX_DAT;
+}
+
 uint32_t add_video_sample(byte *input_data, uint32_t input_data_length, uint64_t pts, 
                            uint64_t dts, uint32_t seqNumber, uint8_t is_intra, i2ctx **context)
 {
@@ -459,6 +468,10 @@ uint32_t add_video_sample(byte *input_data, uint32_t input_data_length, uint64_t
         return I2ERROR_IS_INTRA;
     }
 
+    if (!fits_in_segment((*context)->ctxvideo->segment_data_size, input_data_length, ctxSample)) {
+        return I2ERROR_SIZE_OVERFLOW;
+    }
+
     // Add segment data
     memcpy((*context)->ctxvideo->segment_data + (*context)->ctxvideo->segment_data_size, input_data, input_data_length);
     (*context)->ctxvideo->segment_data_size += input_data_length;
@@ -506,6 +519,10 @@ uint32_t add_audio_sample(byte *input_data, uint32_t input_data_length, uint32_t
     // Add sample or Init new segmentation
     i2ctx_sample *ctxSample = (*context)->ctxaudio->ctxsample;
     
+    if (!fits_in_segment((*context)->ctxaudio->segment_data_size, input_data_length, ctxSample)) {
+        return I2ERROR_SIZE_OVERFLOW;
+    }
+
     // Add segment data
     memcpy((*context)->ctxaudio->segment_data + (*context)->ctxaudio->segment_data_size, input_data, input_data_length);
     (*context)->ctxaudio->segment_data_size += input_data_length;
-- 
2.43.0


From 7107b6e71d209d0a5b761076dc5792dd143270cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 067/121] fix: reject the AVC parameter sets that are too short

---
 src/modules/dasher/DashVideoSegmenterAVC.cpp | 5 +++++
 src/modules/dasher/DashVideoSegmenterAVC.hh  | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index f22f298..db94316 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -132,6 +132,11 @@ VideoFrame* DashVideoSegmenterAVC::parseNal(VideoFrame* nal)
 
 void DashVideoSegmenterAVC::saveSPS(unsigned char* data, int dataLength)
 {
+    if (dataLength < MIN_SPS_LENGTH) {
+        utils::errorMsg("Error saving SPS: invalid length");
+        return;
+    }
+
     sps.clear();
     sps.insert(sps.begin(), data, data + dataLength);
 }
diff --git a/src/modules/dasher/DashVideoSegmenterAVC.hh b/src/modules/dasher/DashVideoSegmenterAVC.hh
index e2ec0b5..cb61921 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.hh
+++ b/src/modules/dasher/DashVideoSegmenterAVC.hh
@@ -34,6 +34,7 @@
 #define METADATA_RESERVED_BYTES2 0xE0
 #define NUMBER_OF_SPS 0x01
 #define NUMBER_OF_PPS 0x01
+#define MIN_SPS_LENGTH 4
 
 #define NON_IDR 1
 #define IDR 5
-- 
2.43.0


From d8fc153f4860d3a109f1cdfbc0355fb2cefaa26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 068/121] fix: empty the timeline when its last representation
 is removed

---
 src/modules/dasher/Dasher.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f28f04e..b3ebd4d 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -577,12 +577,20 @@ bool Dasher::specificReaderDelete(int readerId)
         delete vSegments[readerId];
         vSegments.erase(readerId);
         mpdMngr->removeRepresentation(V_ADAPT_SET_ID, std::to_string(readerId));
+
+        if (vSegments.empty()) {
+            mpdMngr->flushAdaptationSetTimestamps(V_ADAPT_SET_ID);
+        }
     }
 
     if (aSegments.count(readerId) > 0) {
         delete aSegments[readerId];
         aSegments.erase(readerId);
         mpdMngr->removeRepresentation(A_ADAPT_SET_ID, std::to_string(readerId));
+
+        if (aSegments.empty()) {
+            mpdMngr->flushAdaptationSetTimestamps(A_ADAPT_SET_ID);
+        }
     }
 
     if (initSegments.count(readerId) > 0) {
-- 
2.43.0


From 95cd954d66b643d6d01e18f1e4615393e2d2758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:49 +0000
Subject: [PATCH 069/121] fix: release the segments of the DASH filter

---
 src/modules/dasher/Dasher.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index b3ebd4d..8476bae 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -47,6 +47,15 @@ Dasher::~Dasher()
     for (auto seg : segmenters) {
         delete seg.second;
     }
+    for (auto seg : vSegments) {
+        delete seg.second;
+    }
+    for (auto seg : aSegments) {
+        delete seg.second;
+    }
+    for (auto seg : initSegments) {
+        delete seg.second;
+    }
     delete mpdMngr;
 }
 
-- 
2.43.0


From 9c1effc9ee58795a4aba54fc274b093373bc278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:49 +0000
Subject: [PATCH 070/121] fix: replace the MPD and the DASH segments atomically
 and only once they are complete

---
 src/modules/dasher/Dasher.cpp     | 20 ++++++++++++++++----
 src/modules/dasher/MpdManager.cpp | 15 +++++++++++++--
 src/modules/dasher/MpdManager.hh  |  3 ++-
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 8476bae..509ddad 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -32,6 +32,7 @@
 #include <string>
 #include <chrono>
 #include <fstream>
+#include <cstdio>
 #include <unistd.h>
 #include <math.h>
 
@@ -310,7 +311,9 @@ bool Dasher::writeVideoSegments()
 
     rmTimestamps = mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur);
 
-    mpdMngr->writeToDisk(mpdPath.c_str());
+    if (!mpdMngr->writeToDisk(mpdPath.c_str())) {
+        return false;
+    }
 
     for (auto rmTimestamp : rmTimestamps) {
         if (!cleanSegments(vSegments, rmTimestamp, V_EXT)) {
@@ -365,7 +368,9 @@ bool Dasher::writeAudioSegments()
 
     rmTimestamps = mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur);
 
-    mpdMngr->writeToDisk(mpdPath.c_str());
+    if (!mpdMngr->writeToDisk(mpdPath.c_str())) {
+        return false;
+    }
 
     for (auto rmTimestamp : rmTimestamps) {
         if (!cleanSegments(aSegments, rmTimestamp, A_EXT)) {
@@ -745,8 +750,8 @@ void DashSegment::setDataLength(unsigned int length)
 
 bool DashSegment::writeToDisk(std::string path)
 {
-    const char* p = path.c_str();
-    std::ofstream file(p, std::ofstream::binary);
+    std::string tmpPath = path + ".tmp";
+    std::ofstream file(tmpPath.c_str(), std::ofstream::binary);
 
     if (!file) {
         return false;
@@ -754,6 +759,13 @@ bool DashSegment::writeToDisk(std::string path)
 
     file.write((char*)data, dataLength);
     file.close();
+
+    //The file takes its name once it is complete, it may be being served
+    if (!file || std::rename(tmpPath.c_str(), path.c_str()) != 0) {
+        std::remove(tmpPath.c_str());
+        return false;
+    }
+
     return true;
 }
 
diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 8fd70e3..4b97545 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -21,6 +21,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <cstdio>
 #include <ctime>
 #include <chrono> 
 
@@ -62,7 +63,7 @@ void MpdManager::configure(unsigned int minBuffTime, unsigned int maxSegment, un
     minimumUpdatePeriod = "PT" + std::to_string(segDurInSec) + ".0S";
 }
 
-void MpdManager::writeToDisk(const char* fileName)
+bool MpdManager::writeToDisk(const char* fileName)
 {
     tinyxml2::XMLDocument doc;
     tinyxml2::XMLElement* root;
@@ -110,7 +111,17 @@ void MpdManager::writeToDisk(const char* fileName)
     }
 
     root->InsertEndChild(period);
-    doc.SaveFile(fileName);
+
+    //The file takes its name once it is complete, it may be being served
+    std::string tmpName = std::string(fileName) + ".tmp";
+
+    if (doc.SaveFile(tmpName.c_str()) != 0 || std::rename(tmpName.c_str(), fileName) != 0) {
+        std::cerr << "Error writing MPD file" << std::endl;
+        std::remove(tmpName.c_str());
+        return false;
+    }
+
+    return true;
 }
 
 std::vector<uint64_t> MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
diff --git a/src/modules/dasher/MpdManager.hh b/src/modules/dasher/MpdManager.hh
index 5c74155..3facbcc 100644
--- a/src/modules/dasher/MpdManager.hh
+++ b/src/modules/dasher/MpdManager.hh
@@ -74,8 +74,9 @@ public:
     /**
     * Write to disk the .mpd file with the current data stored in the class. If the .mpd file already exists, it is overwritted
     * @param fileName File name (can be an absolute or relative path)
+    * @return true if succeeded and false if not
     */
-    void writeToDisk(const char* fileName);
+    bool writeToDisk(const char* fileName);
     
     //TODO: add documentation
     unsigned int getMaxSeg() {return maxSeg;};
-- 
2.43.0


From 878ea535a980eecadcbc90029b43bcc4713ccb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:56 +0000
Subject: [PATCH 071/121] fix: write again the init segment that could not be
 written

---
 src/modules/dasher/Dasher.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 509ddad..6723fa0 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -203,7 +203,11 @@ bool Dasher::generateInitSegment(unsigned int id, DashSegmenter* segmenter)
 
     if ((vSeg = dynamic_cast<DashVideoSegmenter*>(segmenter)) != NULL) {
 
-        if (!vSeg->generateInitSegment(initSegments[id])) {
+        if (vSeg->generateInitSegment(initSegments[id])) {
+            initSegments[id]->setComplete(true);
+        }
+
+        if (!initSegments[id]->isComplete()) {
             return true;
         }
 
@@ -211,11 +215,17 @@ bool Dasher::generateInitSegment(unsigned int id, DashSegmenter* segmenter)
             utils::errorMsg("Error writing DASH segment to disk: invalid path");
             return false;
         }
+
+        initSegments[id]->setComplete(false);
     }
 
     if ((aSeg = dynamic_cast<DashAudioSegmenter*>(segmenter)) != NULL) {
 
-        if (!aSeg->generateInitSegment(initSegments[id])) {
+        if (aSeg->generateInitSegment(initSegments[id])) {
+            initSegments[id]->setComplete(true);
+        }
+
+        if (!initSegments[id]->isComplete()) {
             return true;
         }
 
@@ -223,6 +233,8 @@ bool Dasher::generateInitSegment(unsigned int id, DashSegmenter* segmenter)
             utils::errorMsg("Error writing DASH segment to disk: invalid path");
             return false;
         }
+
+        initSegments[id]->setComplete(false);
     }
 
     if (!vSeg && !aSeg) {
-- 
2.43.0


From 284bf69433953056151a4fd0143c3b7e46920125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:02 +0000
Subject: [PATCH 072/121] fix: initialise the segment duration of the DASH
 filter

---
 src/modules/dasher/Dasher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 6723fa0..9d2a211 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -37,7 +37,7 @@
 #include <math.h>
 
 Dasher::Dasher(unsigned readersNum) :
-TailFilter(readersNum), mpdMngr(NULL), hasVideo(false), videoStarted(false), hasOffset(false), timestampOffset(std::chrono::microseconds(0))
+TailFilter(readersNum), mpdMngr(NULL), segDur(std::chrono::seconds(0)), hasVideo(false), videoStarted(false), hasOffset(false), timestampOffset(std::chrono::microseconds(0))
 {
     fType = DASHER;
     initializeEventMap();
-- 
2.43.0


From 2645d12a8c6ff258a5798b188a4ee2ded089f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 073/121] fix: release the stream info of the encoders and the
 parameters and pictures of x265

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 1 +
 src/modules/videoEncoder/VideoEncoderX265.cpp    | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 67985a4..08e2947 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -42,6 +42,7 @@ VideoEncoderX264or5::~VideoEncoderX264or5()
     if (midFrame){
         av_frame_free(&midFrame);
     }
+    delete outputStreamInfo;
 }
 
 bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 6d88508..d2dcfa6 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -35,6 +35,9 @@ VideoEncoderX264or5(), encoder(NULL)
     xparams = x265_param_alloc();
     picIn = x265_picture_alloc();
     picOut = x265_picture_alloc();
+    x265_param_default(xparams);
+    x265_picture_init(xparams, picIn);
+    x265_picture_init(xparams, picOut);
 }
 
 VideoEncoderX265::~VideoEncoderX265()
@@ -44,7 +47,9 @@ VideoEncoderX265::~VideoEncoderX265()
         encoder = NULL;
     }
     //TODO check for x265_cleanup()?
-    //TODO add x265_picture_clean(&x265pic) or x265_picture_free(&x265pic)?
+    x265_picture_free(picIn);
+    x265_picture_free(picOut);
+    x265_param_free(xparams);
 }
 
 bool VideoEncoderX265::fillPicturePlanes(unsigned char** data, int* linesize)
-- 
2.43.0


From 22459f4783b89587d14cc0b8480750aa2a25145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 074/121] fix: one forced intra picture after a gap, not one
 per GOP time elapsed

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 08e2947..9a423cc 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -83,7 +83,8 @@ bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
             
         if (diff.count() <= 0){
             forceIntra = true;
-            refTime += std::chrono::microseconds(gopTime);
+            //The next instant of the grid is after this picture, also when some have passed meanwhile
+            refTime += std::chrono::microseconds(gopTime)*(-diff.count()/gopTime + 1);
         }
     }
     
-- 
2.43.0


From a6daa9927bfb79ae8dae14da2268908d967fd63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 075/121] fix: encode 4:2:2 and 4:4:4 pictures as such

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 7 ++++++-
 src/modules/videoEncoder/VideoEncoderX265.cpp | 7 +++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index cae7b1b..992b0b9 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -128,6 +128,7 @@ FrameQueue* VideoEncoderX264::allocQueue(ConnectionData cData)
 bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
 {
     int colorspace;
+    const char* profile;
 
     if (!needsConfig && orgFrame->getWidth() == xparams.i_width &&
         orgFrame->getHeight() == xparams.i_height && orgFrame->getPixelFormat() == inPixFmt) {
@@ -139,14 +140,17 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
         case YUV420P:
             libavInPixFmt = AV_PIX_FMT_YUV420P;
             colorspace = X264_CSP_I420;
+            profile = "high";
             break;
         case YUV422P:
             libavInPixFmt = AV_PIX_FMT_YUV422P;
             colorspace = X264_CSP_I422;
+            profile = "high422";
             break;
         case YUV444P:
             libavInPixFmt = AV_PIX_FMT_YUV444P;
             colorspace = X264_CSP_I444;
+            profile = "high444";
             break;
         default:
             utils::errorMsg("Uncompatibe input pixel format");
@@ -158,7 +162,8 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
 
     picIn.img.i_csp = colorspace;
     x264_param_default_preset(&xparams, preset.c_str(), NULL);
-    x264_param_apply_profile(&xparams, "high");
+    xparams.i_csp = colorspace;
+    x264_param_apply_profile(&xparams, profile);
 
     x264_param_parse(&xparams, "keyint", std::to_string(gop).c_str());
     x264_param_parse(&xparams, "fps", std::to_string(fps).c_str());
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index d2dcfa6..f1ac775 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -137,6 +137,7 @@ FrameQueue* VideoEncoderX265::allocQueue(ConnectionData cData)
 bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
 {
     int colorspace;
+    const char* profile;
 
     if (!needsConfig && orgFrame->getWidth() == xparams->sourceWidth &&
         orgFrame->getHeight() == xparams->sourceHeight && orgFrame->getPixelFormat() == inPixFmt) {
@@ -148,6 +149,7 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
         case YUV420P:
             libavInPixFmt = AV_PIX_FMT_YUV420P;
             colorspace = X265_CSP_I420;
+            profile = "main";
             break;
         /*TODO X265_CSP_I422 not supported yet. Continue checking x265 library releases for its support.
         case YUV422P:
@@ -157,6 +159,7 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
         case YUV444P:
             libavInPixFmt = AV_PIX_FMT_YUV444P;
             colorspace = X265_CSP_I444;
+            profile = "main444-8";
             break;
         default:
             utils::debugMsg("Uncompatibe input pixel format");
@@ -167,10 +170,10 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
             break;
     }
 
-    picIn->colorSpace = colorspace;
     x265_param_default_preset(xparams, preset.c_str(), NULL);
     /*TODO check with NULL profile*/
-    x265_param_apply_profile(xparams, "main");
+    xparams->internalCsp = colorspace;
+    x265_param_apply_profile(xparams, profile);
 
     x265_param_parse(xparams, "keyint", std::to_string(gop).c_str());
     x265_param_parse(xparams, "fps", std::to_string(fps).c_str());
-- 
2.43.0


From 888fe08b6b72ee00514d870d280b5782e4a447dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 076/121] fix: refuse negative values in the configuration of
 the encoders

---
 .../videoEncoder/VideoEncoderX264or5.cpp      | 20 +++++++++----------
 .../videoEncoder/VideoEncoderX264or5.hh       |  6 +++---
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 9a423cc..cf96fbf 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -129,9 +129,9 @@ bool VideoEncoderX264or5::fill_x264or5_picture(VideoFrame* videoFrame)
     return true;
 }
 
-bool VideoEncoderX264or5::configure0(unsigned bitrate_, unsigned fps_, unsigned gop_, 
-                                     unsigned lookahead_, int bFrames_, unsigned threads_, 
-                                     bool annexB_, std::string preset_, unsigned gopTime_)
+bool VideoEncoderX264or5::configure0(int bitrate_, int fps_, int gop_, 
+                                     int lookahead_, int bFrames_, int threads_, 
+                                     bool annexB_, std::string preset_, int gopTime_)
 {
     if (bitrate_ <= 0 || gop_ <= 0 || lookahead_ < 0 || threads_ <= 0 || preset_.empty()) {
         utils::errorMsg("Error configuring VideoEncoderX264or5: invalid configuration values");
@@ -171,13 +171,13 @@ bool VideoEncoderX264or5::configure0(unsigned bitrate_, unsigned fps_, unsigned
 
 bool VideoEncoderX264or5::configEvent(Jzon::Node* params)
 {
-    unsigned tmpBitrate;
-    unsigned tmpFps;
-    unsigned tmpGop;
-    unsigned tmpGopTime;
-    unsigned tmpLookahead;
-    unsigned tmpThreads;
-    unsigned tmpBFrames;
+    int tmpBitrate;
+    int tmpFps;
+    int tmpGop;
+    int tmpGopTime;
+    int tmpLookahead;
+    int tmpThreads;
+    int tmpBFrames;
     bool tmpAnnexB;
     std::string tmpPreset;
 
diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.hh b/src/modules/videoEncoder/VideoEncoderX264or5.hh
index e6bd6ba..e7058ac 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.hh
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.hh
@@ -96,9 +96,9 @@ protected:
     void setIntra(){forceIntra = true;};
     bool fill_x264or5_picture(VideoFrame* videoFrame);
 
-    bool configure0(unsigned bitrate_, unsigned fps_, unsigned gop_, 
-                    unsigned lookahead_, int bFrames_, unsigned threads_,
-                    bool annexB_, std::string preset_, unsigned gopTime);
+    bool configure0(int bitrate_, int fps_, int gop_, 
+                    int lookahead_, int bFrames_, int threads_,
+                    bool annexB_, std::string preset_, int gopTime);
     
 private:
     bool setGopReferenceTimeEvent(Jzon::Node* params);
-- 
2.43.0


From 4885acffc5584a34570e28e1ea351c65fab54fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 077/121] fix: a partial configuration does not set a frame
 rate

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index cf96fbf..c74a558 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -186,7 +186,8 @@ bool VideoEncoderX264or5::configEvent(Jzon::Node* params)
     }
 
     tmpBitrate = bitrate;
-    tmpFps = fps;
+    //No frame time means that no frame rate was configured
+    tmpFps = getFrameTime().count() > 0 ? fps : 0;
     tmpGop = gop;
     tmpGopTime = gopTime;
     tmpLookahead = lookahead;
-- 
2.43.0


From 666f5582e3e446547978cc21cf4835fdae18b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:40 +0000
Subject: [PATCH 078/121] fix: a GOP reference time event without parameters
 ended the process

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index c74a558..96b4af4 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -244,7 +244,7 @@ bool VideoEncoderX264or5::forceIntraEvent(Jzon::Node*)
 
 bool VideoEncoderX264or5::setGopReferenceTimeEvent(Jzon::Node* params)
 {
-    if (params->Has("referenceTime") && params->Get("referenceTime").IsString()) {
+    if (params && params->Has("referenceTime") && params->Get("referenceTime").IsString()) {
         std::string refTime_str = params->Get("referenceTime").ToString();
         refTime = std::chrono::microseconds(std::stoull(refTime_str));
         return true;
-- 
2.43.0


From 14645b2ac6b0118cb45778d634c3712fee09ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 079/121] fix: decode times of reordered pictures before the
 first one, and after the encoder starts again

---
 src/modules/videoEncoder/VideoEncoderX264.cpp |  1 +
 .../videoEncoder/VideoEncoderX264or5.cpp      | 32 +++++++++++++++++--
 .../videoEncoder/VideoEncoderX264or5.hh       |  4 +++
 src/modules/videoEncoder/VideoEncoderX265.cpp |  1 +
 4 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index 992b0b9..9e56bb5 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -208,6 +208,7 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
     }
 
     needsConfig = false;
+    encoderStarted();
    
     return encodeHeadersFrame();
 
diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 96b4af4..c7b4790 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -26,7 +26,7 @@
 VideoEncoderX264or5::VideoEncoderX264or5() :
 OneToOneFilter(), inPixFmt(P_NONE), forceIntra(false), fps(0), bitrate(0), gop(0), 
     gopTime(0), refTime(std::chrono::microseconds(0)), threads(0), bFrames(-1),
-    needsConfig(false), inPts(0), outPts(0), dts(0)
+    needsConfig(false), inPts(0), outPts(0), dts(0), firstPts(0), lastDecodeTime(NO_DTS)
 {
     fType = VIDEO_ENCODER;
     midFrame = av_frame_alloc();
@@ -102,7 +102,8 @@ bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
     
     dst->setConsumed(true);
     dst->setPresentationTime(qFTP[outPts].pTime);
-    dst->setDecodeTime(qFTP[dts].pTime);
+    lastDecodeTime = getDecodeTime();
+    dst->setDecodeTime(lastDecodeTime);
     dst->setOriginTime(qFTP[outPts].oTime);
     dst->setSequenceNumber(qFTP[outPts].seqNum);
     
@@ -111,6 +112,33 @@ bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
     return true;
 }
 
+std::chrono::microseconds VideoEncoderX264or5::getDecodeTime()
+{
+    std::chrono::microseconds first, floor;
+    int64_t steps = firstPts - dts;
+
+    if (steps <= 0) {
+        return qFTP[dts].pTime;
+    }
+
+    //When pictures are reordered the first ones are decoded before any of them is presented
+    first = qFTP[firstPts].pTime;
+    floor = first - std::chrono::microseconds(std::micro::den/fps)*(steps + 1);
+
+    if (lastDecodeTime != NO_DTS && lastDecodeTime > floor && lastDecodeTime < first) {
+        floor = lastDecodeTime;
+    }
+
+    return floor + (first - floor)/(steps + 1);
+}
+
+void VideoEncoderX264or5::encoderStarted()
+{
+    //The pictures that were in the previous encoder are gone
+    qFTP.clear();
+    firstPts = inPts;
+}
+
 //TODO: this should be done without libav
 bool VideoEncoderX264or5::fill_x264or5_picture(VideoFrame* videoFrame)
 {
diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.hh b/src/modules/videoEncoder/VideoEncoderX264or5.hh
index e7058ac..be7c52e 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.hh
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.hh
@@ -95,6 +95,7 @@ protected:
     virtual bool reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame) = 0;
     void setIntra(){forceIntra = true;};
     bool fill_x264or5_picture(VideoFrame* videoFrame);
+    void encoderStarted();
 
     bool configure0(int bitrate_, int fps_, int gop_, 
                     int lookahead_, int bFrames_, int threads_,
@@ -105,6 +106,7 @@ private:
     bool forceIntraEvent(Jzon::Node* params);
     bool configEvent(Jzon::Node* params);
     void doGetState(Jzon::Object &filterNode);
+    std::chrono::microseconds getDecodeTime();
     
     //There is no need of specific reader configuration
     bool specificReaderConfig(int /*readerID*/, FrameQueue* /*queue*/)  {return true;};
@@ -121,6 +123,8 @@ private:
     };
     
     std::map<int64_t, FrameTimeParams> qFTP;
+    int64_t firstPts;
+    std::chrono::microseconds lastDecodeTime;
 };
 
 #endif
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index f1ac775..8ad44ad 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -214,6 +214,7 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
     x265_picture_init(xparams, picOut);
 
     needsConfig = false;
+    encoderStarted();
 
     return encodeHeadersFrame();
 }
-- 
2.43.0


From c8bc43abafadd2fec0ad706d41db17085cfe634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 080/121] fix: the number of B frames configured was ignored by
 x264

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index 9e56bb5..97170f7 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -170,7 +170,7 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
     x264_param_parse(&xparams, "threads", std::to_string(threads).c_str());
     x264_param_parse(&xparams, "aud", std::to_string(1).c_str());
     x264_param_parse(&xparams, "bitrate", std::to_string(bitrate).c_str());
-    if (bFrames < 0){
+    if (bFrames >= 0){
         x264_param_parse(&xparams, "bframes", std::to_string(bFrames).c_str());
     }
     x264_param_parse(&xparams, "open-gop", std::to_string(0).c_str());
-- 
2.43.0


From 0ccd25bd0cc878572e912dac0347154a343eded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:16 +0000
Subject: [PATCH 081/121] fix: segments of reordered pictures (B frames) take
 their durations and decode time from decode times

The duration of the last picture of a segment, tfdt and the discard of
frames previous to the session mixed presentation with decode times.
---
 src/modules/dasher/DashVideoSegmenter.cpp | 13 ++++---------
 src/modules/dasher/Dasher.cpp             |  4 ++--
 src/modules/dasher/i2context.h            |  2 +-
 src/modules/dasher/i2libdash.c            |  4 ++--
 src/modules/dasher/i2libdash.h            |  2 +-
 src/modules/dasher/i2libisoff.c           | 16 ++++++++--------
 6 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/modules/dasher/DashVideoSegmenter.cpp b/src/modules/dasher/DashVideoSegmenter.cpp
index 8b2ecf1..78fc108 100644
--- a/src/modules/dasher/DashVideoSegmenter.cpp
+++ b/src/modules/dasher/DashVideoSegmenter.cpp
@@ -118,11 +118,11 @@ bool DashVideoSegmenter::generateInitSegment(DashSegment* segment)
 unsigned DashVideoSegmenter::customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameTs, 
                                                     uint64_t &segTimestamp, uint32_t &segDuration, bool force)
 {
-    uint64_t timeBasePts;
+    uint64_t timeBaseDts;
 
-    timeBasePts = microsToTimeBase(nextFrameTs);
+    timeBaseDts = microsToTimeBase(nextFrameTs);
 
-    return generate_video_segment(isPreviousFrameIntra(), timeBasePts, segBuffer, &dashContext, &segTimestamp, &segDuration);
+    return generate_video_segment(isPreviousFrameIntra(), timeBaseDts, segBuffer, &dashContext, &segTimestamp, &segDuration);
 }
 
 bool DashVideoSegmenter::appendFrameToDashSegment(Frame* frame)
@@ -139,13 +139,8 @@ bool DashVideoSegmenter::appendFrameToDashSegment(Frame* frame)
     }
     
     timeBasePts = microsToTimeBase(vFrame->getPresentationTime());
-    if (vFrame->getDecodeTime() == NO_DTS) {
-        timeBaseDts = timeBasePts;
-    } else {
-        timeBaseDts = microsToTimeBase(vFrame->getDecodeTime());
-    }
+    timeBaseDts = microsToTimeBase(vFrame->getFrameTime());
 
-    //TODO: test it with bFrames
     addSampleReturn = add_video_sample(vFrame->getDataBuf(), vFrame->getLength(), timeBasePts, 
                                         timeBaseDts, sequenceNumber, isPreviousFrameIntra(), &dashContext);
 
diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 9d2a211..8c6360f 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -128,7 +128,7 @@ bool Dasher::doProcessFrame(std::map<int, Frame*> &orgFrames, std::vector<int> n
             continue;
         }
 
-        if (orgFrames[id]->getPresentationTime() < timestampOffset) {
+        if (orgFrames[id]->getFrameTime() < timestampOffset) {
             utils::warningMsg("[Dasher::doProcessFrame] Frame previous to the beginning of the session, discarded");
             continue;
         }
@@ -704,7 +704,7 @@ bool DashSegmenter::generateSegment(DashSegment* segment, Frame* frame, bool for
     }
 
     if (frame) {
-        frameTs = frame->getPresentationTime();
+        frameTs = frame->getFrameTime();
     }
 
     segmentSize = customGenerateSegment(segment->getDataBuffer(), frameTs, segTimestamp, segDuration, force);
diff --git a/src/modules/dasher/i2context.h b/src/modules/dasher/i2context.h
index 3cb8613..06db6de 100644
--- a/src/modules/dasher/i2context.h
+++ b/src/modules/dasher/i2context.h
@@ -58,7 +58,7 @@ typedef struct {
     uint64_t        presentation_timestamp;
     unsigned        key:1;//Flags mp4parser.com
     uint32_t        index;
-    uint64_t        decode_timestamp;//Not properly used, be careful if using B-Frames
+    uint64_t        decode_timestamp;
 } mdat_sample;
 
 typedef struct {
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 5f58c6f..17464ed 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -320,7 +320,7 @@ uint32_t init_audio_handler(byte *input_data, uint32_t size_input, byte *output_
     return initAudio;
 }
 
-uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts, byte *output_data, 
+uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFrameDts, byte *output_data, 
                                  i2ctx **context, uint64_t* segmentTimestamp, uint32_t* segmentDuration)
 {
     uint32_t segDataLength;
@@ -351,7 +351,7 @@ uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts,
         return segDataLength;
     }
 
-    lastSampleDuration = nextFramePts - (*context)->ctxvideo->ctxsample->mdat[sampleIdx].presentation_timestamp;
+    lastSampleDuration = nextFrameDts - (*context)->ctxvideo->ctxsample->mdat[sampleIdx].decode_timestamp;
 
     if ((nextFrameIsIntra == TRUE) && ((*context)->duration <= ((*context)->ctxvideo->current_video_duration + 2*(uint64_t)lastSampleDuration))) {
         (*context)->ctxvideo->ctxsample->mdat[sampleIdx].duration = lastSampleDuration;
diff --git a/src/modules/dasher/i2libdash.h b/src/modules/dasher/i2libdash.h
index 785329f..9ff653b 100644
--- a/src/modules/dasher/i2libdash.h
+++ b/src/modules/dasher/i2libdash.h
@@ -61,7 +61,7 @@ void set_sample_rate(uint32_t sample_rate, i2ctx **context);
 
 uint32_t get_sample_rate(i2ctx *context);
 
-uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts, byte *output_data, 
+uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFrameDts, byte *output_data, 
                                  i2ctx **context, uint64_t* segmentTimestamp, uint32_t* segmentDuration);
 
 uint32_t generate_audio_segment(byte *output_data, i2ctx **context, uint64_t* segmentTimestamp, uint32_t* segmentDuration);
diff --git a/src/modules/dasher/i2libisoff.c b/src/modules/dasher/i2libisoff.c
index 18aaf81..5b612ff 100644
--- a/src/modules/dasher/i2libisoff.c
+++ b/src/modules/dasher/i2libisoff.c
@@ -1853,24 +1853,24 @@ uint32_t write_tfhd(byte *data, uint32_t media_type, i2ctx *context) {
 
 uint32_t write_tfdt(byte *data, uint32_t media_type, i2ctx *context) {
     uint32_t count, version, size, hton_size;
-    uint64_t earliest_presentation_time, hton_earliest_presentation_time;
+    uint64_t decode_time, hton_decode_time;
 
     i2ctx_video *ctxVideo = context->ctxvideo;
     i2ctx_audio *ctxAudio = context->ctxaudio;
-    earliest_presentation_time = 0;
+    decode_time = 0;
 
     if ((media_type == VIDEO_TYPE_AVC) || (media_type == VIDEO_TYPE_HEVC)) {
-        earliest_presentation_time = ctxVideo->earliest_presentation_time;
+        decode_time = ctxVideo->ctxsample->mdat[0].decode_timestamp;
     }
     else if (media_type == AUDIO_TYPE) {
-        earliest_presentation_time = ctxAudio->earliest_presentation_time;
+        decode_time = ctxAudio->earliest_presentation_time;
     }
 
     count = 0;
     version = 1;
 
     // Size
-    size = sizeof(size) + BOX_TYPE_SIZE + sizeof(version) + sizeof(earliest_presentation_time);
+    size = sizeof(size) + BOX_TYPE_SIZE + sizeof(version) + sizeof(decode_time);
     hton_size = htonl(size);
     memcpy(data + count, &hton_size, sizeof(size));
     count+= sizeof(size);
@@ -1884,9 +1884,9 @@ uint32_t write_tfdt(byte *data, uint32_t media_type, i2ctx *context) {
     count+= sizeof(version);
     
     // baseMediaDecodeTime
-    hton_earliest_presentation_time = htonl_64(earliest_presentation_time);
-    memcpy(data + count, &hton_earliest_presentation_time, sizeof(earliest_presentation_time));
-    count+= sizeof(earliest_presentation_time);
+    hton_decode_time = htonl_64(decode_time);
+    memcpy(data + count, &hton_decode_time, sizeof(decode_time));
+    count+= sizeof(decode_time);
 
     return count;
 }
-- 
2.43.0


From 3d7aa0b93afbe0b611a5f57a133c59b96f1ba4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:12 +0000
Subject: [PATCH 082/121] fix: what a SharedMemory filter that could not be
 created had allocated was left behind

---
 src/modules/sharedMemory/SharedMemory.cpp | 11 +++++++----
 src/modules/sharedMemory/SharedMemory.hh  |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index c04eb39..9f9c049 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -33,6 +33,7 @@ SharedMemory* SharedMemory::createNew(size_t key_, VCodecType codec)
     if(shm->isEnabled()){
         return shm;
     }
+    delete shm;
     return NULL;
 }
 
@@ -48,11 +49,12 @@ SharedMemory* SharedMemory::createNew(VCodecType codec)
     if(shm->isEnabled()){
         return shm;
     }
+    delete shm;
     return NULL;
 }
 
 SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
-    OneToOneFilter(), enabled(true), newFrame(false), codec(codec_)
+    OneToOneFilter(), sharedMemoryId(-1), SharedMemoryOrigin(NULL), enabled(true), newFrame(false), codec(codec_)
 {
 
     if(!(codec == RAW || codec == H264)){
@@ -63,7 +65,7 @@ SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
         return;
     }
 
-    if ((sharedMemoryId = shmget(key_, SHMSIZE, (IPC_EXCL | IPC_CREAT ) | 0666)) == (size_t)-1) {
+    if ((sharedMemoryId = shmget(key_, SHMSIZE, (IPC_EXCL | IPC_CREAT ) | 0666)) == -1) {
         utils::errorMsg("SharedMemory::shmget error - filter not created - "
                 "might be already created (Key:" + std::to_string(key_) +
                 " Codec: " + utils::getVideoCodecAsString(codec_) + ")");
@@ -73,6 +75,7 @@ SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
 
     if ((SharedMemoryOrigin = (uint8_t*) shmat(sharedMemoryId, NULL, 0)) == (uint8_t *) -1) {
         utils::errorMsg("SharedMemory::shmat error - filter not created");
+        SharedMemoryOrigin = NULL;
         enabled = false;
         return;
     }
@@ -102,10 +105,10 @@ SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
 
 SharedMemory::~SharedMemory()
 {
-    if(shmctl (sharedMemoryId , IPC_RMID , 0) != 0){
+    if(sharedMemoryId != -1 && shmctl (sharedMemoryId , IPC_RMID , 0) != 0){
         utils::errorMsg("SharedMemory::shmctl error - Could not set IPC_RMID flag to shared memory segment ID");
     }
-    if(shmdt(SharedMemoryOrigin) != 0){
+    if(SharedMemoryOrigin && shmdt(SharedMemoryOrigin) != 0){
         utils::errorMsg("SharedMemory::shmdt error - Could not detach memory segment");
     }
 }
diff --git a/src/modules/sharedMemory/SharedMemory.hh b/src/modules/sharedMemory/SharedMemory.hh
index cc6d783..13df1ba 100644
--- a/src/modules/sharedMemory/SharedMemory.hh
+++ b/src/modules/sharedMemory/SharedMemory.hh
@@ -130,7 +130,7 @@ private:
 
 private:
     unsigned    sharedMemoryKey;
-    unsigned    sharedMemoryId;
+    int         sharedMemoryId;
     uint8_t     *SharedMemoryOrigin;
     uint8_t     *buffer;
     uint8_t     *access;
-- 
2.43.0


From 2499c15c33da6b077ed8dcb7e1cc44cabe727136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:52 +0000
Subject: [PATCH 083/121] fix: SharedMemory shared H.264 pictures with the
 header of the next one and overflowed with large pictures

The header is that of the first NAL unit of the picture; pictures that do not
fit in the segment are left out whole (without access unit delimiters the
data grew for ever); empty units are not read beyond their end nor shared.
---
 src/modules/sharedMemory/SharedMemory.cpp | 61 +++++++++++++++++------
 src/modules/sharedMemory/SharedMemory.hh  |  4 ++
 2 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 9f9c049..f9dd637 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -54,7 +54,7 @@ SharedMemory* SharedMemory::createNew(VCodecType codec)
 }
 
 SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
-    OneToOneFilter(), sharedMemoryId(-1), SharedMemoryOrigin(NULL), enabled(true), newFrame(false), codec(codec_)
+    OneToOneFilter(), sharedMemoryId(-1), SharedMemoryOrigin(NULL), enabled(true), newFrame(false), discardFrame(false), codec(codec_)
 {
 
     if(!(codec == RAW || codec == H264)){
@@ -122,7 +122,7 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
         if(vframe->getCodec() == H264){
             if(vframe->getSequenceNumber() != seqNum && newFrame){
                 seqNum = vframe->getSequenceNumber();
-                frameData.clear();
+                clearFrameData();
             }
             parseNal(vframe, newFrame);
         }
@@ -132,14 +132,19 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
     switch(vframe->getCodec()){
         case H264:
             if(vframe->getSequenceNumber() != seqNum && newFrame){
-                writeFramePayload(vframe);
-                writeSharedMemoryH264();
+                if(!frameData.empty()){
+                    writeSharedMemoryH264();
+                }
                 seqNum = vframe->getSequenceNumber();
-                frameData.clear();
+                clearFrameData();
             }
             parseNal(vframe, newFrame);
             break;
         case RAW:
+            if(vframe->getLength() > MAX_SIZE){
+                utils::errorMsg("SharedMemory::error - frame does not fit in the shared memory");
+                break;
+            }
             writeFramePayload(vframe);
             writeSharedMemoryRAW(vframe->getDataBuf(), vframe->getLength());
             break;
@@ -202,6 +207,7 @@ void SharedMemory::writeSharedMemoryH264()
     }
 
     *access = CHAR_WRITING;
+    memcpy(access+2, frameHeader+2, HEADER_SIZE-2);
     memcpy(access+20, &length, sizeof(uint32_t));
     memcpy(buffer, data, sizeof(uint8_t) * dataLength);
     *access = CHAR_READING;
@@ -213,6 +219,7 @@ bool SharedMemory::parseNal(VideoFrame* nal, bool &newFrame)
     int startCodeOffset;
     unsigned char* nalData;
     int nalDataLength;
+    bool firstNal;
 
     startCodeOffset = detectStartCode(nal->getDataBuf());
 
@@ -224,19 +231,31 @@ bool SharedMemory::parseNal(VideoFrame* nal, bool &newFrame)
     nalData = nal->getDataBuf();
     nalDataLength = nal->getLength();
 
-    if (!nalData || nalDataLength <= 0) {
+    if (!nalData || nalDataLength <= startCodeOffset) {
         utils::errorMsg("Error parsing NAL: invalid data pointer or length");
         return false;
     }
 
+    firstNal = frameData.empty();
+
     if (!appendNalToFrame(nalData, nalDataLength, startCodeOffset, newFrame)) {
         utils::errorMsg("Error parsing NAL: invalid NALU type");
         return false;
     }
 
+    if (firstNal) {
+        fillHeader(nal, frameHeader);
+    }
+
     return true;
 }
 
+void SharedMemory::clearFrameData()
+{
+    frameData.clear();
+    discardFrame = false;
+}
+
 int SharedMemory::detectStartCode(unsigned char const* ptr)
 {
     u_int32_t bytes = 0|(ptr[0]<<16)|(ptr[1]<<8)|ptr[2];
@@ -281,7 +300,14 @@ bool SharedMemory::appendNalToFrame(unsigned char* nalData, unsigned nalDataLeng
             return false;
     }
 
-    if (nalType != AUD) {
+    if (nalType != AUD && !discardFrame) {
+        if (frameData.size() + sizeof(start_code) + nalDataLength - startCodeOffset > MAX_SIZE) {
+            utils::errorMsg("SharedMemory::error - frame does not fit in the shared memory");
+            frameData.clear();
+            discardFrame = true;
+            return true;
+        }
+
         frameData.insert(frameData.end(), start_code, start_code + sizeof(start_code));
         frameData.insert(frameData.end(), nalData + startCodeOffset, nalData + nalDataLength);
     }
@@ -300,6 +326,11 @@ int SharedMemory::writeSharedMemoryRAW(uint8_t *buf, int buf_size)
 }
 
 void SharedMemory::writeFramePayload(InterleavedVideoFrame *frame) 
+{
+    fillHeader(frame, access);
+}
+
+void SharedMemory::fillHeader(VideoFrame *frame, uint8_t *header)
 {
     uint32_t tv_sec = frame->getPresentationTime().count()/std::micro::den;
     uint32_t tv_usec = frame->getPresentationTime().count()%std::micro::den;
@@ -310,14 +341,14 @@ void SharedMemory::writeFramePayload(InterleavedVideoFrame *frame)
     uint16_t pixFmt = getPixelFormatFromPixType(frame->getPixelFormat());
     uint16_t seqN = frame->getSequenceNumber();
 
-    memcpy(access+2, &seqN, sizeof(uint16_t));
-    memcpy(access+4, &pixFmt, sizeof(uint16_t));
-    memcpy(access+6, &codec, sizeof(uint16_t));
-    memcpy(access+8, &height, sizeof(uint16_t));
-    memcpy(access+10, &width, sizeof(uint16_t));
-    memcpy(access+12, &tv_sec, sizeof(uint32_t));
-    memcpy(access+16, &tv_usec, sizeof(uint32_t));
-    memcpy(access+20, &length, sizeof(uint32_t));
+    memcpy(header+2, &seqN, sizeof(uint16_t));
+    memcpy(header+4, &pixFmt, sizeof(uint16_t));
+    memcpy(header+6, &codec, sizeof(uint16_t));
+    memcpy(header+8, &height, sizeof(uint16_t));
+    memcpy(header+10, &width, sizeof(uint16_t));
+    memcpy(header+12, &tv_sec, sizeof(uint32_t));
+    memcpy(header+16, &tv_usec, sizeof(uint32_t));
+    memcpy(header+20, &length, sizeof(uint32_t));
 }
 
 bool SharedMemory::isWritable() {
diff --git a/src/modules/sharedMemory/SharedMemory.hh b/src/modules/sharedMemory/SharedMemory.hh
index 13df1ba..5dc92e4 100644
--- a/src/modules/sharedMemory/SharedMemory.hh
+++ b/src/modules/sharedMemory/SharedMemory.hh
@@ -92,6 +92,8 @@ protected:
     bool isEnabled() {return enabled;};
     void writeSharedMemoryH264();
     bool appendNalToFrame(unsigned char* nalData, unsigned nalDataLength, int startCodeOffset, bool &newFrame);
+    void clearFrameData();
+    void fillHeader(VideoFrame *frame, uint8_t *header);
     bool parseNal(VideoFrame* nal, bool &newFrame);
     int detectStartCode(unsigned char const* ptr);
     int writeSharedMemoryRAW(uint8_t *buffer, int buffer_size);
@@ -136,7 +138,9 @@ private:
     uint8_t     *access;
     bool        enabled;
     bool        newFrame;
+    bool        discardFrame;
     std::vector<unsigned char>    frameData;
+    uint8_t     frameHeader[HEADER_SIZE];
     VCodecType const              codec;
     uint16_t                      seqNum;
 };
-- 
2.43.0


From f7e114669c2432097def0959fb33bad942f03f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:00 +0000
Subject: [PATCH 084/121] fix: pictures captured had no length, and compressed
 or planar ones were not copied whole

---
 src/modules/V4LCapture/V4LCapture.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index d5c2c2c..2be28fa 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -213,6 +213,7 @@ bool V4LCapture::readFrame(VideoFrame *dstFrame)
 {
 
     struct v4l2_buffer buf;
+    bool fits;
 
     CLEAR(buf);
 
@@ -223,16 +224,22 @@ bool V4LCapture::readFrame(VideoFrame *dstFrame)
         return false;
     }
     
-    memcpy(dstFrame->getDataBuf(), buffers[buf.index].data, 
-               fmt.fmt.pix.height * fmt.fmt.pix.bytesperline);
-    dstFrame->setSize(fmt.fmt.pix.width, fmt.fmt.pix.height);
-    dstFrame->setPixelFormat(oStreamInfo->video.pixelFormat);
+    fits = buf.bytesused > 0 && buf.bytesused <= dstFrame->getMaxLength();
+
+    if (fits) {
+        memcpy(dstFrame->getDataBuf(), buffers[buf.index].data, buf.bytesused);
+        dstFrame->setLength(buf.bytesused);
+        dstFrame->setSize(fmt.fmt.pix.width, fmt.fmt.pix.height);
+        dstFrame->setPixelFormat(oStreamInfo->video.pixelFormat);
+    } else {
+        utils::warningMsg("Empty picture or too large for the frame, discarded");
+    }
     
     if (xioctl(fd, VIDIOC_QBUF, &buf) < 0){
         return false;
     }
 
-    return true;
+    return fits;
 }
 
 bool V4LCapture::openDevice(std::string device)
@@ -416,6 +423,8 @@ bool V4LCapture::initDevice(unsigned& xres, unsigned& yres, unsigned& den, std::
     oStreamInfo->video.pixelFormat = pixelType(fmt.fmt.pix.pixelformat);
     if (oStreamInfo->video.pixelFormat == P_NONE){
         oStreamInfo->video.codec = codecType(fmt.fmt.pix.pixelformat);
+    } else {
+        oStreamInfo->video.codec = RAW;
     }
     
     CLEAR(fps);
@@ -596,6 +605,9 @@ static PixType pixelType(unsigned pixelFormat)
         case V4L2_PIX_FMT_YUV420:
             return YUV420P;
             break;
+        case V4L2_PIX_FMT_YUV422P:
+            return YUV422P;
+            break;
         case V4L2_PIX_FMT_RGB24:
             return RGB24;
             break;
-- 
2.43.0


From 8f2dc06ad82795a0c67e6740c76aefd6b785dce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:00 +0000
Subject: [PATCH 085/121] fix: reconfiguring a capturing device used the format
 flag as frame rate, and impossible rates ended the process

---
 src/modules/V4LCapture/V4LCapture.cpp | 36 ++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 2be28fa..17fcfde 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -60,12 +60,18 @@ V4LCapture::~V4LCapture()
 
 bool V4LCapture::configure(std::string device, unsigned width, unsigned height, unsigned fps, std::string format, bool fFormat)
 {
+    if (fps == 0 || fps > std::micro::den){
+        utils::errorMsg("Invalid frame rate");
+        return false;
+    }
+
     forceFormat = fFormat;
     switch (status) {
         case CLOSE:
             if (!openDevice(device)){
                 return false;
             }
+            this->device = device;
         case OPEN:
             if (!initDevice(width, height, fps, format)){
                 releaseDevice();
@@ -78,13 +84,13 @@ bool V4LCapture::configure(std::string device, unsigned width, unsigned height,
             }
             break;
         case CAPTURE:
-            if (stopCapturing() && uninitDevice()){
-                return configure(device, width, height, fFormat);
-            }
-            break;
+            releaseDevice();
+            return configure(device, width, height, fps, format, fFormat);
     }
     
     frameDuration = std::chrono::microseconds((int)(std::micro::den/fps));
+    frameCount = 0;
+    durationCount = std::chrono::microseconds(0);
     
     return true;
 }
@@ -346,6 +352,7 @@ bool V4LCapture::initDevice(unsigned& xres, unsigned& yres, unsigned& den, std::
     struct v4l2_cropcap cropcap;
     struct v4l2_crop crop;
     struct v4l2_streamparm fps;
+    unsigned setFps = 0;
     
     if (status != OPEN){
         return false;
@@ -438,10 +445,15 @@ bool V4LCapture::initDevice(unsigned& xres, unsigned& yres, unsigned& den, std::
         return false;
     }
     
-    if (fps.parm.capture.timeperframe.denominator != den){
+    if (fps.parm.capture.timeperframe.numerator > 0){
+        setFps = (fps.parm.capture.timeperframe.denominator + fps.parm.capture.timeperframe.numerator/2)
+            / fps.parm.capture.timeperframe.numerator;
+    }
+
+    if (setFps > 0 && setFps <= std::micro::den && setFps != den){
         utils::warningMsg("Couldn't set fps to " + std::to_string(den) + ". Set to " 
-            + std::to_string(fps.parm.capture.timeperframe.denominator));
-        den = fps.parm.capture.timeperframe.denominator;
+            + std::to_string(setFps));
+        den = setFps;
     }
 
     if (!init_mmap()){
@@ -561,17 +573,23 @@ void V4LCapture::doGetState(Jzon::Object &filterNode)
 bool V4LCapture::configureEvent(Jzon::Node* params)
 {
     utils::infoMsg("V4LCapture configure event");
-    if (!params->Has("device") || !params->Has("width") ||
+    if (!params || !params->Has("device") || !params->Has("width") ||
         !params->Has("height") || !params->Has("fps")) {
         return false;
     }
     
-    if (!params->Get("width").IsNumber() || 
+    if (!params->Get("device").IsString() ||
+        (params->Has("format") && !params->Get("format").IsString()) ||
+        !params->Get("width").IsNumber() || 
         !params->Get("height").IsNumber() ||
         !params->Get("fps").IsNumber() ||
         (params->Has("forceformat") && !params->Get("forceformat").IsBool())) {
         return false;
     }
+
+    if (params->Get("width").ToInt() < 0 || params->Get("height").ToInt() < 0 || params->Get("fps").ToInt() <= 0) {
+        return false;
+    }
     
     return configure(params->Get("device").ToString(), 
               params->Get("width").ToInt(), 
-- 
2.43.0


From 35142422ccad45db16ca0665bb0496f840a1f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:38 +0000
Subject: [PATCH 086/121] fix: a device that cannot be stopped or mapped was
 not closed, and the mappings and the stream info leaked

---
 src/modules/V4LCapture/V4LCapture.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 17fcfde..e31a9f8 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -56,6 +56,7 @@ V4LCapture::V4LCapture() : HeadFilter(1, REGULAR, true), status(CLOSE), forceFor
 V4LCapture::~V4LCapture()
 {
     releaseDevice();
+    delete oStreamInfo;
 }
 
 bool V4LCapture::configure(std::string device, unsigned width, unsigned height, unsigned fps, std::string format, bool fFormat)
@@ -111,7 +112,8 @@ bool V4LCapture::releaseDevice()
     switch (status) {
         case CAPTURE:
             if (!stopCapturing()){
-                return false;
+                //NOTE: closing the device stops it anyway
+                status = INIT;
             }
         case INIT:
             if (!uninitDevice()){
@@ -303,6 +305,8 @@ bool V4LCapture::init_mmap(void)
           return false;
       }
 
+      status = INIT;
+
       for (n_buffers = 0; n_buffers < req.count; ++n_buffers) {
             struct v4l2_buffer buf;
 
@@ -456,13 +460,7 @@ bool V4LCapture::initDevice(unsigned& xres, unsigned& yres, unsigned& den, std::
         den = setFps;
     }
 
-    if (!init_mmap()){
-        return false;
-    }
-    
-    status = INIT;
-    
-    return true;
+    return init_mmap();
 }
 
 bool V4LCapture::uninitDevice(void)
-- 
2.43.0


From 0545f9e0ef368a839b4da8f9b6c9c1b43a5bbde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:19 +0000
Subject: [PATCH 087/121] fix: the video decoder used a freed or missing codec
 context after a failed (re)configuration

---
 src/modules/videoDecoder/VideoDecoderLibav.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoDecoder/VideoDecoderLibav.cpp b/src/modules/videoDecoder/VideoDecoderLibav.cpp
index ddff4f2..36eed71 100644
--- a/src/modules/videoDecoder/VideoDecoderLibav.cpp
+++ b/src/modules/videoDecoder/VideoDecoderLibav.cpp
@@ -85,7 +85,9 @@ bool VideoDecoderLibav::doProcessFrame(Frame *org, Frame *dst)
 
         if(len < 0) {
             utils::errorMsg("Decoding video frame, reconfiguring decoder");
-            inputConfig();
+            if (!inputConfig()) {
+                psi.fCodec = VC_NONE;
+            }
             return false;
         }
 
@@ -137,6 +139,7 @@ bool VideoDecoderLibav::inputConfig()
     if (codecCtx != NULL) {
         avcodec_close(codecCtx);
         av_free(codecCtx);
+        codecCtx = NULL;
     }
 
     codec = avcodec_find_decoder(libavCodecId);
@@ -211,7 +214,7 @@ bool VideoDecoderLibav::toBuffer(VideoFrame *decodedFrame, VideoFrame *codedFram
 
 bool VideoDecoderLibav::reconfigure(VCodecType codec)
 {
-    if (psi.fCodec == codec) {
+    if (codec != VC_NONE && psi.fCodec == codec) {
         return true;
     }
 
@@ -219,6 +222,7 @@ bool VideoDecoderLibav::reconfigure(VCodecType codec)
 
     if(!inputConfig()) {
         utils::errorMsg("Configuring decoder");
+        psi.fCodec = VC_NONE;
         return false;
     }
     
-- 
2.43.0


From ebfffd6825365fbda470254a7e431d884b447e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:19 +0000
Subject: [PATCH 088/121] fix: decoded pictures larger than the output frame
 were written beyond it

---
 src/modules/videoDecoder/VideoDecoderLibav.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/videoDecoder/VideoDecoderLibav.cpp b/src/modules/videoDecoder/VideoDecoderLibav.cpp
index 36eed71..e384b4b 100644
--- a/src/modules/videoDecoder/VideoDecoderLibav.cpp
+++ b/src/modules/videoDecoder/VideoDecoderLibav.cpp
@@ -183,6 +183,12 @@ bool VideoDecoderLibav::toBuffer(VideoFrame *decodedFrame, VideoFrame *codedFram
 {
     int ret, length;
     
+    length = av_image_get_buffer_size((AVPixelFormat) frame->format, frame->width, frame->height, 1);
+    if (length <= 0 || (unsigned) length > decodedFrame->getMaxLength()){
+        utils::errorMsg("Decoded frame does not fit in the output frame");
+        return false;
+    }
+
     length = av_image_fill_arrays(frameCopy->data, frameCopy->linesize, decodedFrame->getDataBuf(), 
                             (AVPixelFormat) frame->format, frame->width, frame->height, 1); 
     if (length <= 0){
-- 
2.43.0


From 89e3dc983cadba6e948cc9dd98cbe15831d5cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:19 +0000
Subject: [PATCH 089/121] fix: the video decoder never returned when the codec
 could not decode anything of a frame

---
 src/modules/videoDecoder/VideoDecoderLibav.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/videoDecoder/VideoDecoderLibav.cpp b/src/modules/videoDecoder/VideoDecoderLibav.cpp
index e384b4b..4fdbf1b 100644
--- a/src/modules/videoDecoder/VideoDecoderLibav.cpp
+++ b/src/modules/videoDecoder/VideoDecoderLibav.cpp
@@ -104,6 +104,10 @@ bool VideoDecoderLibav::doProcessFrame(Frame *org, Frame *dst)
             }
         }
         
+        if (len == 0 && !gotFrame) {
+            return false;
+        }
+
         if (pkt.data){
             pkt.size -= len;
             pkt.data += len;
-- 
2.43.0


From 19737b588b593ee065701e2c1de8736805838667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 090/121] fix: the audio ring could be created with more
 channels than it has room for and overflowed its output frame when asked for
 long frames

---
 src/AudioCircularBuffer.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 9fc1404..ebd83fb 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -178,7 +178,7 @@ Frame* AudioCircularBuffer::forceGetFront()
 
 bool AudioCircularBuffer::setup()
 {
-    if (channels <= 0 || sampleRate <= 0 || chMaxSamples <= 0) {
+    if (channels <= 0 || channels > MAX_CHANNELS || sampleRate < 1000 || chMaxSamples <= 0) {
         return false;
     }
 
@@ -318,6 +318,18 @@ bool AudioCircularBuffer::forcePushBack(unsigned char **buffer, int samplesReque
 
 void AudioCircularBuffer::setOutputFrameSamples(int samples) 
 {
+    std::lock_guard<std::mutex> guard(mtx);
+
+    if (samples <= 0) {
+        utils::errorMsg("[Audio Circular Buffer] Output frames must have at least a sample");
+        return;
+    }
+
+    if ((unsigned) samples > outputFrame->getMaxSamples()) {
+        delete outputFrame;
+        outputFrame = PlanarAudioFrame::createNew(channels, sampleRate, samples, PCM, sampleFormat);
+    }
+
     outputFrame->setSamples(samples);
     outputFrame->setLength(samples*bytesPerSample);
 }
-- 
2.43.0


From 47ab906e7de0c08e208a5122c544b3ae4e6df65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:30 +0000
Subject: [PATCH 091/121] fix: the audio decoder used a freed, missing or
 uninitialised codec context after a failed (re)configuration

---
 .../audioDecoder/AudioDecoderLibav.cpp        | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/modules/audioDecoder/AudioDecoderLibav.cpp b/src/modules/audioDecoder/AudioDecoderLibav.cpp
index bcbb95d..a0b4898 100644
--- a/src/modules/audioDecoder/AudioDecoderLibav.cpp
+++ b/src/modules/audioDecoder/AudioDecoderLibav.cpp
@@ -61,6 +61,8 @@ AudioDecoderLibav::AudioDecoderLibav()
     pkt.size = 0;
     fType = AUDIO_DECODER;
 
+    fCodec = AC_NONE;
+    inSampleFmt = S_NONE;
     inChannels = 0;
     inSampleRate = 0;
     inFrame = av_frame_alloc();
@@ -393,11 +395,12 @@ bool AudioDecoderLibav::reconfigureDecoder(AudioFrame* frame)
         return true;
     }
 
-    fCodec = frame->getCodec();
-    inChannels = frame->getChannels();
-    inSampleRate = frame->getSampleRate();
+    //nothing can be decoded until all has succeeded
+    fCodec = AC_NONE;
+    inChannels = 0;
+    inSampleRate = 0;
 
-    switch(fCodec) {
+    switch(frame->getCodec()) {
         case PCMU:
             codecId = AV_CODEC_ID_PCM_MULAW;
             break;
@@ -425,6 +428,7 @@ bool AudioDecoderLibav::reconfigureDecoder(AudioFrame* frame)
     if (codecCtx != NULL) {
         avcodec_close(codecCtx);
         av_free(codecCtx);
+        codecCtx = NULL;
     }
 
     codec = avcodec_find_decoder(codecId);
@@ -440,15 +444,20 @@ bool AudioDecoderLibav::reconfigureDecoder(AudioFrame* frame)
         return false;
     }
 
-    codecCtx->channels = inChannels;
-    codecCtx->channel_layout = av_get_default_channel_layout(inChannels);
-    codecCtx->sample_rate = inSampleRate;
+    codecCtx->channels = frame->getChannels();
+    codecCtx->channel_layout = av_get_default_channel_layout(frame->getChannels());
+    codecCtx->sample_rate = frame->getSampleRate();
 
     AVDictionary* dictionary = NULL;
     if (avcodec_open2(codecCtx, codec, &dictionary) < 0) {
         utils::errorMsg("[DECODER] Error open context!");
+        av_free(codecCtx);
+        codecCtx = NULL;
         return false;
     }
 
+    fCodec = frame->getCodec();
+    inChannels = frame->getChannels();
+    inSampleRate = frame->getSampleRate();
     return true;
 }
-- 
2.43.0


From 9d8c48b79030a21013f083ab733604733dd8b0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:30 +0000
Subject: [PATCH 092/121] fix: the audio decoder delivered old samples for
 packets without audio, dropped all but the first frame of a packet and could
 run forever

---
 .../audioDecoder/AudioDecoderLibav.cpp        | 76 ++++++++++---------
 1 file changed, 40 insertions(+), 36 deletions(-)

diff --git a/src/modules/audioDecoder/AudioDecoderLibav.cpp b/src/modules/audioDecoder/AudioDecoderLibav.cpp
index a0b4898..3ada823 100644
--- a/src/modules/audioDecoder/AudioDecoderLibav.cpp
+++ b/src/modules/audioDecoder/AudioDecoderLibav.cpp
@@ -91,6 +91,7 @@ FrameQueue* AudioDecoderLibav::allocQueue(ConnectionData cData)
 bool AudioDecoderLibav::doProcessFrame(Frame *org, Frame *dst)
 {
     int len, gotFrame;
+    bool decoded = false;
 
     AudioFrame* aCodedFrame = dynamic_cast<AudioFrame*>(org);
     AudioFrame* aDecodedFrame = dynamic_cast<AudioFrame*>(dst);
@@ -108,19 +109,24 @@ bool AudioDecoderLibav::doProcessFrame(Frame *org, Frame *dst)
         return false;
     }   
 
+    aDecodedFrame->setSamples(0);
+    aDecodedFrame->setLength(0);
+
     while (pkt.size > 0) {
+        gotFrame = 0;
         len = avcodec_decode_audio4(codecCtx, inFrame, &gotFrame, &pkt);
 
         if(len < 0) {
             utils::errorMsg("Error decoding audio frame");
-            return false;
+            break;
         }
 
-        if (!gotFrame) {
+        pkt.size -= len;
+        pkt.data += len;
 
-            if (pkt.data) {
-                pkt.size -= len;
-                pkt.data += len;
+        if (!gotFrame) {
+            if (len == 0) {
+                break;
             }
 
             continue;
@@ -130,10 +136,18 @@ bool AudioDecoderLibav::doProcessFrame(Frame *org, Frame *dst)
 
         if (!resample(inFrame, aDecodedFrame)) {
             utils::errorMsg("Error resampling audio frame");
-            return false;
+            break;
         }
 
-        break;
+        decoded = true;
+
+        if (len == 0) {
+            break;
+        }
+    }
+
+    if (!decoded) {
+        return false;
     }
 
     dst->setConsumed(true);
@@ -253,43 +267,33 @@ bool AudioDecoderLibav::outputConfig()
 bool AudioDecoderLibav::resample(AVFrame* src, AudioFrame* dst)
 {
     int samples;
+    unsigned first = dst->getSamples();
+    unsigned char *outBuff[MAX_CHANNELS];
 
     if (dst->isPlanar()) {
-        samples = swr_convert(
-                    resampleCtx,
-                    dst->getPlanarDataBuf(),
-                    dst->getMaxSamples(),
-                    (const uint8_t**)src->data,
-                    src->nb_samples
-                  );
-
-        if (samples < 0) {
-            return false;
+        for (unsigned i = 0; i < MAX_CHANNELS; i++) {
+            outBuff[i] = dst->getPlanarDataBuf()[i] + first*bytesPerSample;
         }
-
-        dst->setLength(samples*bytesPerSample);
-        dst->setSamples(samples);
-
     } else {
+        outBuff[0] = dst->getDataBuf() + first*outChannels*bytesPerSample;
+    }
 
-        auxBuff[0] = dst->getDataBuf();
-
-        samples = swr_convert(
-                    resampleCtx,
-                    (uint8_t**)auxBuff,
-                    dst->getMaxSamples(),
-                    (const uint8_t**)src->data,
-                    src->nb_samples
-                  );
-
-        if (samples < 0) {
-            return false;
-        }
+    samples = swr_convert(
+                resampleCtx,
+                outBuff,
+                dst->getMaxSamples() - first,
+                (const uint8_t**)src->data,
+                src->nb_samples
+              );
 
-        dst->setLength(outChannels*samples*bytesPerSample);
-        dst->setSamples(samples);
+    if (samples < 0) {
+        return false;
     }
 
+    samples += first;
+    dst->setSamples(samples);
+    dst->setLength(dst->isPlanar() ? samples*bytesPerSample : outChannels*samples*bytesPerSample);
+
     return true;
 }
 
-- 
2.43.0


From 9df3fe3eb0cd491e16fe55c702aa140ebba60b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:02 +0000
Subject: [PATCH 093/121] fix: the audio decoder converted with the declared
 instead of the decoded format, ignored changes of it and wrote in another
 format than its output frame's

---
 .../audioDecoder/AudioDecoderLibav.cpp        | 194 +++++-------------
 src/modules/audioDecoder/AudioDecoderLibav.hh |  15 +-
 2 files changed, 62 insertions(+), 147 deletions(-)

diff --git a/src/modules/audioDecoder/AudioDecoderLibav.cpp b/src/modules/audioDecoder/AudioDecoderLibav.cpp
index 3ada823..f3c7c46 100644
--- a/src/modules/audioDecoder/AudioDecoderLibav.cpp
+++ b/src/modules/audioDecoder/AudioDecoderLibav.cpp
@@ -26,25 +26,24 @@
 #include <functional>
 #include <fstream>
 
-AVSampleFormat getAVSampleFormatFromtIntCode(int id)
+static AVSampleFormat getAVSampleFormat(SampleFmt sampleFormat)
 {
-    AVSampleFormat sampleFmt = AV_SAMPLE_FMT_NONE;
-
-    if (id == AV_SAMPLE_FMT_U8) {
-        sampleFmt = AV_SAMPLE_FMT_U8;
-    } else if (id == AV_SAMPLE_FMT_S16) {
-        sampleFmt = AV_SAMPLE_FMT_S16;
-    } else if (id == AV_SAMPLE_FMT_FLT) {
-        sampleFmt = AV_SAMPLE_FMT_FLT;
-    } else if (id == AV_SAMPLE_FMT_U8P) {
-        sampleFmt = AV_SAMPLE_FMT_U8P;
-    } else if (id == AV_SAMPLE_FMT_S16P) {
-        sampleFmt = AV_SAMPLE_FMT_S16P;
-    } else if (id == AV_SAMPLE_FMT_FLTP) {
-        sampleFmt = AV_SAMPLE_FMT_FLTP;
+    switch(sampleFormat){
+        case U8:
+            return AV_SAMPLE_FMT_U8;
+        case S16:
+            return AV_SAMPLE_FMT_S16;
+        case FLT:
+            return AV_SAMPLE_FMT_FLT;
+        case U8P:
+            return AV_SAMPLE_FMT_U8P;
+        case S16P:
+            return AV_SAMPLE_FMT_S16P;
+        case FLTP:
+            return AV_SAMPLE_FMT_FLTP;
+        default:
+            return AV_SAMPLE_FMT_NONE;
     }
-
-    return sampleFmt;
 }
 
 AudioDecoderLibav::AudioDecoderLibav()
@@ -62,11 +61,9 @@ AudioDecoderLibav::AudioDecoderLibav()
     fType = AUDIO_DECODER;
 
     fCodec = AC_NONE;
-    inSampleFmt = S_NONE;
     inChannels = 0;
     inSampleRate = 0;
     inFrame = av_frame_alloc();
-    inLibavSampleFmt = AV_SAMPLE_FMT_NONE;
 
     initializeEventMap();
 
@@ -132,9 +129,7 @@ bool AudioDecoderLibav::doProcessFrame(Frame *org, Frame *dst)
             continue;
         }
 
-        checkSampleFormat(inFrame->format);
-
-        if (!resample(inFrame, aDecodedFrame)) {
+        if (!resamplerConfig(inFrame, aDecodedFrame) || !resample(inFrame, aDecodedFrame)) {
             utils::errorMsg("Error resampling audio frame");
             break;
         }
@@ -161,104 +156,59 @@ bool AudioDecoderLibav::doProcessFrame(Frame *org, Frame *dst)
 
 bool AudioDecoderLibav::configure0(SampleFmt sampleFormat, int channels, int sampleRate)
 {
-    outSampleFmt = sampleFormat;
-    outChannels = channels;
-    outSampleRate = sampleRate;
-
-    switch(outSampleFmt){
-        case U8:
-            outLibavSampleFmt = AV_SAMPLE_FMT_U8;
-            bytesPerSample = av_get_bytes_per_sample(AV_SAMPLE_FMT_U8);
-            break;
-        case S16:
-            outLibavSampleFmt = AV_SAMPLE_FMT_S16;
-            bytesPerSample = av_get_bytes_per_sample(AV_SAMPLE_FMT_S16);
-            break;
-        case FLT:
-            outLibavSampleFmt = AV_SAMPLE_FMT_FLT;
-            bytesPerSample = av_get_bytes_per_sample(AV_SAMPLE_FMT_FLT);
-            break;
-        case U8P:
-            outLibavSampleFmt = AV_SAMPLE_FMT_U8P;
-            bytesPerSample = av_get_bytes_per_sample(AV_SAMPLE_FMT_U8P);
-            break;
-        case S16P:
-            outLibavSampleFmt = AV_SAMPLE_FMT_S16P;
-            bytesPerSample = av_get_bytes_per_sample(AV_SAMPLE_FMT_S16P);
-            break;
-        case FLTP:
-            outLibavSampleFmt = AV_SAMPLE_FMT_FLTP;
-            bytesPerSample = av_get_bytes_per_sample(AV_SAMPLE_FMT_FLTP);
-            break;
-        default:
-            outLibavSampleFmt = AV_SAMPLE_FMT_NONE;
-            bytesPerSample = 0;
-        break;
-    }
-
-    return outputConfig();
-
-}
-
-bool AudioDecoderLibav::inputConfig()
-{
-    resampleCtx = swr_alloc_set_opts
-                  (
-                    resampleCtx,
-                    av_get_default_channel_layout(outChannels),
-                    outLibavSampleFmt,
-                    outSampleRate,
-                    av_get_default_channel_layout(inChannels),
-                    inLibavSampleFmt,
-                    inSampleRate,
-                    0,
-                    NULL
-                  );
-
-    if (resampleCtx == NULL) {
-        utils::errorMsg("[DECODER] Error allocating resample context!");
+    if (getAVSampleFormat(sampleFormat) == AV_SAMPLE_FMT_NONE || channels <= 0 || channels > MAX_CHANNELS || sampleRate <= 0) {
+        utils::errorMsg("Error configuring audio decoder: output format not valid");
         return false;
     }
 
-    if (swr_is_initialized(resampleCtx) == 0) {
-        if (swr_init(resampleCtx) < 0) {
-            utils::errorMsg("Init context failure!");
-            return false;
-        }
-    }
+    outSampleFmt = sampleFormat;
+    outChannels = channels;
+    outSampleRate = sampleRate;
 
     return true;
 }
 
-bool AudioDecoderLibav::outputConfig()
+bool AudioDecoderLibav::resamplerConfig(AVFrame* src, AudioFrame* dst)
 {
-    if (inChannels == 0 && inSampleRate == 0) {
+    //the samples are converted from what the codec gives to what the output frame holds
+    if (resampleCtx != NULL && 
+        resInSampleFmt == src->format && resInChannels == codecCtx->channels && resInSampleRate == codecCtx->sample_rate &&
+        resOutSampleFmt == dst->getSampleFmt() && resOutChannels == dst->getChannels() && resOutSampleRate == dst->getSampleRate())
+    {
         return true;
     }
 
+    resInSampleFmt = src->format;
+    resInChannels = codecCtx->channels;
+    resInSampleRate = codecCtx->sample_rate;
+    resOutSampleFmt = dst->getSampleFmt();
+    resOutChannels = dst->getChannels();
+    resOutSampleRate = dst->getSampleRate();
+    bytesPerSample = av_get_bytes_per_sample(getAVSampleFormat(resOutSampleFmt));
+
+    swr_free(&resampleCtx);
     resampleCtx = swr_alloc_set_opts
                   (
-                    resampleCtx,
-                    av_get_default_channel_layout(outChannels),
-                    outLibavSampleFmt,
-                    outSampleRate,
-                    av_get_default_channel_layout(inChannels),
-                    inLibavSampleFmt,
-                    inSampleRate,
+                    NULL,
+                    av_get_default_channel_layout(resOutChannels),
+                    getAVSampleFormat(resOutSampleFmt),
+                    resOutSampleRate,
+                    av_get_default_channel_layout(resInChannels),
+                    (AVSampleFormat) resInSampleFmt,
+                    resInSampleRate,
                     0,
                     NULL
                   );
 
     if (resampleCtx == NULL) {
-        utils::errorMsg("[AudioDecoder::outpuConfig()] Error creating resample context");
+        utils::errorMsg("[DECODER] Error allocating resample context!");
         return false;
     }
 
-    if (swr_is_initialized(resampleCtx) == 0) {
-        if (swr_init(resampleCtx) < 0) {
-            utils::errorMsg("Init context failure!");
-            return false;
-        }
+    if (swr_init(resampleCtx) < 0) {
+        utils::errorMsg("Init context failure!");
+        swr_free(&resampleCtx);
+        return false;
     }
 
     return true;
@@ -275,7 +225,7 @@ bool AudioDecoderLibav::resample(AVFrame* src, AudioFrame* dst)
             outBuff[i] = dst->getPlanarDataBuf()[i] + first*bytesPerSample;
         }
     } else {
-        outBuff[0] = dst->getDataBuf() + first*outChannels*bytesPerSample;
+        outBuff[0] = dst->getDataBuf() + first*resOutChannels*bytesPerSample;
     }
 
     samples = swr_convert(
@@ -292,55 +242,21 @@ bool AudioDecoderLibav::resample(AVFrame* src, AudioFrame* dst)
 
     samples += first;
     dst->setSamples(samples);
-    dst->setLength(dst->isPlanar() ? samples*bytesPerSample : outChannels*samples*bytesPerSample);
+    dst->setLength(dst->isPlanar() ? samples*bytesPerSample : resOutChannels*samples*bytesPerSample);
 
     return true;
 }
 
-void AudioDecoderLibav::checkSampleFormat(int sampleFormatCode)
-{
-    AVSampleFormat sampleFormat = getAVSampleFormatFromtIntCode(sampleFormatCode);
-
-    if (inLibavSampleFmt == sampleFormat) {
-        return;
-    }
-
-    inLibavSampleFmt = sampleFormat;
-
-    switch(inLibavSampleFmt) {
-        case AV_SAMPLE_FMT_U8:
-            inSampleFmt = U8;
-            break;
-        case AV_SAMPLE_FMT_S16:
-            inSampleFmt = S16;
-            break;
-        case AV_SAMPLE_FMT_FLT:
-            inSampleFmt = FLT;
-            break;
-        case AV_SAMPLE_FMT_U8P:
-            inSampleFmt = U8P;
-            break;
-        case AV_SAMPLE_FMT_S16P:
-            inSampleFmt = S16P;
-            break;
-        case AV_SAMPLE_FMT_FLTP:
-            inSampleFmt = FLTP;
-            break;
-        default:
-            inSampleFmt = S_NONE;
-            break;
-    }
-
-    inputConfig();
-}
-
 bool AudioDecoderLibav::configEvent(Jzon::Node* params)
 {
     SampleFmt newSampleFmt = outSampleFmt;
     int newChannels = outChannels;
     int newSampleRate = outSampleRate;
 
-    if (!params) {
+    if (!params ||
+        (params->Has("sampleRate") && !params->Get("sampleRate").IsNumber()) ||
+        (params->Has("channels") && !params->Get("channels").IsNumber()) ||
+        (params->Has("sampleFormat") && !params->Get("sampleFormat").IsString())) {
         return false;
     }
 
diff --git a/src/modules/audioDecoder/AudioDecoderLibav.hh b/src/modules/audioDecoder/AudioDecoderLibav.hh
index 4e43dc2..53353bf 100644
--- a/src/modules/audioDecoder/AudioDecoderLibav.hh
+++ b/src/modules/audioDecoder/AudioDecoderLibav.hh
@@ -48,9 +48,7 @@ protected:
 private:
     void initializeEventMap();
     bool resample(AVFrame* src, AudioFrame* dst);
-    void checkSampleFormat(int sampleFormat);
-    bool inputConfig();
-    bool outputConfig();
+    bool resamplerConfig(AVFrame* src, AudioFrame* dst);
     bool reconfigureDecoder(AudioFrame* frame);
     bool configEvent(Jzon::Node* params);
     void doGetState(Jzon::Object &filterNode);
@@ -69,19 +67,20 @@ private:
     AVPacket            pkt;
     int                 gotFrame;
     SwrContext          *resampleCtx;
-    AVSampleFormat      inLibavSampleFmt;
-    AVSampleFormat      outLibavSampleFmt;
+    int                 resInSampleFmt;
+    int                 resInChannels;
+    int                 resInSampleRate;
+    SampleFmt           resOutSampleFmt;
+    unsigned            resOutChannels;
+    unsigned            resOutSampleRate;
 
     ACodecType fCodec;
-    SampleFmt inSampleFmt;
     SampleFmt outSampleFmt;
     unsigned inChannels;
     unsigned outChannels;
     unsigned inSampleRate;
     unsigned outSampleRate;
     unsigned bytesPerSample;
-    unsigned char *auxBuff[1];
-
 };
 
 #endif
-- 
2.43.0


From c52ae14dd994a87188bf82db07f988a27333f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:12 +0000
Subject: [PATCH 094/121] fix: filling an interleaved audio frame wrote beyond
 it

---
 src/AudioFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioFrame.cpp b/src/AudioFrame.cpp
index 006f687..481308d 100644
--- a/src/AudioFrame.cpp
+++ b/src/AudioFrame.cpp
@@ -78,7 +78,7 @@ InterleavedAudioFrame::~InterleavedAudioFrame()
 
 void InterleavedAudioFrame::fillWithValue(int value)
 {
-    memset(frameBuff, value, bufferMaxLen*channels);
+    memset(frameBuff, value, bufferMaxLen);
 }    
 
 
-- 
2.43.0


From 637766a3376aa06d0e848aa0aa79255e3a288867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:57 +0000
Subject: [PATCH 095/121] fix: the audio encoder could not encode PCM, PCMU nor
 MP3, could not be configured after a failed attempt and leaked

---
 .../audioEncoder/AudioEncoderLibav.cpp        | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/modules/audioEncoder/AudioEncoderLibav.cpp b/src/modules/audioEncoder/AudioEncoderLibav.cpp
index 0864ff2..ce5af41 100644
--- a/src/modules/audioEncoder/AudioEncoderLibav.cpp
+++ b/src/modules/audioEncoder/AudioEncoderLibav.cpp
@@ -63,8 +63,9 @@ AudioEncoderLibav::~AudioEncoderLibav()
     avcodec_close(codecCtx);
     av_free(codecCtx);
     swr_free(&resampleCtx);
-    av_free(libavFrame);
+    av_frame_free(&libavFrame);
     av_packet_unref(&pkt);
+    delete outputStreamInfo;
 }
 
 FrameQueue* AudioEncoderLibav::allocQueue(ConnectionData cData)
@@ -158,6 +159,11 @@ bool AudioEncoderLibav::configure0(ACodecType codec, int codedAudioChannels, int
         return false;
     }
 
+    if (codedAudioChannels <= 0 || codedAudioChannels > MAX_CHANNELS || codedAudioSampleRate <= 0) {
+        utils::errorMsg("Error configuring audio encoder: channels or sample rate not valid");
+        return false;
+    }
+
     outputStreamInfo->audio.codec = codec;
     outputStreamInfo->setCodecDefaults();
     outputStreamInfo->audio.channels = codedAudioChannels;
@@ -188,14 +194,26 @@ bool AudioEncoderLibav::configure0(ACodecType codec, int codedAudioChannels, int
         case MP3:
             codecId = AV_CODEC_ID_MP3;
             internalLibavSampleFmt = AV_SAMPLE_FMT_S16P;
-            outputStreamInfo->audio.sampleFormat = S16P;
+            outputStreamInfo->audio.sampleFormat = S16;
             break;
         default:
             codecId = AV_CODEC_ID_NONE;
             break;
     }
 
-    return codingConfig(codecId);
+    if (!codingConfig(codecId)) {
+        avcodec_close(codecCtx);
+        av_free(codecCtx);
+        codecCtx = NULL;
+        av_frame_unref(libavFrame);
+        samplesPerFrame = 0;
+        outputStreamInfo->audio.codec = AC_NONE;
+        outputStreamInfo->audio.channels = 0;
+        outputStreamInfo->audio.sampleRate = 0;
+        return false;
+    }
+
+    return true;
 }
 
 bool AudioEncoderLibav::codingConfig(AVCodecID codecId) 
@@ -243,7 +261,7 @@ bool AudioEncoderLibav::codingConfig(AVCodecID codecId)
     if (codecCtx->frame_size != 0) {
         libavFrame->nb_samples = codecCtx->frame_size;
     } else {
-        libavFrame->nb_samples = AudioFrame::getDefaultSamples(inputSampleRate);
+        libavFrame->nb_samples = AudioFrame::getDefaultSamples(outputStreamInfo->audio.sampleRate);
     }
 
     libavFrame->format = codecCtx->sample_fmt;
-- 
2.43.0


From 5e8588ef08a9a85c52b74b4d98563c2eb489c835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:57 +0000
Subject: [PATCH 096/121] fix: the audio encoder kept the first conversion when
 its input format changed, and read interleaved input through a wrong pointer

---
 src/modules/audioEncoder/AudioEncoderLibav.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/modules/audioEncoder/AudioEncoderLibav.cpp b/src/modules/audioEncoder/AudioEncoderLibav.cpp
index ce5af41..af88ca7 100644
--- a/src/modules/audioEncoder/AudioEncoderLibav.cpp
+++ b/src/modules/audioEncoder/AudioEncoderLibav.cpp
@@ -280,9 +280,10 @@ bool AudioEncoderLibav::codingConfig(AVCodecID codecId)
 
 bool AudioEncoderLibav::resamplingConfig()
 {
+    swr_free(&resampleCtx);
     resampleCtx = swr_alloc_set_opts
                   (
-                    resampleCtx,
+                    NULL,
                     av_get_default_channel_layout(outputStreamInfo->audio.channels),
                     internalLibavSampleFmt,
                     outputStreamInfo->audio.sampleRate,
@@ -301,6 +302,7 @@ bool AudioEncoderLibav::resamplingConfig()
     if (swr_is_initialized(resampleCtx) == 0) {
         if (swr_init(resampleCtx) < 0) {
             utils::errorMsg("Error initializing encoder resample context");
+            swr_free(&resampleCtx);
             return false;
         }
     }
@@ -342,10 +344,13 @@ bool AudioEncoderLibav::reconfigure(AudioFrame* frame)
                 break;
         }
 
-        return resamplingConfig();
+        if (!resamplingConfig()) {
+            inputSampleFmt = S_NONE;
+            return false;
+        }
     }
 
-    return true;
+    return inputSampleFmt != S_NONE;
 }
 
 int AudioEncoderLibav::resample(AudioFrame* src, AVFrame* dst)
@@ -369,7 +374,7 @@ int AudioEncoderLibav::resample(AudioFrame* src, AVFrame* dst)
                     resampleCtx,
                     dst->data,
                     dst->nb_samples,
-                    (const uint8_t**)auxBuff,
+                    (const uint8_t**)&auxBuff,
                     src->getSamples()
                   );
 
-- 
2.43.0


From a3fcb375b2dba35f89b8317287c93be118598481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:27 +0000
Subject: [PATCH 097/121] fix: the audio encoder encoded stale samples, ever
 later ones, when the sample rate changes, and malformed configurations ended
 the process

---
 src/AudioCircularBuffer.hh                    |  5 ++
 .../audioEncoder/AudioEncoderLibav.cpp        | 68 +++++++++++--------
 src/modules/audioEncoder/AudioEncoderLibav.hh |  1 +
 3 files changed, 47 insertions(+), 27 deletions(-)

diff --git a/src/AudioCircularBuffer.hh b/src/AudioCircularBuffer.hh
index b3194b5..62ae027 100644
--- a/src/AudioCircularBuffer.hh
+++ b/src/AudioCircularBuffer.hh
@@ -82,6 +82,11 @@ public:
      * @return max number of samples.
      */
     unsigned getChannelMaxSamples() {return chMaxSamples;};
+
+    /**
+     * returns the sample rate of the samples in the buffer.
+     */
+    unsigned getSampleRate() {return sampleRate;};
     
     /**
     * See FrameQueue::getElements
diff --git a/src/modules/audioEncoder/AudioEncoderLibav.cpp b/src/modules/audioEncoder/AudioEncoderLibav.cpp
index af88ca7..627c959 100644
--- a/src/modules/audioEncoder/AudioEncoderLibav.cpp
+++ b/src/modules/audioEncoder/AudioEncoderLibav.cpp
@@ -30,7 +30,7 @@ bool checkSampleRateSupport(AVCodec *codec, int sampleRate);
 bool checkChannelLayoutSupport(AVCodec *codec, uint64_t channelLayout);
 
 AudioEncoderLibav::AudioEncoderLibav() : OneToOneFilter(),
-        samplesPerFrame(0), internalLibavSampleFmt(AV_SAMPLE_FMT_NONE),
+        samplesPerFrame(0), pendingSamples(0), internalLibavSampleFmt(AV_SAMPLE_FMT_NONE),
         outputBitrate(0), inputChannels(0), inputSampleRate(0), inputSampleFmt(S_NONE),
         inputLibavSampleFmt(AV_SAMPLE_FMT_NONE)
 {
@@ -78,6 +78,7 @@ bool AudioEncoderLibav::doProcessFrame(Frame *org, Frame *dst)
     int ret, gotFrame, samples;
     AudioFrame* rawFrame;
     AudioFrame* codedFrame;
+    std::chrono::microseconds frameTime;
 
     rawFrame = dynamic_cast<AudioFrame*>(org);
     codedFrame = dynamic_cast<AudioFrame*>(dst);
@@ -96,14 +97,27 @@ bool AudioEncoderLibav::doProcessFrame(Frame *org, Frame *dst)
     pkt.data = codedFrame->getDataBuf();
     pkt.size = codedFrame->getMaxLength();
 
+    //the frame to encode begins with the samples that are still waiting for it
+    frameTime = org->getPresentationTime() - std::chrono::microseconds(
+        pendingSamples*std::micro::den/outputStreamInfo->audio.sampleRate + swr_get_delay(resampleCtx, std::micro::den));
+
     //resample in order to adapt to encoder constraints
     samples = resample(rawFrame, libavFrame);
 
-    if (samples <= 0) {
+    if (samples < 0) {
         utils::errorMsg("Error encoding audio frame: resampling error");
         return false;
     }
 
+    pendingSamples += samples;
+
+    if (pendingSamples < (unsigned) libavFrame->nb_samples) {
+        return false;
+    }
+
+    samples = pendingSamples;
+    pendingSamples = 0;
+
     ret = avcodec_encode_audio2(codecCtx, &pkt, libavFrame, &gotFrame);
 
     if (ret < 0) {
@@ -120,7 +134,7 @@ bool AudioEncoderLibav::doProcessFrame(Frame *org, Frame *dst)
     codedFrame->setSamples(samples);
 
     dst->setConsumed(true);
-    dst->setPresentationTime(org->getPresentationTime());
+    dst->setPresentationTime(frameTime);
     dst->setDecodeTime(NO_DTS);
     dst->setOriginTime(org->getOriginTime());
     dst->setSequenceNumber(org->getSequenceNumber());
@@ -145,7 +159,8 @@ bool AudioEncoderLibav::specificReaderConfig(int /*readerID*/, FrameQueue* queue
         return false;
     }
 
-    b->setOutputFrameSamples(samplesPerFrame);
+    //as many samples as give at most a frame once resampled
+    b->setOutputFrameSamples(std::max(1u, samplesPerFrame*b->getSampleRate()/outputStreamInfo->audio.sampleRate));
 
     return true;
 }
@@ -344,6 +359,8 @@ bool AudioEncoderLibav::reconfigure(AudioFrame* frame)
                 break;
         }
 
+        pendingSamples = 0;
+
         if (!resamplingConfig()) {
             inputSampleFmt = S_NONE;
             return false;
@@ -355,32 +372,25 @@ bool AudioEncoderLibav::reconfigure(AudioFrame* frame)
 
 int AudioEncoderLibav::resample(AudioFrame* src, AVFrame* dst)
 {
-    int samples;
-    unsigned char *auxBuff;
-
-    if (src->isPlanar()) {
-        samples = swr_convert(
-                    resampleCtx,
-                    dst->data,
-                    dst->nb_samples,
-                    (const uint8_t**)src->getPlanarDataBuf(),
-                    src->getSamples()
-                  );
+    unsigned char *inBuff = src->getDataBuf();
+    unsigned char *outBuff[AV_NUM_DATA_POINTERS] = {};
+    unsigned bytesPerSample = av_get_bytes_per_sample(internalLibavSampleFmt);
 
-    } else {
-        auxBuff = src->getDataBuf();
-
-        samples = swr_convert(
-                    resampleCtx,
-                    dst->data,
-                    dst->nb_samples,
-                    (const uint8_t**)&auxBuff,
-                    src->getSamples()
-                  );
+    if (!av_sample_fmt_is_planar(internalLibavSampleFmt)) {
+        bytesPerSample *= outputStreamInfo->audio.channels;
+    }
 
+    for (unsigned i = 0; i < AV_NUM_DATA_POINTERS && dst->data[i]; i++) {
+        outBuff[i] = dst->data[i] + pendingSamples*bytesPerSample;
     }
 
-    return samples;
+    return swr_convert(
+                resampleCtx,
+                outBuff,
+                dst->nb_samples - pendingSamples,
+                (const uint8_t**)(src->isPlanar() ? src->getPlanarDataBuf() : &inBuff),
+                src->getSamples()
+              );
 }
 
 void AudioEncoderLibav::doGetState(Jzon::Object &filterNode)
@@ -448,7 +458,11 @@ bool AudioEncoderLibav::configEvent(Jzon::Node* params)
     int codedAudioSampleRate;
     int bitrate;
 
-    if (!params) {
+    if (!params ||
+        (params->Has("codec") && !params->Get("codec").IsString()) ||
+        (params->Has("sampleRate") && !params->Get("sampleRate").IsNumber()) ||
+        (params->Has("channels") && !params->Get("channels").IsNumber()) ||
+        (params->Has("bitrate") && !params->Get("bitrate").IsNumber())) {
         return false;
     }
 
diff --git a/src/modules/audioEncoder/AudioEncoderLibav.hh b/src/modules/audioEncoder/AudioEncoderLibav.hh
index c773816..b11a71c 100644
--- a/src/modules/audioEncoder/AudioEncoderLibav.hh
+++ b/src/modules/audioEncoder/AudioEncoderLibav.hh
@@ -77,6 +77,7 @@ private:
     int                 gotFrame;
 
     unsigned            samplesPerFrame;
+    unsigned            pendingSamples;
 
     AVSampleFormat      internalLibavSampleFmt;
     int                 outputBitrate;
-- 
2.43.0


From 87c03680023ae2a168afdb40c31aa73bbaf56da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:11 +0000
Subject: [PATCH 098/121] fix: the demuxer copied packets beyond the output
 frame, read outside packets without start codes and lost short or shifted
 units

---
 src/modules/headDemuxer/HeadDemuxerLibav.cpp | 57 ++++++++++++--------
 src/modules/headDemuxer/HeadDemuxerLibav.hh  |  3 ++
 2 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.cpp b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
index 15a3b92..3c1c13d 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.cpp
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
@@ -144,6 +144,7 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
                 // No buffer has been allocated, take some precautions so we do not
                 // try to free it later on
                 bufferOffset = buffer - av_pkt.data;
+                bufferSize += bufferOffset;
                 buffer = av_pkt.data;
             }
         } else {
@@ -157,11 +158,7 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
 
     if (dstFrames.count(av_pkt.stream_index) == 0) {
         // Discard packet if output corresponding to this stream is not connected
-        if (buffer != av_pkt.data) {
-            free(buffer);
-        }
-        buffer = NULL;
-        av_packet_unref(&av_pkt);
+        discardPacket();
         return false;
     }
 
@@ -170,34 +167,45 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
 
     // Copy to destination frame, framing if necessary
     uint8_t *dst_data = f->getDataBuf();
-    int dst_size = bufferSize;
+    int start = bufferOffset;
+    int end = bufferSize;
+    int padding = 0;
     if (psi->needsFraming) {
         // Split on startcode boundaries
-        int start = findStartCode(buffer, bufferOffset, bufferSize);
+        start = findStartCode(buffer, bufferOffset, bufferSize);
         if (start == -1) {
             utils::errorMsg("Malformed Annex B stream (could not find start code)");
+            discardPacket();
+            return false;
         }
 
-        int end = findStartCode(buffer, bufferOffset + 4, bufferSize - 4);
+        end = findStartCode(buffer, start + 3, bufferSize);
         bufferOffset = end;
         if (end == -1) {
             end = bufferSize;
         }
-        dst_size = end - start;
 
         // LMS does not like short startcodes, so detect them and turn into long startcodes
-        if (buffer[start + 2] == 1) {
-            dst_data[0] = 0;
-            dst_data++;
-        }
-        memcpy(dst_data, buffer + start, dst_size);
-        if (buffer[start + 2] == 1) dst_size++;
-
+        padding = buffer[start + 2] == 1 ? 1 : 0;
     } else {
         // No conversion needed, just copy
-        memcpy (dst_data, buffer, bufferSize);
         bufferOffset = -1;
     }
+
+    int dst_size = end - start + padding;
+    if (dst_data == NULL || dst_size <= 0 || (unsigned) dst_size > f->getMaxLength()) {
+        utils::errorMsg("Demuxed frame does not fit in the output frame, discarding it");
+        if (bufferOffset == -1) {
+            discardPacket();
+        }
+        return false;
+    }
+
+    if (padding > 0) {
+        dst_data[0] = 0;
+    }
+    memcpy(dst_data + padding, buffer + start, end - start);
+
     f->setConsumed(true);
     f->setLength(dst_size);
         
@@ -216,16 +224,21 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
     }
 
     if (bufferOffset == -1) {
-        if (buffer != av_pkt.data) {
-            free(buffer);
-        }
-        buffer = NULL;
-        av_packet_unref(&av_pkt);
+        discardPacket();
     }
 
     return true;
 }
 
+void HeadDemuxerLibav::discardPacket()
+{
+    if (buffer != av_pkt.data) {
+        free(buffer);
+    }
+    buffer = NULL;
+    av_packet_unref(&av_pkt);
+}
+
 FrameQueue *HeadDemuxerLibav::allocQueue(ConnectionData cData)
 {
     // Create output queue for the kind of stream associated with this wId
diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.hh b/src/modules/headDemuxer/HeadDemuxerLibav.hh
index c4e93e7..d7b18da 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.hh
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.hh
@@ -104,6 +104,9 @@ class HeadDemuxerLibav : public HeadFilter {
         int bufferSize;
         int bufferOffset;
 
+        /** Forget the packet being processed */
+        void discardPacket();
+
         /** Clear all data, close all files */
         void reset();
 
-- 
2.43.0


From f81d6aafa62a833f0ac0b1d1f49182162d81f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:11 +0000
Subject: [PATCH 099/121] fix: the demuxer stamped frames wrongly when the
 start, presentation or decoding time is unknown

---
 src/modules/headDemuxer/HeadDemuxerLibav.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.cpp b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
index 3c1c13d..a396a7f 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.cpp
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
@@ -209,18 +209,17 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
     f->setConsumed(true);
     f->setLength(dst_size);
         
-    if (av_pkt.pts == AV_NOPTS_VALUE) {
-        f->setPresentationTime(
-            std::chrono::microseconds(psi->lastPTS + av_ctx->start_time_realtime));
-        f->setDecodeTime(
-            std::chrono::microseconds(psi->lastDTS + av_ctx->start_time_realtime));
+    // Packets without timestamps get the last valid ones (see above)
+    int64_t startTime = av_ctx->start_time_realtime != AV_NOPTS_VALUE ? av_ctx->start_time_realtime : 0;
+    f->setPresentationTime(
+        std::chrono::microseconds(
+            (int64_t)(psi->lastPTS * psi->streamTimeBase * std::micro::den) + startTime));
+    if (psi->lastDTS == AV_NOPTS_VALUE) {
+        f->setDecodeTime(std::chrono::microseconds(NO_DTS));
     } else {
-        f->setPresentationTime(
-            std::chrono::microseconds(
-                (int64_t)(av_pkt.pts * psi->streamTimeBase * std::micro::den) + av_ctx->start_time_realtime));
         f->setDecodeTime(
             std::chrono::microseconds(
-                (int64_t)(av_pkt.dts * psi->streamTimeBase * std::micro::den) + av_ctx->start_time_realtime));
+                (int64_t)(psi->lastDTS * psi->streamTimeBase * std::micro::den) + startTime));
     }
 
     if (bufferOffset == -1) {
-- 
2.43.0


From 3eb79f9a4746012676e5495cb7c52660916ccad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:11 +0000
Subject: [PATCH 100/121] fix: the demuxer leaked bitstream filters, crashed on
 unknown writers, kept half opened sources and freed stream information in use

---
 src/modules/headDemuxer/HeadDemuxerLibav.cpp | 32 ++++++++++++--------
 src/modules/headDemuxer/HeadDemuxerLibav.hh  |  7 +++--
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.cpp b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
index a396a7f..a871407 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.cpp
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
@@ -31,8 +31,6 @@ HeadDemuxerLibav::HeadDemuxerLibav() : HeadFilter ()
     avformat_network_init();
 
     av_ctx = NULL;
-    av_filter_annexb = NULL;
-
     av_pkt.data = NULL;
     buffer = NULL;
 
@@ -49,6 +47,10 @@ HeadDemuxerLibav::~HeadDemuxerLibav()
     // Free any possible memory and close possible files/streams
     reset();
 
+    for (auto sinfo : oldStreamInfos) {
+        delete sinfo;
+    }
+
     // Shutdown libav
     avformat_network_deinit();
 }
@@ -60,11 +62,6 @@ void HeadDemuxerLibav::reset()
     }
     av_ctx = NULL;
 
-    if (av_filter_annexb) {
-        av_bitstream_filter_close(av_filter_annexb);
-    }
-    av_filter_annexb = NULL;
-
     if (buffer && buffer != av_pkt.data) {
         free(buffer);
     }
@@ -74,14 +71,17 @@ void HeadDemuxerLibav::reset()
         av_packet_unref(&av_pkt);
     }
 
-    // Free stream infos
+    // The queues of connected writers might still refer to these
     for (auto sinfo : outputStreamInfos) {
-        delete sinfo.second;
+        oldStreamInfos.push_back(sinfo.second);
     }
     outputStreamInfos.clear();
 
     // Free private stream infos
     for (auto sinfo : privateStreamInfos) {
+        if (sinfo.second->avFilterAnnexB) {
+            av_bitstream_filter_close(sinfo.second->avFilterAnnexB);
+        }
         delete sinfo.second;
     }
     privateStreamInfos.clear();
@@ -131,7 +131,7 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
         if (psi->needsFraming && !psi->isAnnexB) {
             // Convert to Annex B (adding startcodes) using temp buffer
             int res;
-            res = av_bitstream_filter_filter (av_filter_annexb,
+            res = av_bitstream_filter_filter (psi->avFilterAnnexB,
                     av_ctx->streams[av_pkt.stream_index]->codec,
                     NULL, &buffer, &bufferSize, av_pkt.data,
                     av_pkt.size, av_pkt.flags & AV_PKT_FLAG_KEY);
@@ -241,6 +241,11 @@ void HeadDemuxerLibav::discardPacket()
 FrameQueue *HeadDemuxerLibav::allocQueue(ConnectionData cData)
 {
     // Create output queue for the kind of stream associated with this wId
+    if (outputStreamInfos.count(cData.writerId) == 0) {
+        utils::errorMsg("The demuxer has no stream " + std::to_string(cData.writerId));
+        return NULL;
+    }
+
     const StreamInfo *si = outputStreamInfos[cData.writerId];
     switch (si->type) {
         case AUDIO:
@@ -303,6 +308,7 @@ bool HeadDemuxerLibav::setURI(const std::string URI)
         char err[1024];
         av_make_error_string(err, sizeof(err), res);
         utils::errorMsg("avformat_find_stream_info (" + URI + "): " + err);
+        reset();
         return false;
     }
 
@@ -354,8 +360,8 @@ bool HeadDemuxerLibav::setURI(const std::string URI)
                     psi->isAnnexB = (data[0] == 0);
                     if (!psi->isAnnexB) {
                         // This is AVCC, we need conversion
-                        av_filter_annexb = av_bitstream_filter_init ("h264_mp4toannexb");
-                        if (av_filter_annexb == NULL) {
+                        psi->avFilterAnnexB = av_bitstream_filter_init ("h264_mp4toannexb");
+                        if (psi->avFilterAnnexB == NULL) {
                             utils::warningMsg("Could not find suitable libav filter to convert stream to Annexb");
                             // We actually need framing, but we have no filter
                             psi->needsFraming = false;
@@ -402,7 +408,7 @@ bool HeadDemuxerLibav::configureEvent(Jzon::Node* params)
         return false;
     }
 
-    if (params->Has("uri")) {
+    if (params->Has("uri") && params->Get("uri").IsString()) {
         if(setURI(params->Get("uri").ToString())){
             return true;
         } else {
diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.hh b/src/modules/headDemuxer/HeadDemuxerLibav.hh
index d7b18da..b9dd5af 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.hh
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.hh
@@ -68,6 +68,8 @@ class HeadDemuxerLibav : public HeadFilter {
             bool needsFraming;
             /* Whether the input is H264 in AVCC or Annex B format */
             bool isAnnexB;
+            /** Libav filter required to convert H264 AVCC to AnnexB */
+            AVBitStreamFilterContext *avFilterAnnexB;
             /* Initialized to zero, it keeps the last valid pts, in order to be used 
              * in case an AV_NOPTS_VALUE is found in av_pkt*/
             int64_t lastPTS;
@@ -86,14 +88,15 @@ class HeadDemuxerLibav : public HeadFilter {
          * shared with the queues. */
         std::map<int, StreamInfo*> outputStreamInfos;
 
+        /** Information of the streams of previous URIs, deleted on destruction. */
+        std::vector<StreamInfo*> oldStreamInfos;
+
         /** Stream information needed for demuxer operation, but not public. */
         std::map<int, PrivateStreamInfo*> privateStreamInfos;
 
         /** Libav media context. Created on #setURI(), destroyed on filter destruction
          * or subsequent #setURI(). */
         AVFormatContext *av_ctx;
-        /** Libav filter required to convert H264 AVCC to AnnexB */
-        AVBitStreamFilterContext *av_filter_annexb;
         /** Packet being processed, in case it contains more than one NALU and it needs
          * to be persisted among multiple calls to doProcessFrame. */
         AVPacket av_pkt;
-- 
2.43.0


From 677726f5ecf4dcef3d4d3b2c29bbe50ab2b8c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:23 +0000
Subject: [PATCH 101/121] fix: the demuxer described video streams with an
 uninitialised pixel format

---
 src/modules/headDemuxer/HeadDemuxerLibav.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.cpp b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
index a871407..3cf51c3 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.cpp
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
@@ -336,6 +336,7 @@ bool HeadDemuxerLibav::setURI(const std::string URI)
                 case AVMEDIA_TYPE_VIDEO:
                     si->type = VIDEO;
                     si->video.codec = utils::getVideoCodecFromLibavString(cdesc->name);
+                    si->video.pixelFormat = P_NONE;
                     // Overwrite libav values with our per-codec defaults
                     si->setCodecDefaults();
                     // For now, we assume H265 is always in AnnexB format
-- 
2.43.0


From 58db91d0bea25398b987d83a0f8f4e13be1ee1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:23 +0000
Subject: [PATCH 102/121] fix: gaps in 8 bit audio were filled with the lowest
 level instead of silence

---
 src/AudioCircularBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index ebd83fb..806bacc 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -207,7 +207,7 @@ bool AudioCircularBuffer::setup()
     inputFrame = PlanarAudioFrame::createNew(channels, sampleRate, AudioFrame::getMaxSamples(sampleRate), PCM, sampleFormat);
     outputFrame = PlanarAudioFrame::createNew(channels, sampleRate, AudioFrame::getMaxSamples(sampleRate), PCM, sampleFormat);
     dummyFrame = PlanarAudioFrame::createNew(channels, sampleRate, chMaxSamples, PCM, sampleFormat); // holds the longest padding
-    dummyFrame->fillWithValue(0);
+    dummyFrame->fillWithValue(sampleFormat == U8P ? 128 : 0); // 8 bit samples are unsigned
 
     outputFrame->setSamples(AudioFrame::getDefaultSamples(sampleRate));
     outputFrame->setLength(AudioFrame::getDefaultSamples(sampleRate)*bytesPerSample);
-- 
2.43.0


From b060d4e363fb1ba9fc133c8a3f39d2b43ea72747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:42 +0000
Subject: [PATCH 103/121] fix: NAL units were transmitted several times

---
 src/modules/transmitter/H264or5QueueSource.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/transmitter/H264or5QueueSource.cpp b/src/modules/transmitter/H264or5QueueSource.cpp
index 81f7287..42bb489 100644
--- a/src/modules/transmitter/H264or5QueueSource.cpp
+++ b/src/modules/transmitter/H264or5QueueSource.cpp
@@ -157,7 +157,7 @@ void H264or5QueueSource::deliverFrame()
         return; 
     }
     
-    if (!frame) {
+    if (!frame || processedFrame) {
         return;
     }
     
-- 
2.43.0


From 487006d5708f69c8bcb152ec2a0f97491e9fdd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:20 +0000
Subject: [PATCH 104/121] fix: closed connections and readers of the
 transmitter were never freed

---
 src/modules/transmitter/Connection.cpp  | 19 ++++++++---
 src/modules/transmitter/QueueSource.cpp |  5 +++
 src/modules/transmitter/QueueSource.hh  |  1 +
 src/modules/transmitter/SinkManager.cpp | 42 +++++++++++++++----------
 4 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/src/modules/transmitter/Connection.cpp b/src/modules/transmitter/Connection.cpp
index 0f0f52b..fa09709 100644
--- a/src/modules/transmitter/Connection.cpp
+++ b/src/modules/transmitter/Connection.cpp
@@ -235,7 +235,11 @@ std::string RTSPConnection::getURI()
         return "";
     }
 
-    return rtspServer->rtspURL(session);
+    char *url = rtspServer->rtspURL(session);
+    std::string uri(url);
+    delete[] url;
+    
+    return uri;
 }
 
 
@@ -254,9 +258,8 @@ bool RTSPConnection::startPlaying()
     }
 
     rtspServer->addServerMediaSession(session);
-    std::string url = rtspServer->rtspURL(session);
 
-    utils::infoMsg("Play stream using the URL " + url);
+    utils::infoMsg("Play stream using the URL " + getURI());
     started = true;
     
     return true;
@@ -274,6 +277,10 @@ void RTSPConnection::stopPlaying()
 
     rtspServer->deleteServerMediaSession(session);
     
+    if (!addedSub){
+        Medium::close(subsession);
+    }
+    
     session = NULL;
     subsession = NULL;
     addedSub = false;
@@ -325,8 +332,11 @@ RTPConnection::~RTPConnection()
     if (fSink) {
         fSink->stopPlaying();
         Medium::close(rtcp);
+        Medium::close(fSink);
     }
 
+    Medium::close(fSource);
+
     if (rtpGroupsock) {
         delete rtpGroupsock;
     }
@@ -615,6 +625,7 @@ MpegTsConnection::MpegTsConnection(UsageEnvironment* env, std::string ip, unsign
 : RTPConnection(env, NULL, ip, port), audioReader(-1), videoReader(-1)
 {
     tsFramer = MPEG2TransportStreamFromESSource::createNew(*env);
+    fSource = tsFramer;
 }
 
 bool MpegTsConnection::addVideoSource(FramedSource* source, VCodecType codec, int readerId)
@@ -687,8 +698,6 @@ bool MpegTsConnection::additionalSetup()
         return false;
     }
     
-    fSource = tsFramer;
-
     fSink = SimpleRTPSink::createNew(*fEnv, rtpGroupsock, 33, 90000, "video", 
                                      "MP2T", 1, True, False /*no 'M' bit*/);
 
diff --git a/src/modules/transmitter/QueueSource.cpp b/src/modules/transmitter/QueueSource.cpp
index aa71fc8..6281742 100644
--- a/src/modules/transmitter/QueueSource.cpp
+++ b/src/modules/transmitter/QueueSource.cpp
@@ -15,6 +15,11 @@ QueueSource::QueueSource(UsageEnvironment& env, const StreamInfo* streamInfo)
     }
 }
 
+QueueSource::~QueueSource()
+{
+    envir().taskScheduler().deleteEventTrigger(eventTriggerId);
+}
+
 void QueueSource::doGetNextFrame() 
 {
     //TODO: check status, i.e. client disconnected!
diff --git a/src/modules/transmitter/QueueSource.hh b/src/modules/transmitter/QueueSource.hh
index 90a8763..1ee3145 100644
--- a/src/modules/transmitter/QueueSource.hh
+++ b/src/modules/transmitter/QueueSource.hh
@@ -20,6 +20,7 @@ public:
 protected:
     void doGetNextFrame();
     QueueSource(UsageEnvironment& env, const StreamInfo* streamInfo);
+    virtual ~QueueSource();
     static void deliverFrame0(void* clientData);
     virtual void deliverFrame();
     void doStopGettingFrames();
diff --git a/src/modules/transmitter/SinkManager.cpp b/src/modules/transmitter/SinkManager.cpp
index 58989f1..fd91ecf 100644
--- a/src/modules/transmitter/SinkManager.cpp
+++ b/src/modules/transmitter/SinkManager.cpp
@@ -43,6 +43,7 @@ SinkManager* SinkManager::createNew(unsigned readersNum)
         return sMgr;
     }
     
+    delete sMgr;
     return NULL;
 }
 
@@ -84,18 +85,11 @@ void SinkManager::stop()
     }
     connections.clear();
 
-    //NOTE: Medium::close() over replicators fail for some reason, even when numReplicas == 0
-//     for (auto it : replicators) {
-//         if (it.second->numReplicas() == 0){
-//             Medium::close(it.second);
-//             sources.erase(it.first);
-//         }
-//     }
-    replicators.clear();
-    
-    for (auto it : sources) {
-       Medium::close(it.second);
+    //NOTE: closing a replicator closes its source too
+    for (auto it : replicators) {
+        Medium::close(it.second);
     }
+    replicators.clear();
     sources.clear();
     
     // NOTE: this crashes because rtsp sessions are destroyed inside each RTSP connection and 
@@ -121,8 +115,11 @@ bool SinkManager::readerInConnection(int rId)
 
 bool SinkManager::specificReaderDelete(int readerId)
 {
-    if (removeConnectionByReaderId(readerId) && sources.count(readerId) > 0 && replicators.count(readerId) > 0){
-        Medium::close(sources[readerId]);
+    removeConnectionByReaderId(readerId);
+    
+    if (sources.count(readerId) > 0 && replicators.count(readerId) > 0){
+        //NOTE: closing a replicator closes its source too
+        Medium::close(replicators[readerId]);
         sources.erase(readerId);
         replicators.erase(readerId);
         return true;
@@ -260,7 +257,8 @@ bool SinkManager::addMpegTsRTPConnection(std::vector<int> inputReaders, int id,
     VideoFrameQueue *vQueue = NULL;
     AudioFrameQueue *aQueue = NULL;
     MpegTsConnection* conn = NULL;
-    bool success = false;
+    FramedSource* replica = NULL;
+    bool success = true;
     bool hasVideo = false;
     bool hasAudio = false;
 
@@ -283,23 +281,33 @@ bool SinkManager::addMpegTsRTPConnection(std::vector<int> inputReaders, int id,
         
         if (replicators.count(inReader) <= 0){
             utils::errorMsg("Replicator is NULL for reader: " + std::to_string(inReader));
-            continue;
+            success = false;
+            break;
         }
 
         if (vQueue && !hasVideo) {
-            success = conn->addVideoSource(replicators[inReader]->createStreamReplica(), vQueue->getStreamInfo()->video.codec, inReader);
+            replica = replicators[inReader]->createStreamReplica();
+            success = conn->addVideoSource(replica, vQueue->getStreamInfo()->video.codec, inReader);
             hasVideo = true;
         } else if (aQueue && !hasAudio) {
-            success = conn->addAudioSource(replicators[inReader]->createStreamReplica(), aQueue->getStreamInfo()->audio.codec, inReader);
+            replica = replicators[inReader]->createStreamReplica();
+            success = conn->addAudioSource(replica, aQueue->getStreamInfo()->audio.codec, inReader);
             hasAudio = true;
         } else {
             utils::errorMsg("Error creating MpegTSRTPConnection. Only one video and/or one audio is supported");
+            replica = NULL;
             success = false;
         }
+        
+        if (!success) {
+            Medium::close(replica);
+            break;
+        }
     }
 
     if (!success) {
         utils::errorMsg("Error creating MpegTSRTPConnection. Readers not valid");
+        delete conn;
         return false;
     }
 
-- 
2.43.0


From ba3b968504442bb3f3f2a60e1730bdc7884256c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:15 +0000
Subject: [PATCH 105/121] fix: parameter sets were read beyond the extradata,
 cut to 255 bytes and leaked

---
 .../transmitter/H264or5QueueSource.cpp        | 72 ++++++++++---------
 src/modules/transmitter/H264or5QueueSource.hh |  2 +-
 2 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/src/modules/transmitter/H264or5QueueSource.cpp b/src/modules/transmitter/H264or5QueueSource.cpp
index 42bb489..065e8a4 100644
--- a/src/modules/transmitter/H264or5QueueSource.cpp
+++ b/src/modules/transmitter/H264or5QueueSource.cpp
@@ -39,11 +39,19 @@
 #define SPS_AVC 7
 #define PPS_AVC 8
 
-uint8_t startOffset(unsigned char const* ptr) {
-    u_int32_t bytes = 0|(ptr[0]<<16)|(ptr[1]<<8)|ptr[2];
+uint8_t startOffset(unsigned char const* ptr, unsigned size) {
+    u_int32_t bytes;
+    
+    if (size < SHORT_START_LENGTH) {
+        return 0;
+    }
+    bytes = 0|(ptr[0]<<16)|(ptr[1]<<8)|ptr[2];
     if (bytes == START_CODE) {
         return SHORT_START_LENGTH;
     }
+    if (size < LONG_START_LENGTH) {
+        return 0;
+    }
     bytes = (ptr[0]<<24)|(ptr[1]<<16)|(ptr[2]<<8)|ptr[3];
     if (bytes == START_CODE) {
         return LONG_START_LENGTH;
@@ -66,45 +74,32 @@ H264or5QueueSource::H264or5QueueSource(UsageEnvironment& env, const StreamInfo *
 
 H264or5QueueSource::~H264or5QueueSource()
 {
-    if(fVPS){
-        delete fVPS;
-    }
-    
-    if (fSPS){
-        delete fSPS;
-    }
-    
-    if (fPPS){
-        delete fPPS;
-    }
+    delete[] fVPS;
+    delete[] fSPS;
+    delete[] fPPS;
 }
 
 bool H264or5QueueSource::parseExtradata()
 {
     int offset = 0;
     int nalStart = 0;
-    uint8_t *nal;
     
     if (!si->video.h264or5.annexb || si->extradata_size == 0){
         return false;
     }
     
-    if ((offset = startOffset(si->extradata)) > 0){
+    if ((offset = startOffset(si->extradata, si->extradata_size)) > 0){
         nalStart = offset;
         while (offset < si->extradata_size){
-            if (startOffset(si->extradata + offset) > 0){
-                nal = new uint8_t[offset - nalStart];
-                memcpy(nal, si->extradata + nalStart, offset - nalStart);
-                feedHeaders(nal, offset - nalStart, si->video.codec);
-                offset += startOffset(si->extradata + offset);
+            if (startOffset(si->extradata + offset, si->extradata_size - offset) > 0){
+                feedHeaders(si->extradata + nalStart, offset - nalStart, si->video.codec);
+                offset += startOffset(si->extradata + offset, si->extradata_size - offset);
                 nalStart = offset;
             } else {
                 offset++;
             }
         }
-        nal = new uint8_t[si->extradata_size - nalStart];
-        memcpy(nal, si->extradata + nalStart, si->extradata_size - nalStart);
-        feedHeaders(nal, si->extradata_size - nalStart, si->video.codec);
+        feedHeaders(si->extradata + nalStart, si->extradata_size - nalStart, si->video.codec);
     }
     
     if (si->video.codec == H264 && fSPS && fPPS){
@@ -118,32 +113,39 @@ bool H264or5QueueSource::parseExtradata()
     return false;
 }
 
-void H264or5QueueSource::feedHeaders(uint8_t *nal, uint8_t nalSize, VCodecType codec)
+static void storeHeader(uint8_t **header, unsigned *headerSize, const uint8_t *nal, unsigned nalSize)
+{
+    delete[] *header;
+    *header = new uint8_t[nalSize];
+    memcpy(*header, nal, nalSize);
+    *headerSize = nalSize;
+}
+
+void H264or5QueueSource::feedHeaders(const uint8_t *nal, unsigned nalSize, VCodecType codec)
 {
     uint8_t nalType;
     
+    if (nalSize == 0) {
+        return;
+    }
+    
     switch (codec){
         case H264:
             nalType = nal[0] & H264_NALU_TYPE_MASK;
             if (nalType == SPS_AVC) {
-                fSPS = nal;
-                fSPSSize = nalSize;
+                storeHeader(&fSPS, &fSPSSize, nal, nalSize);
             } else if (nalType == PPS_AVC) {
-                fPPS = nal;
-                fPPSSize = nalSize;
+                storeHeader(&fPPS, &fPPSSize, nal, nalSize);
             }
             break;
         case H265:
             nalType = (nal[0] & H265_NALU_TYPE_MASK) >> 1;
             if (nalType == SPS_HEVC) {
-                fSPS = nal;
-                fSPSSize = nalSize;
+                storeHeader(&fSPS, &fSPSSize, nal, nalSize);
             } else if (nalType == PPS_HEVC) {
-                fPPS = nal;
-                fPPSSize = nalSize;
+                storeHeader(&fPPS, &fPPSSize, nal, nalSize);
             } else if (nalType == VPS) {
-                fVPS = nal;
-                fVPSSize = nalSize;
+                storeHeader(&fVPS, &fVPSSize, nal, nalSize);
             }
             break;
         default:
@@ -168,7 +170,7 @@ void H264or5QueueSource::deliverFrame()
     size = frame->getLength();
     buff = frame->getDataBuf();
 
-    offset = startOffset(buff);
+    offset = startOffset(buff, size);
     
     buff = frame->getDataBuf() + offset;
     size = size - offset;
diff --git a/src/modules/transmitter/H264or5QueueSource.hh b/src/modules/transmitter/H264or5QueueSource.hh
index e73ecf0..c6e6a4b 100644
--- a/src/modules/transmitter/H264or5QueueSource.hh
+++ b/src/modules/transmitter/H264or5QueueSource.hh
@@ -47,7 +47,7 @@ protected:
     H264or5QueueSource(UsageEnvironment& env, const StreamInfo *streamInfo);
     ~H264or5QueueSource();
     
-    void feedHeaders(uint8_t *nal, uint8_t nalSize, VCodecType codec);
+    void feedHeaders(const uint8_t *nal, unsigned nalSize, VCodecType codec);
     
     void deliverFrame();
     
-- 
2.43.0


From 7f1d6ce071840d3fd04ab5185e25df9a56ddacf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:39 +0000
Subject: [PATCH 106/121] fix: the AAC configuration overran its buffer, lost
 the channels' upper bit and its line leaked

---
 src/modules/transmitter/ADTSStreamParser.cpp          |  4 ++--
 src/modules/transmitter/ADTSStreamParser.hh           |  2 +-
 src/modules/transmitter/CustomMPEG4GenericRTPSink.cpp | 10 ++++++----
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/modules/transmitter/ADTSStreamParser.cpp b/src/modules/transmitter/ADTSStreamParser.cpp
index 59bfce5..31d2ef0 100644
--- a/src/modules/transmitter/ADTSStreamParser.cpp
+++ b/src/modules/transmitter/ADTSStreamParser.cpp
@@ -36,7 +36,7 @@ ADTSStreamParser* ADTSStreamParser::createNew(UsageEnvironment& env, FramedSourc
 ADTSStreamParser::ADTSStreamParser(UsageEnvironment& env, FramedSource* inputSource) : 
 FramedFilter(env, inputSource)
 {
-
+    configString[0] = '\0';
 }
 
 ADTSStreamParser::~ADTSStreamParser() {
@@ -116,7 +116,7 @@ unsigned char ADTSStreamParser::getSamplingFreqIdxFromADTSHeader(unsigned char*
 
 unsigned char ADTSStreamParser::getChannelConfFromADTSHeader(unsigned char* adtsHeader)
 {
-    return (adtsHeader[2] & 0x01) | ((adtsHeader[3] >> 6) & 0x03);
+    return ((adtsHeader[2] & 0x01) << 2) | ((adtsHeader[3] >> 6) & 0x03);
 }
 
 unsigned char ADTSStreamParser::getMetadata1stByte(unsigned char audioObjectType, unsigned char samplingFrequencyIndex)
diff --git a/src/modules/transmitter/ADTSStreamParser.hh b/src/modules/transmitter/ADTSStreamParser.hh
index f94ea2b..9e3271b 100644
--- a/src/modules/transmitter/ADTSStreamParser.hh
+++ b/src/modules/transmitter/ADTSStreamParser.hh
@@ -66,7 +66,7 @@ private:
     unsigned char getMetadata1stByte(unsigned char audioObjectType, unsigned char samplingFrequencyIndex);
     unsigned char getMetadata2ndByte(unsigned char samplingFrequencyIndex, unsigned char channelConfiguration);
     
-    char configString[2];
+    char configString[5];
 
 };
 
diff --git a/src/modules/transmitter/CustomMPEG4GenericRTPSink.cpp b/src/modules/transmitter/CustomMPEG4GenericRTPSink.cpp
index 3eedb2b..3599641 100644
--- a/src/modules/transmitter/CustomMPEG4GenericRTPSink.cpp
+++ b/src/modules/transmitter/CustomMPEG4GenericRTPSink.cpp
@@ -67,14 +67,16 @@ CustomMPEG4GenericRTPSink
                              u_int32_t rtpTimestampFrequency, char const* sdpMediaTypeString,
                               char const* mpeg4Mode, unsigned numChannels)
 : MultiFramedRTPSink(env, RTPgs, rtpPayloadFormat, rtpTimestampFrequency, "MPEG4-GENERIC", numChannels),
-  fSDPMediaTypeString(strDup(sdpMediaTypeString)), fMPEG4Mode(strDup(mpeg4Mode)), fConfigString(NULL) 
+  fSDPMediaTypeString(strDup(sdpMediaTypeString)), fMPEG4Mode(strDup(mpeg4Mode)), fConfigString(NULL), fFmtpSDPLine(NULL) 
 {
     
 }
 
 CustomMPEG4GenericRTPSink::~CustomMPEG4GenericRTPSink() 
 {
-
+    delete[] fSDPMediaTypeString;
+    delete[] fMPEG4Mode;
+    delete[] fFmtpSDPLine;
 }
 
 Boolean CustomMPEG4GenericRTPSink
@@ -156,7 +158,7 @@ char const* CustomMPEG4GenericRTPSink::auxSDPLine()
         fMPEG4Mode,
         fConfigString);
   
-    fFmtpSDPLine = strDup(fmtp);
-    delete[] fmtp;
+    delete[] fFmtpSDPLine;
+    fFmtpSDPLine = fmtp;
     return fFmtpSDPLine;
 }
\ No newline at end of file
-- 
2.43.0


From c1681345a2dec6aafc7331a7e3d0caedeac99e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 107/121] fix: RTSP sessions of the same name closed each
 other, statistics of several clients were merged

---
 src/modules/transmitter/SinkManager.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/modules/transmitter/SinkManager.cpp b/src/modules/transmitter/SinkManager.cpp
index fd91ecf..85d54bd 100644
--- a/src/modules/transmitter/SinkManager.cpp
+++ b/src/modules/transmitter/SinkManager.cpp
@@ -198,6 +198,14 @@ bool SinkManager::addRTSPConnection(std::vector<int> readers, int id, TxFormat t
         return false;
     }
 
+    for (auto it : connections) {
+        connection = dynamic_cast<RTSPConnection*>(it.second);
+        if (connection && connection->getName() == name) {
+            utils::errorMsg("Failed, there is already a session with this name");
+            return false;
+        }
+    }
+
     connection = new RTSPConnection(env, txformat, rtspServer, name, info, desc);
 
     for (auto & reader : readers){
@@ -660,12 +668,12 @@ void SinkManager::doGetState(Jzon::Object &filterNode)
         Jzon::Array jsonReaders;
         Jzon::Object jsonConnection;
         Jzon::Array jsonSubsessionsStats;
-        Jzon::Object jsonSubsessionStat;
 
         if ((rtspConn = dynamic_cast<RTSPConnection*>(it.second))){
             jsonConnection.Add("name", rtspConn->getName());
             jsonConnection.Add("uri", rtspConn->getURI());
             for (auto iter : it.second->getConnectionRTCPInstanceMap()) {
+                Jzon::Object jsonSubsessionStat;
                 jsonSubsessionStat.Add("SSRC", std::to_string(iter.second->getSSRC()));
                 jsonSubsessionStat.Add("avgBitrateInKbps", (float)iter.second->getAvgBitrate());
                 jsonSubsessionStat.Add("minBitrateInKbps", (float)iter.second->getMinBitrate());
@@ -686,6 +694,7 @@ void SinkManager::doGetState(Jzon::Object &filterNode)
             jsonConnection.Add("ip", rtpConn->getIP());
             jsonConnection.Add("port", std::to_string(rtpConn->getPort()));
             for (auto iter : it.second->getConnectionRTCPInstanceMap()) {
+                Jzon::Object jsonSubsessionStat;
                 jsonSubsessionStat.Add("SSRC", std::to_string(iter.second->getSSRC()));
                 jsonSubsessionStat.Add("avgBitrateInKbps", (float)iter.second->getAvgBitrate());
                 jsonSubsessionStat.Add("minBitrateInKbps", (float)iter.second->getMinBitrate());
-- 
2.43.0


From 6617fb80cc19a231575ed58d63e7e0b835f717d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:07 +0000
Subject: [PATCH 108/121] fix: MP3 frames larger than a packet aborted the
 UltraGrid transmission

---
 src/modules/transmitter/UltraGridAudioRTPSink.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modules/transmitter/UltraGridAudioRTPSink.cpp b/src/modules/transmitter/UltraGridAudioRTPSink.cpp
index 5ec4a89..18e1a42 100644
--- a/src/modules/transmitter/UltraGridAudioRTPSink.cpp
+++ b/src/modules/transmitter/UltraGridAudioRTPSink.cpp
@@ -95,7 +95,7 @@ void UltraGridAudioRTPSink
         tmp |= fBufferIDx; /* bits 10-31 */
         audio_hdr[0] = htonl(tmp);
 
-        audio_hdr[2] = htonl(numBytesInFrame);
+        audio_hdr[2] = htonl(fragmentationOffset + numBytesInFrame + numRemainingBytes);
 
         /* fourth word */
         tmp = fBPS << 26;
@@ -106,7 +106,6 @@ void UltraGridAudioRTPSink
         audio_hdr[4] = htonl(fAudio_tag);
         /*word 5*/
         audio_hdr[1] = htonl(fragmentationOffset);
-        assert(fragmentationOffset == 0); // not tested
 
         setSpecialHeaderBytes((unsigned char *) audio_hdr, sizeof audio_hdr);
 
-- 
2.43.0


From 6c2aefdde7e0d8abf9249d0a9f6b752a5b919ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:45 +0000
Subject: [PATCH 109/121] fix: UltraGrid video packets announced wrong rates
 and heights and were copied beyond their buffer

---
 src/modules/transmitter/H264VideoStreamSampler.cpp | 11 +++++++----
 src/modules/transmitter/UltraGridVideoRTPSink.cpp  |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/modules/transmitter/H264VideoStreamSampler.cpp b/src/modules/transmitter/H264VideoStreamSampler.cpp
index d07b78f..ea489ad 100644
--- a/src/modules/transmitter/H264VideoStreamSampler.cpp
+++ b/src/modules/transmitter/H264VideoStreamSampler.cpp
@@ -33,7 +33,7 @@ H264VideoStreamSampler* H264VideoStreamSampler::createNew(UsageEnvironment& env,
  H264VideoStreamSampler
 ::H264VideoStreamSampler(UsageEnvironment& env, FramedSource* inputSource, bool annexB)
   : H264or5VideoStreamFramer(264, env, inputSource, False/*don't create a parser*/, False),
-  offset(0), totalFrameSize(0), fAnnexB(annexB), fWidth(0), fHeight(0) {
+  offset(0), totalFrameSize(0), fAnnexB(annexB), fWidth(0), fHeight(0), fFrameRate(0) {
 }
 
 H264VideoStreamSampler::~H264VideoStreamSampler() {
@@ -151,8 +151,11 @@ void H264VideoStreamSampler::updateSPSInfo(unsigned char* NALstartPtr, int frame
     //NOTE: frame_mbs_only_flag = 1 --> only progressive frames
     //      frame_mbs_only_flag = 0 --> some type of interlacing (there are 3 types contemplated in the standard)
     if (sps->frame_cropping_flag){
-        width -= (sps->frame_crop_left_offset*2 + sps->frame_crop_right_offset*2);
-        height -= (sps->frame_crop_top_offset*2 + sps->frame_crop_bottom_offset*2);
+        // crop units: chroma samples, of both fields if the stream may be interlaced
+        uint32_t cropX = (sps->chroma_format_idc == 1 || sps->chroma_format_idc == 2) ? 2 : 1;
+        uint32_t cropY = (sps->chroma_format_idc == 1 ? 2 : 1) * (2 - sps->frame_mbs_only_flag);
+        width -= cropX*(sps->frame_crop_left_offset + sps->frame_crop_right_offset);
+        height -= cropY*(sps->frame_crop_top_offset + sps->frame_crop_bottom_offset);
     }
 
     if(width > 0){
@@ -164,7 +167,7 @@ void H264VideoStreamSampler::updateSPSInfo(unsigned char* NALstartPtr, int frame
     }
 
     if (num_units_in_tick > 0) {
-        fFrameRate = timeScale/(2*num_units_in_tick);
+        fFrameRate = timeScale/(2.0*num_units_in_tick);
     }
 
     bs_free(b);
diff --git a/src/modules/transmitter/UltraGridVideoRTPSink.cpp b/src/modules/transmitter/UltraGridVideoRTPSink.cpp
index fa6fadb..6311c2e 100644
--- a/src/modules/transmitter/UltraGridVideoRTPSink.cpp
+++ b/src/modules/transmitter/UltraGridVideoRTPSink.cpp
@@ -277,7 +277,7 @@ void UltraGridVideoFragmenter::doGetNextFrame() {
 
 		loadPayloadHeader(fTo, fMainUltraGridHeader, UG_PAYLOAD_HEADER_SIZE);
 
-		memmove(fTo + UG_PAYLOAD_HEADER_SIZE, fInputBuffer, fNumValidDataBytes + UG_PAYLOAD_HEADER_SIZE);
+		memmove(fTo + UG_PAYLOAD_HEADER_SIZE, fInputBuffer, numBytesToSend - UG_PAYLOAD_HEADER_SIZE);
 
 		fFrameSize = numBytesToSend;
 		fCurDataOffset += numBytesToSend -UG_PAYLOAD_HEADER_SIZE;
-- 
2.43.0


From c0be05690ef7eaef3df1050e29d0ce1eb166d79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:33 +0000
Subject: [PATCH 110/121] fix: removing receiver sessions without server,
 description or with consumers crashed

---
 src/modules/receiver/SourceManager.cpp | 66 +++++++++++++++-----------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/modules/receiver/SourceManager.cpp b/src/modules/receiver/SourceManager.cpp
index f328575..0409ec0 100644
--- a/src/modules/receiver/SourceManager.cpp
+++ b/src/modules/receiver/SourceManager.cpp
@@ -164,22 +164,25 @@ bool SourceManager::removeSession(std::string id)
     }
 
     bool someSubsessionsWereActive = false;
-    
-    sessionMap[id]->getScs()->iter = new MediaSubsessionIterator(*(sessionMap[id]->getScs()->session));
-    subsession = sessionMap[id]->getScs()->iter->next();
-    while (subsession != NULL) {
-        if (sinks.count(subsession->clientPortNum()) > 0){
-            Medium::close(sinks[subsession->clientPortNum()]);
-            sinks.erase(subsession->clientPortNum());
-            disconnectWriter(subsession->clientPortNum());
-            sessionMap[id]->getScs()->removeSubsessionStats(subsession->clientPortNum());
-        }
-        subsession->sink = NULL;
-        if (subsession->rtcpInstance() != NULL) {
-            subsession->rtcpInstance()->setByeHandler(NULL, NULL);
+    StreamClientState* scs = sessionMap[id]->getScs();
+
+    //An RTSP session has no media session until it is described
+    if (scs->session != NULL) {
+        MediaSubsessionIterator iter(*(scs->session));
+        while ((subsession = iter.next()) != NULL) {
+            if (subsession->sink != NULL){
+                int port = subsession->clientPortNum();
+                disconnectWriter(port);
+                Medium::close(subsession->sink);
+                subsession->sink = NULL;
+                sinks.erase(port);
+                scs->removeSubsessionStats(port);
+                someSubsessionsWereActive = true;
+            }
+            if (subsession->rtcpInstance() != NULL) {
+                subsession->rtcpInstance()->setByeHandler(NULL, NULL);
+            }
         }
-        subsession = sessionMap[id]->getScs()->iter->next();
-        someSubsessionsWereActive = true;
     }
     
     if (someSubsessionsWereActive) {
@@ -520,6 +523,7 @@ Session* Session::createNewByURL(UsageEnvironment& env, std::string progName, st
     RTSPClient* rtspClient = ExtendedRTSPClient::createNew(env, rtspURL.c_str(), session->scs, RTSP_CLIENT_VERBOSITY_LEVEL, progName.c_str());
     if (rtspClient == NULL) {
         utils::errorMsg("Failed to create a RTSP client for URL " + rtspURL);
+        delete session;
         return NULL;
     }
 
@@ -535,8 +539,8 @@ bool Session::initiateSession()
 
     if (scs->session != NULL){
         UsageEnvironment& env = scs->session->envir();
-        scs->iter = new MediaSubsessionIterator(*(scs->session));
-        subsession = scs->iter->next();
+        MediaSubsessionIterator iter(*(scs->session));
+        subsession = iter.next();
         while (subsession != NULL) {
             if (!subsession->initiate()) {
                 utils::errorMsg("Failed to initiate the subsession");
@@ -565,7 +569,7 @@ bool Session::initiateSession()
 	   
             increaseReceiveBufferTo(env, subsession->rtpSource()->RTPgs()->socketNum(), RTP_RECEIVE_BUFFER_SIZE);
 
-           subsession = scs->iter->next();
+           subsession = iter.next();
         }
         return true;
 
@@ -580,22 +584,24 @@ bool Session::initiateSession()
 
 void Session::sendTeardown()
 {
-    client->sendTeardownCommand(*scs->session, NULL);
+    //Sessions described by the user have no server
+    if (client != NULL && scs->session != NULL) {
+        client->sendTeardownCommand(*scs->session, NULL);
+    }
 }
 
 Session::~Session() {
-    MediaSubsession* subsession;
-    this->scs->iter = new MediaSubsessionIterator(*(this->scs->session));
-    subsession = this->scs->iter->next();
+    if (scs->session != NULL) {
+        MediaSubsession* subsession;
+        MediaSubsessionIterator iter(*(scs->session));
 
-    while (subsession != NULL) {
-        Medium::close(subsession->sink);
-        subsession = this->scs->iter->next();
+        while ((subsession = iter.next()) != NULL) {
+            Medium::close(subsession->sink);
+            subsession->sink = NULL;
+        }
     }
     
-    if (scs != NULL){
-        delete scs;
-    }
+    delete scs;
 
     if (client != NULL) {
         Medium::close(client);
@@ -606,6 +612,10 @@ MediaSubsession* Session::getSubsessionByPort(int port)
 {
     MediaSubsession* subsession;
 
+    if (scs->session == NULL) {
+        return NULL;
+    }
+
     MediaSubsessionIterator iter(*(this->scs->session));
 
     while ((subsession = iter.next()) != NULL) {
-- 
2.43.0


From 5f2ce7291cf53416c120ff434a4b7e2e5569a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:54 +0000
Subject: [PATCH 111/121] fix: received frames were delivered empty after a
 connection, reconnected receivers stayed silent

---
 src/modules/receiver/QueueSink.cpp | 20 ++++++++++++++++----
 src/modules/receiver/QueueSink.hh  |  1 +
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/modules/receiver/QueueSink.cpp b/src/modules/receiver/QueueSink.cpp
index 55f4cf2..1a10304 100644
--- a/src/modules/receiver/QueueSink.cpp
+++ b/src/modules/receiver/QueueSink.cpp
@@ -27,7 +27,7 @@
 #include <sys/time.h>
 
 QueueSink::QueueSink(UsageEnvironment& env, unsigned port, FramedFilter* filter)
-  : MediaSink(env), fPort(port), nextFrame(true), fFilter(filter)
+  : MediaSink(env), fPort(port), receiving(false), nextFrame(true), fFilter(filter)
 {
     frame = NULL;
     dummyBuffer = new unsigned char[DUMMY_RECEIVE_BUFFER_SIZE];
@@ -52,6 +52,7 @@ Boolean QueueSink::continuePlaying()
 
     if (!frame){
         utils::debugMsg("Using dummy buffer, no writer connected yet");
+        receiving = false;
         fSource->getNextFrame(dummyBuffer, DUMMY_RECEIVE_BUFFER_SIZE,
                               afterGettingFrame, this,
                               onSourceClosure, this);
@@ -64,7 +65,7 @@ Boolean QueueSink::continuePlaying()
         return True;
     }
 
-
+    receiving = true;
     fSource->getNextFrame(frame->getDataBuf(), frame->getMaxLength(),
               afterGettingFrame, this,
               onSourceClosure, this);
@@ -85,13 +86,15 @@ void QueueSink::afterGettingFrame(unsigned frameSize, struct timeval presentatio
 {
     std::chrono::microseconds ts = std::chrono::microseconds(presentationTime.tv_sec * std::micro::den + presentationTime.tv_usec);
 
-    if (frame != NULL) {
+    //What came to the dummy buffer is not in the frame
+    if (frame != NULL && receiving) {
         frame->setLength(frameSize);
         frame->setPresentationTime(ts);
         frame->setDecodeTime(NO_DTS);
         frame->setConsumed(true);
         nextFrame = true;
     }
+    receiving = false;
     nextTask() = envir().taskScheduler().scheduleDelayedTask(0,
         (TaskFunc*)QueueSink::staticContinuePlaying, this);
 }
@@ -113,5 +116,14 @@ bool QueueSink::setFrame(Frame *f){
 
 void QueueSink::disconnect()
 {
-  frame = NULL;
+    //The buffer of the frame must not be used any more
+    if (receiving && fSource != NULL) {
+        fSource->stopGettingFrames();
+        nextTask() = envir().taskScheduler().scheduleDelayedTask(0,
+            (TaskFunc*)QueueSink::staticContinuePlaying, this);
+    }
+    
+    receiving = false;
+    nextFrame = true;
+    frame = NULL;
 }
diff --git a/src/modules/receiver/QueueSink.hh b/src/modules/receiver/QueueSink.hh
index b67343d..d764c04 100644
--- a/src/modules/receiver/QueueSink.hh
+++ b/src/modules/receiver/QueueSink.hh
@@ -82,6 +82,7 @@ protected:
     Frame *frame;
     
     unsigned char *dummyBuffer;
+    bool receiving; // the source has the buffer of the frame
     bool nextFrame;
     FramedFilter* fFilter;
 };
-- 
2.43.0


From 65c082c4211fb9c391c953f704ab99d4194efaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:36 +0000
Subject: [PATCH 112/121] fix: the receiver used the sinks of ended subsessions

---
 src/modules/receiver/QueueSink.cpp     |  7 +++++-
 src/modules/receiver/QueueSink.hh      |  9 ++++++++
 src/modules/receiver/SourceManager.cpp | 30 ++++++++++++++++++++------
 src/modules/receiver/SourceManager.hh  |  7 ++++++
 4 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/modules/receiver/QueueSink.cpp b/src/modules/receiver/QueueSink.cpp
index 1a10304..e553576 100644
--- a/src/modules/receiver/QueueSink.cpp
+++ b/src/modules/receiver/QueueSink.cpp
@@ -22,12 +22,13 @@
  */
 
 #include "QueueSink.hh"
+#include "SourceManager.hh"
 #include "../../Utils.hh"
 
 #include <sys/time.h>
 
 QueueSink::QueueSink(UsageEnvironment& env, unsigned port, FramedFilter* filter)
-  : MediaSink(env), fPort(port), receiving(false), nextFrame(true), fFilter(filter)
+  : MediaSink(env), fPort(port), receiving(false), nextFrame(true), fFilter(filter), manager(NULL)
 {
     frame = NULL;
     dummyBuffer = new unsigned char[DUMMY_RECEIVE_BUFFER_SIZE];
@@ -35,6 +36,10 @@ QueueSink::QueueSink(UsageEnvironment& env, unsigned port, FramedFilter* filter)
 
 QueueSink::~QueueSink()
 {
+    if (manager != NULL) {
+        manager->removeSink(fPort, this);
+    }
+
     delete[] dummyBuffer;
 }
 
diff --git a/src/modules/receiver/QueueSink.hh b/src/modules/receiver/QueueSink.hh
index d764c04..7dec313 100644
--- a/src/modules/receiver/QueueSink.hh
+++ b/src/modules/receiver/QueueSink.hh
@@ -30,6 +30,8 @@
 
 #define DUMMY_RECEIVE_BUFFER_SIZE 200000
 
+class SourceManager;
+
 class QueueSink: public MediaSink {
 
 public:
@@ -55,6 +57,12 @@ public:
      */
     bool setFrame(Frame *f);
     
+    /**
+     * Sets the manager that uses this sink, it is told when the sink is closed
+     * @param mngr manager of the sink
+     */
+    void setManager(SourceManager *mngr) {manager = mngr;};
+    
     /**
     * @return filter pointer of the source.
     */
@@ -85,6 +93,7 @@ protected:
     bool receiving; // the source has the buffer of the frame
     bool nextFrame;
     FramedFilter* fFilter;
+    SourceManager* manager;
 };
 
 #endif
diff --git a/src/modules/receiver/SourceManager.cpp b/src/modules/receiver/SourceManager.cpp
index 0409ec0..d48f86a 100644
--- a/src/modules/receiver/SourceManager.cpp
+++ b/src/modules/receiver/SourceManager.cpp
@@ -170,13 +170,14 @@ bool SourceManager::removeSession(std::string id)
     if (scs->session != NULL) {
         MediaSubsessionIterator iter(*(scs->session));
         while ((subsession = iter.next()) != NULL) {
-            if (subsession->sink != NULL){
-                int port = subsession->clientPortNum();
+            int port = subsession->clientPortNum();
+            if (scs->hasSubsessionStats(port)) {
                 disconnectWriter(port);
+                scs->removeSubsessionStats(port);
+            }
+            if (subsession->sink != NULL){
                 Medium::close(subsession->sink);
                 subsession->sink = NULL;
-                sinks.erase(port);
-                scs->removeSubsessionStats(port);
                 someSubsessionsWereActive = true;
             }
             if (subsession->rtcpInstance() != NULL) {
@@ -206,7 +207,8 @@ Session* SourceManager::getSession(std::string id)
 
 bool SourceManager::addSink(unsigned port, QueueSink *sink)
 {
-    if(sinks.count(port) > 0){
+    //A finished subsession may still have its consumer
+    if(sinks.count(port) > 0 || isWConnected(port)){
         utils::warningMsg("sink id must be unique!");
         return false;
     }
@@ -217,10 +219,18 @@ bool SourceManager::addSink(unsigned port, QueueSink *sink)
     }
     
     sinks[port] = sink;
+    sink->setManager(this);
 
     return true;
 }
 
+void SourceManager::removeSink(unsigned port, QueueSink *sink)
+{
+    if (sinks.count(port) > 0 && sinks[port] == sink) {
+        sinks.erase(port);
+    }
+}
+
 bool SourceManager::specificWriterConfig(int writerID)
 {
     if (sinks.count(writerID) != 1){
@@ -265,7 +275,10 @@ FrameQueue *SourceManager::allocQueue(ConnectionData cData)
 bool SourceManager::specificWriterDelete(int writerID)
 {
     if (outputStreamInfos.count(writerID) > 0) {
-        sinks[writerID]->disconnect();
+        //The sink may be gone before its consumer
+        if (sinks.count(writerID) > 0) {
+            sinks[writerID]->disconnect();
+        }
     } else {
         utils::errorMsg ("[SourceManager::specificWriterDelete] Unknown port number " + std::to_string(writerID));
         return false;
@@ -709,6 +722,11 @@ bool StreamClientState::removeSubsessionStats(size_t port)
     return true;
 }
 
+bool StreamClientState::hasSubsessionStats(size_t port)
+{
+    return smsStats.count(port) > 0;
+}
+
 SCSSubsessionStats* StreamClientState::getSubsessionStats(size_t port)
 {
     if (smsStats.count(port) <= 0) {
diff --git a/src/modules/receiver/SourceManager.hh b/src/modules/receiver/SourceManager.hh
index 1f2bcde..9c0145c 100644
--- a/src/modules/receiver/SourceManager.hh
+++ b/src/modules/receiver/SourceManager.hh
@@ -76,6 +76,11 @@ public:
     */
     bool removeSubsessionStats(size_t port);
 
+    /**
+    * Tells whether there are stats of the specified port/id
+    */
+    bool hasSubsessionStats(size_t port);
+
     /**
     * Returns specific SCSSubsession stat by specifying the port/id
     */
@@ -170,6 +175,8 @@ private:
     friend bool Session::initiateSession();
     friend bool StreamClientState::addSinkToMngr(unsigned port, QueueSink* sink);
     bool addSink(unsigned port, QueueSink *sink);
+    friend class QueueSink;
+    void removeSink(unsigned port, QueueSink *sink);
 
     bool doProcessFrame(std::map<int, Frame*> &dFrames, int& ret);
     void addConnection(int wId, MediaSubsession* subsession);
-- 
2.43.0


From 66204cf5259a3752eb556cbb525a75f3f03a6860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:36 +0000
Subject: [PATCH 113/121] fix: receiver sessions used RTSP clients that had
 been closed

---
 src/modules/receiver/Handlers.cpp      |  9 +++++++++
 src/modules/receiver/SourceManager.cpp | 15 ++++++++-------
 src/modules/receiver/SourceManager.hh  |  3 ++-
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/modules/receiver/Handlers.cpp b/src/modules/receiver/Handlers.cpp
index 722ca64..acc51e2 100644
--- a/src/modules/receiver/Handlers.cpp
+++ b/src/modules/receiver/Handlers.cpp
@@ -286,7 +286,16 @@ namespace handlers
             }
         }
 
+        //The timers use the client
+        if (scs.streamTimerTask != NULL) {
+            env.taskScheduler().unscheduleDelayedTask(scs.streamTimerTask);
+        }
+        if (scs.sessionTimeoutBrokenServerTask != NULL) {
+            env.taskScheduler().unscheduleDelayedTask(scs.sessionTimeoutBrokenServerTask);
+        }
+
         env << "Closing the stream.\n";
+        scs.client = NULL;
         Medium::close(rtspClient);
     }
 
diff --git a/src/modules/receiver/SourceManager.cpp b/src/modules/receiver/SourceManager.cpp
index d48f86a..37d7763 100644
--- a/src/modules/receiver/SourceManager.cpp
+++ b/src/modules/receiver/SourceManager.cpp
@@ -507,7 +507,6 @@ void SourceManager::doGetState(Jzon::Object &filterNode)
 // Implementation of "Session"
 
 Session::Session(std::string id, SourceManager *const mngr, bool keepAliveMsg)
-  : client(NULL)
 {
     scs = new StreamClientState(id, mngr, keepAliveMsg);
 }
@@ -540,7 +539,7 @@ Session* Session::createNewByURL(UsageEnvironment& env, std::string progName, st
         return NULL;
     }
 
-    session->client = rtspClient;
+    session->scs->client = rtspClient;
 
     return session;
 }
@@ -586,8 +585,8 @@ bool Session::initiateSession()
         }
         return true;
 
-    } else if (client != NULL){
-        unsigned ret = client->sendDescribeCommand(handlers::continueAfterDESCRIBE);
+    } else if (scs->client != NULL){
+        unsigned ret = scs->client->sendDescribeCommand(handlers::continueAfterDESCRIBE);
         std::cout << "SEND DESCRIBE COMMAND RETURN: " << ret << std::endl;
         return true;
     }
@@ -598,8 +597,8 @@ bool Session::initiateSession()
 void Session::sendTeardown()
 {
     //Sessions described by the user have no server
-    if (client != NULL && scs->session != NULL) {
-        client->sendTeardownCommand(*scs->session, NULL);
+    if (scs->client != NULL && scs->session != NULL) {
+        scs->client->sendTeardownCommand(*scs->session, NULL);
     }
 }
 
@@ -614,6 +613,8 @@ Session::~Session() {
         }
     }
     
+    RTSPClient* client = scs->client;
+    
     delete scs;
 
     if (client != NULL) {
@@ -643,7 +644,7 @@ MediaSubsession* Session::getSubsessionByPort(int port)
 // Implementation of "StreamClientState":
 
 StreamClientState::StreamClientState(std::string id_, SourceManager *const  manager, bool keepAliveMsg) :
-    mngr(manager), iter(NULL), session(NULL), subsession(NULL),
+    mngr(manager), client(NULL), iter(NULL), session(NULL), subsession(NULL),
     streamTimerTask(NULL), duration(0.0), 
     sessionTimeoutBrokenServerTask(NULL), sessionStatsMeasurementTask(NULL),
     statsMeasurementIntervalMS(DEFAULT_STATS_TIME_INTERVAL), nextStatsMeasurementUSecs(0),
diff --git a/src/modules/receiver/SourceManager.hh b/src/modules/receiver/SourceManager.hh
index 9c0145c..193932e 100644
--- a/src/modules/receiver/SourceManager.hh
+++ b/src/modules/receiver/SourceManager.hh
@@ -99,6 +99,8 @@ public:
 public:
     SourceManager *const mngr;
 
+    /* RTSP client of the session, NULL if there is none or it has been closed */
+    RTSPClient* client;
     MediaSubsessionIterator* iter;
     MediaSession* session;
     MediaSubsession* subsession;
@@ -137,7 +139,6 @@ public:
 protected:
     Session(std::string id, SourceManager *const mngr, bool keepAliveMsg);
 
-    RTSPClient* client;
     StreamClientState *scs;
 };
 
-- 
2.43.0


From 6e3d667fbb7617afcd950e4e6252f53519134add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:13 +0000
Subject: [PATCH 114/121] fix: parameter sets of SDP descriptions overran their
 buffer, were delivered as empty frames and missed by early consumers

---
 src/modules/receiver/H264VideoSdpParser.cpp | 29 ++++++++++++---------
 src/modules/receiver/H264VideoSdpParser.hh  | 14 ++++------
 src/modules/receiver/SourceManager.cpp      |  4 ++-
 3 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/modules/receiver/H264VideoSdpParser.cpp b/src/modules/receiver/H264VideoSdpParser.cpp
index 2fc2ef6..ea53e58 100644
--- a/src/modules/receiver/H264VideoSdpParser.cpp
+++ b/src/modules/receiver/H264VideoSdpParser.cpp
@@ -33,9 +33,21 @@ H264VideoSdpParser* H264VideoSdpParser::createNew(UsageEnvironment& env, FramedS
 }
 
  H264VideoSdpParser::H264VideoSdpParser(UsageEnvironment& env, FramedSource* inputSource, char const* sPropParameterSetsStr)
-  : FramedFilter(env, inputSource), injectedMetadataNALs(0), extradataSize(0)
+  : FramedFilter(env, inputSource)
 {
-    sPropRecords = parseSPropParameterSets(sPropParameterSetsStr, numSPropRecords);
+    unsigned numSPropRecords;
+    SPropRecord* sPropRecords = parseSPropParameterSets(sPropParameterSetsStr, numSPropRecords);
+    
+    for (unsigned i = 0; i < numSPropRecords; i++) {
+        if (sPropRecords[i].sPropLength == 0) {
+            continue;
+        }
+        extradata.insert(extradata.end(), startCode, startCode + sizeof(startCode));
+        extradata.insert(extradata.end(), sPropRecords[i].sPropBytes, 
+                         sPropRecords[i].sPropBytes + sPropRecords[i].sPropLength);
+    }
+    
+    delete[] sPropRecords;
 }
 
 H264VideoSdpParser::~H264VideoSdpParser() 
@@ -45,17 +57,8 @@ H264VideoSdpParser::~H264VideoSdpParser()
 
 void H264VideoSdpParser::doGetNextFrame() 
 {
-    if (injectedMetadataNALs < numSPropRecords) {
-        memmove(extradata + extradataSize, startCode, sizeof(startCode));
-        memmove(extradata + sizeof(startCode) + extradataSize, sPropRecords[injectedMetadataNALs].sPropBytes, sPropRecords[injectedMetadataNALs].sPropLength);
-        extradataSize += sizeof(startCode) + sPropRecords[injectedMetadataNALs].sPropLength;
-        fNumTruncatedBytes = 0;
-        injectedMetadataNALs++;
-        afterGetting(this);
-    } else {
-        fInputSource->getNextFrame(fTo + sizeof(startCode), fMaxSize - sizeof(startCode), 
-                                    afterGettingFrame, this, FramedSource::handleClosure, this);
-    }  
+    fInputSource->getNextFrame(fTo + sizeof(startCode), fMaxSize - sizeof(startCode), 
+                               afterGettingFrame, this, FramedSource::handleClosure, this);
 }
 
 void H264VideoSdpParser
diff --git a/src/modules/receiver/H264VideoSdpParser.hh b/src/modules/receiver/H264VideoSdpParser.hh
index 4255b4b..8f6f3bc 100644
--- a/src/modules/receiver/H264VideoSdpParser.hh
+++ b/src/modules/receiver/H264VideoSdpParser.hh
@@ -25,7 +25,8 @@
 
 #include <FramedFilter.hh>
 #include <H264VideoRTPSource.hh> // for "parseSPropParameterSets()"
-#define MAX_EXTRADATA_SIZE 128
+
+#include <vector>
 
 /*! An AAC ADTS header parser, which constructs the Audio Specific Config string from extracted information */
 
@@ -43,12 +44,12 @@ public:
     /**
     * @return Pointer to the parsed headers from sdp, mainly SPS and PPS
     */
-    unsigned char* getExtradata() {return extradata;};
+    unsigned char* getExtradata() {return extradata.data();};
     
     /**
      * @return number of bytes filled in extradata buffer
      */
-    unsigned getExtradataSize() {return extradataSize;};
+    unsigned getExtradataSize() {return extradata.size();};
 
 protected:
     H264VideoSdpParser(UsageEnvironment& env, FramedSource* inputSource, char const* sPropParameterSetsStr);
@@ -67,12 +68,7 @@ protected:
                             struct timeval presentationTime,
                             unsigned durationInMicroseconds);
 private:
-    SPropRecord* sPropRecords;
-    unsigned numSPropRecords;
-    unsigned injectedMetadataNALs;
-    
-    unsigned char extradata[MAX_EXTRADATA_SIZE];
-    unsigned extradataSize;
+    std::vector<unsigned char> extradata;
 };
 
 #endif
\ No newline at end of file
diff --git a/src/modules/receiver/SourceManager.cpp b/src/modules/receiver/SourceManager.cpp
index 37d7763..32ef152 100644
--- a/src/modules/receiver/SourceManager.cpp
+++ b/src/modules/receiver/SourceManager.cpp
@@ -44,7 +44,9 @@ static void fillH264or5ExtraData(const MediaSubsession *mss, StreamInfo *si)
         return;
     }
     
-    si->setExtraData(parser->getExtradata(), parser->getExtradataSize());
+    if (parser->getExtradataSize() > 0) {
+        si->setExtraData(parser->getExtradata(), parser->getExtradataSize());
+    }
 }
 
 static StreamInfo *createStreamInfo(const MediaSubsession *mss)
-- 
2.43.0


From 18fdc4622fd89c1a15f2e23715463a6e87e9102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:02 +0000
Subject: [PATCH 115/121] fix: refused receiver sessions stayed listed with
 sinks on closed sources, failed subsessions crashed

---
 src/modules/receiver/Handlers.cpp      | 29 +++++++++++-----------
 src/modules/receiver/Handlers.hh       |  1 +
 src/modules/receiver/SourceManager.cpp | 34 ++++++++++++--------------
 3 files changed, 31 insertions(+), 33 deletions(-)

diff --git a/src/modules/receiver/Handlers.cpp b/src/modules/receiver/Handlers.cpp
index acc51e2..cb89b03 100644
--- a/src/modules/receiver/Handlers.cpp
+++ b/src/modules/receiver/Handlers.cpp
@@ -116,20 +116,11 @@ namespace handlers
             if (!handlers::addSubsessionSink(env, scs.subsession)){
                 utils::errorMsg("Failed linking subsession and QueueSink");
                 scs.subsession->deInitiate();
-            }
-
-            if(!(queueSink = dynamic_cast<QueueSink *>(scs.subsession->sink))){
-                utils::errorMsg("Failed to initiate subsession sink");
-                scs.subsession->deInitiate();
-            }
-            
-            if (!scs.addSinkToMngr(queueSink->getPort(), queueSink)){
-                utils::errorMsg("Failed adding sink in SourceManager");
-                scs.subsession->deInitiate();
-            }
-
-            if (!scs.addNewSubsessionStats(queueSink->getPort(), scs.subsession)){
-                utils::errorMsg("Failed adding subsession statistics in SourceManager");
+            } else if(!(queueSink = dynamic_cast<QueueSink *>(scs.subsession->sink)) ||
+                !scs.addSinkToMngr(queueSink->getPort(), queueSink) ||
+                !scs.addNewSubsessionStats(queueSink->getPort(), scs.subsession)){
+                utils::errorMsg("Failed adding sink or subsession statistics in SourceManager");
+                closeSubsessionSink(scs.subsession);
                 scs.subsession->deInitiate();
             }
 
@@ -334,6 +325,16 @@ namespace handlers
         return true;
     }
 
+    void closeSubsessionSink(MediaSubsession *subsession)
+    {
+        Medium::close(subsession->sink);
+        subsession->sink = NULL;
+
+        if (subsession->rtcpInstance() != NULL) {
+            subsession->rtcpInstance()->setByeHandler(NULL, NULL);
+        }
+    }
+
     std::string modifySessionName(std::string sdp, std::string sessionName)
     {
         std::string newSdp;
diff --git a/src/modules/receiver/Handlers.hh b/src/modules/receiver/Handlers.hh
index 4941c19..ce2f861 100644
--- a/src/modules/receiver/Handlers.hh
+++ b/src/modules/receiver/Handlers.hh
@@ -35,6 +35,7 @@ namespace handlers
     void subsessionAfterPlaying(void* clientData);
     void subsessionByeHandler(void* clientData);
     bool addSubsessionSink(UsageEnvironment& env, MediaSubsession *subsession);
+    void closeSubsessionSink(MediaSubsession *subsession);
 };
 
 #endif
diff --git a/src/modules/receiver/SourceManager.cpp b/src/modules/receiver/SourceManager.cpp
index 32ef152..7263718 100644
--- a/src/modules/receiver/SourceManager.cpp
+++ b/src/modules/receiver/SourceManager.cpp
@@ -369,13 +369,16 @@ bool SourceManager::addSessionEvent(Jzon::Node* params)
         return false;
     }
 
-    if (addSession(session)) {
-        if(session->initiateSession()){
-            return true; 
-        } 
+    if (!addSession(session)) {
+        return false;
+    }
+    
+    if (!session->initiateSession()) {
+        removeSession(sessionId);
+        return false;
     }
 
-    return false;
+    return true;
 }
 
 std::string SourceManager::makeSessionSDP(std::string sessionName, std::string sessionDescription)
@@ -561,27 +564,20 @@ bool Session::initiateSession()
             } else if (!handlers::addSubsessionSink(env, subsession)){
                 utils::errorMsg("Failed to initiate subsession sink");
                 subsession->deInitiate();
+                return false;
             } else {
                 utils::infoMsg("Initiated subsession at port: " +
                 std::to_string(subsession->clientPortNum()));
-                if(!(queueSink = dynamic_cast<QueueSink *>(subsession->sink))){
-                    utils::errorMsg("Failed to initiate subsession sink");
-                    subsession->deInitiate();
-                    return false;
-                }
-                if (!scs->addSinkToMngr(queueSink->getPort(), queueSink)){
-                    utils::errorMsg("Failed adding sink in SourceManager");
+                if(!(queueSink = dynamic_cast<QueueSink *>(subsession->sink)) ||
+                    !scs->addSinkToMngr(queueSink->getPort(), queueSink) ||
+                    !scs->addNewSubsessionStats(queueSink->getPort(), subsession)){
+                    utils::errorMsg("Failed adding sink or subsession statistics in SourceManager");
+                    handlers::closeSubsessionSink(subsession);
                     subsession->deInitiate();
                     return false;
                 }
-                if(!scs->addNewSubsessionStats(queueSink->getPort(), subsession)){
-                    utils::errorMsg("Failed adding subsession statistics in SourceManager");
-                    subsession->deInitiate();
-                    return false;                    
-                }
+                increaseReceiveBufferTo(env, subsession->rtpSource()->RTPgs()->socketNum(), RTP_RECEIVE_BUFFER_SIZE);
             }
-	   
-            increaseReceiveBufferTo(env, subsession->rtpSource()->RTPgs()->socketNum(), RTP_RECEIVE_BUFFER_SIZE);
 
            subsession = iter.next();
         }
-- 
2.43.0


From 56bbab192807c2321509ab4185aa68acc1045a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:02 +0000
Subject: [PATCH 116/121] fix: PCMU sessions could not be consumed

---
 src/modules/receiver/SourceManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/receiver/SourceManager.cpp b/src/modules/receiver/SourceManager.cpp
index 7263718..54aaf4c 100644
--- a/src/modules/receiver/SourceManager.cpp
+++ b/src/modules/receiver/SourceManager.cpp
@@ -68,6 +68,7 @@ static StreamInfo *createStreamInfo(const MediaSubsession *mss)
         } else
         if (strcmp(codecName, "PCMU") == 0) {
             si->audio.codec = PCMU;
+            si->audio.sampleFormat = S16;
         } else
         if (strcmp(codecName, "PCM") == 0) {
             si->audio.codec = PCM;
-- 
2.43.0


From 2d192cc34e2a4ad07d73c1af166943d2953268f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:25 +0000
Subject: [PATCH 117/121] fix: descriptions with plain line feeds were taken
 for a single line

---
 src/modules/receiver/Handlers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/receiver/Handlers.cpp b/src/modules/receiver/Handlers.cpp
index cb89b03..6f57305 100644
--- a/src/modules/receiver/Handlers.cpp
+++ b/src/modules/receiver/Handlers.cpp
@@ -344,9 +344,9 @@ namespace handlers
         for (; std::getline(iss, line);)
         {
             if(0 == line.find(prefix)) {
-                line = prefix + sessionName + "\n";
+                line = prefix + sessionName;
             }
-            newSdp += line;
+            newSdp += line + "\n";
         }
         return newSdp;
     }
-- 
2.43.0


From bd06305e1d096ccfbda814021f05ec60be013e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:54 +0000
Subject: [PATCH 118/121] fix: receiver sessions of more than 71 minutes were
 closed early

---
 src/modules/receiver/Handlers.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/receiver/Handlers.cpp b/src/modules/receiver/Handlers.cpp
index 6f57305..bfde379 100644
--- a/src/modules/receiver/Handlers.cpp
+++ b/src/modules/receiver/Handlers.cpp
@@ -148,7 +148,7 @@ namespace handlers
             if (scs.duration > 0) {
                 unsigned const delaySlop = 2; // number of seconds extra to delay, after the stream's expected duration.  (This is optional.)
                 scs.duration += delaySlop;
-                unsigned uSecsToDelay = (unsigned)(scs.duration*1000000);
+                int64_t uSecsToDelay = (int64_t)(scs.duration*1000000);
                 scs.streamTimerTask = env.taskScheduler().scheduleDelayedTask(uSecsToDelay, (TaskFunc*)streamTimerHandler, rtspClient);
             }
 
@@ -163,7 +163,7 @@ namespace handlers
                 unsigned secondsUntilNextKeepAlive = sessionTimeout <= 5 ? 1 : sessionTimeout - 5;
                 scs.sessionTimeoutBrokenServerTask = 
                     env.taskScheduler().scheduleDelayedTask(
-                        secondsUntilNextKeepAlive*1000000,(TaskFunc*)checkSessionTimeoutBrokenServer, rtspClient);
+                        secondsUntilNextKeepAlive*(int64_t)1000000,(TaskFunc*)checkSessionTimeoutBrokenServer, rtspClient);
             }
 
             success = True;
@@ -244,7 +244,7 @@ namespace handlers
         unsigned secondsUntilNextKeepAlive = sessionTimeout <= 5 ? 1 : sessionTimeout - 5;
 
         scs.sessionTimeoutBrokenServerTask
-            = env.taskScheduler().scheduleDelayedTask(secondsUntilNextKeepAlive*1000000,
+            = env.taskScheduler().scheduleDelayedTask(secondsUntilNextKeepAlive*(int64_t)1000000,
         		 (TaskFunc*)checkSessionTimeoutBrokenServer, rtspClient);
     }
 
-- 
2.43.0


From 6455e45e5634b852040d9d5e772a4cbd9635230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:16 +0000
Subject: [PATCH 119/121] fix: the least jitter of received streams could not
 exceed 40 ms

---
 src/modules/receiver/SourceManager.cpp | 6 ++++--
 src/modules/receiver/SourceManager.hh  | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modules/receiver/SourceManager.cpp b/src/modules/receiver/SourceManager.cpp
index 54aaf4c..7a51188 100644
--- a/src/modules/receiver/SourceManager.cpp
+++ b/src/modules/receiver/SourceManager.cpp
@@ -768,8 +768,9 @@ SCSSubsessionStats::SCSSubsessionStats(size_t id_, RTPSource* src, struct timeva
     id(id_), fSource(src), kbitsPerSecondMin(1e20), kbitsPerSecondMax(0),
     kBytesTotal(0.0), packetLossFractionMin(1.0), packetLossFractionMax(0.0),
     totNumPacketsReceived(0), totNumPacketsExpected(0), minInterPacketGapUS(0),
-    maxInterPacketGapUS(0), jitter(0), maxJitter(0), minJitter(40000)
+    maxInterPacketGapUS(0), jitter(0), maxJitter(0), minJitter(0), measured(false)
 {
+    totalGaps.tv_sec = totalGaps.tv_usec = 0;
     measurementEndTime = measurementStartTime = startTime;
 
     RTPReceptionStatsDB::Iterator statsIter(src->receptionStatsDB());
@@ -827,6 +828,7 @@ void SCSSubsessionStats::periodicStatMeasurement(struct timeval const& timeNow)
         totalGaps = stats->totalInterPacketGaps();
         jitter = stats->jitter();
         if(maxJitter < jitter) maxJitter = jitter;
-        if(minJitter > jitter) minJitter = jitter; 
+        if(!measured || minJitter > jitter) minJitter = jitter; 
+        measured = true;
     }
 }
diff --git a/src/modules/receiver/SourceManager.hh b/src/modules/receiver/SourceManager.hh
index 193932e..74714fc 100644
--- a/src/modules/receiver/SourceManager.hh
+++ b/src/modules/receiver/SourceManager.hh
@@ -259,6 +259,7 @@ private:
     size_t jitter;
     size_t maxJitter;
     size_t minJitter;
+    bool measured;
 };
 
 #endif
-- 
2.43.0


From 27ca784b2e467f58d5dc510832b491ee87e9f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:52 +0000
Subject: [PATCH 120/121] fix: a port reused by another received stream kept
 the format of the former one

---
 src/modules/receiver/SourceManager.cpp | 12 +++++++++++-
 src/modules/receiver/SourceManager.hh  |  1 +
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/modules/receiver/SourceManager.cpp b/src/modules/receiver/SourceManager.cpp
index 7a51188..5c3cdfa 100644
--- a/src/modules/receiver/SourceManager.cpp
+++ b/src/modules/receiver/SourceManager.cpp
@@ -126,6 +126,10 @@ SourceManager::~SourceManager()
     for (auto it : outputStreamInfos) {
         delete it.second;
     }
+
+    for (auto it : formerStreamInfos) {
+        delete it;
+    }
 }
 
 bool SourceManager::doProcessFrame(std::map<int, Frame*> &dFrames, int& ret)
@@ -221,6 +225,12 @@ bool SourceManager::addSink(unsigned port, QueueSink *sink)
         return false;
     }
     
+    //The port may have belonged to another stream, whose queue may still be in use
+    if (outputStreamInfos.count(port) > 0) {
+        formerStreamInfos.push_back(outputStreamInfos[port]);
+        outputStreamInfos.erase(port);
+    }
+
     sinks[port] = sink;
     sink->setManager(this);
 
@@ -254,7 +264,7 @@ FrameQueue *SourceManager::allocQueue(ConnectionData cData)
     } else {
         for (auto it : sessionMap) {
             mSubsession = it.second->getSubsessionByPort(cData.writerId);
-            if (mSubsession != NULL) {
+            if (mSubsession != NULL && mSubsession->sink == sinks[cData.writerId]) {
                 si = createStreamInfo (mSubsession);
                 outputStreamInfos[cData.writerId] = si;
                 break;
diff --git a/src/modules/receiver/SourceManager.hh b/src/modules/receiver/SourceManager.hh
index 74714fc..ef7c7e3 100644
--- a/src/modules/receiver/SourceManager.hh
+++ b/src/modules/receiver/SourceManager.hh
@@ -193,6 +193,7 @@ private:
 
     /* StreamInfo indexed by writerID */
     std::map<int, StreamInfo *> outputStreamInfos;
+    std::vector<StreamInfo *> formerStreamInfos;
     std::map<int, QueueSink*> sinks;
 
     UsageEnvironment* env;
-- 
2.43.0


From af526d0e5a8d351913c21341fb4e935c12cd6684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:54 +0000
Subject: [PATCH 121/121] fix: removing a receiver session disconnected the
 stream that had taken the port of its finished one

---
 src/modules/receiver/SourceManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules/receiver/SourceManager.cpp b/src/modules/receiver/SourceManager.cpp
index 5c3cdfa..4fefb60 100644
--- a/src/modules/receiver/SourceManager.cpp
+++ b/src/modules/receiver/SourceManager.cpp
@@ -179,7 +179,10 @@ bool SourceManager::removeSession(std::string id)
         while ((subsession = iter.next()) != NULL) {
             int port = subsession->clientPortNum();
             if (scs->hasSubsessionStats(port)) {
-                disconnectWriter(port);
+                //The port of a finished subsession may already be of another one
+                if (sinks.count(port) <= 0 || sinks[port] == subsession->sink) {
+                    disconnectWriter(port);
+                }
                 scs->removeSubsessionStats(port);
             }
             if (subsession->sink != NULL){
-- 
2.43.0

