# Source of properties.jsonl and MANIFEST.json (fw/mkdocs.py writes both).
def A(files, mechanism, observe, state=None):
    d = dict(files=["src/" + f for f in files.split()], mechanism=[dict(name=n, where="src/" + w) for n, w in mechanism], observe_at=observe, hook_needed=None)
    if state:
        d["state"] = [dict(name=n, meaning=m, where="src/" + w) for n, m, w in state]
    return d

PROPS = {}
def prop(pid, title, statement, over, quant, why, anchors, note):
    PROPS[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over.split(), text=quant), why_tests_cant=why, anchors=anchors, note=note)

prop("C01", "Discrete frame queue is a bounded FIFO that only drops the newest pending frame",
 "A frame queue hands out exactly the frames that were published, each once, in publication order and with the payload, length, sequence number and timestamps the producer gave it, and offers the most recently consumed frame again on demand. A plain request for room is refused exactly when all usable slots (one less than its size) are pending; a forced request then discards the newest pending frame, counts it as lost, and never touches the others; a slot obtained but not published has no effect. Each publication names the consuming filters to wake, each consumption the producing filter, and the reported element count, lost count and fullness always agree with this history, for every size and supported codec/format.",
 "histories inputs", "every sequence of obtain/publish/forced obtain/abandon/look/consume/repeat operations, for every queue size and every position of the ring",
 "The existing tests run one fixed script on one queue size; wrap-around, abandoned slots, forced room at each position and their combinations are never visited.",
 A("AVFramedQueue.cpp AVFramedQueue.hh FrameQueue.hh", [("ring indices and forced discard", "AVFramedQueue.cpp:getRear/addFrame/removeFrame/forceGetRear"), ("counting of discarded frames", "FrameQueue.hh:flush")], ["getFront/removeFrame results", "getElements", "getLostBlocs", "isFull"],
   [("front, rear", "ring indices; rear==front is empty", "FrameQueue.hh")]),
 "Exhaustive over operation sequences up to the stated depth on the real queue; sizes and ring offsets enumerated. Payload buffers are small.")

prop("C02", "Producer and consumer may use a frame queue concurrently",
 "With one producing and one consuming thread and at least two usable slots, every frame the consumer obtains is complete, unchanged while it is held, newer than the previous one, and none is obtained twice. Every published frame is either consumed or counted as lost, also when the producer forces room while the consumer holds or removes a frame. Frames that were pending before a forced discard and are not the newest one are never lost.",
 "schedules", "every interleaving of the two threads at memory-access granularity within a bounded number of preemptions",
 "The tests use the queue from one thread; the dangerous schedules are a few instructions wide.",
 A("AVFramedQueue.cpp FrameQueue.hh", [("discard excluded from consumption", "AVFramedQueue.cpp:flushIfFull"), ("single writer of each index", "FrameQueue.hh")], ["frames obtained by the consumer thread", "getLostBlocs"]),
 "All schedules within the deviation bound under sequential consistency; the compiler instruments every access of the repository's code, so preemption is possible at each racing access.")

prop("C03", "Encoder slice queue turns every coded frame into its slices, whole and in order",
 "Publishing a coded frame made of slices appends each accepted slice as one unit, in order, carrying a copy of its bytes as they were at publication and the frame's times, sequence number, size and codec. A frame holds at most sixteen slices, further ones are refused; a slice larger than a slot is dropped and counted, never truncated or written past the slot; when the queue is full each further slice replaces the newest pending unit and one lost unit is counted. Units that are held by a concurrent consumer are never modified, and every accepted slice is either consumed once or counted as lost.",
 "histories schedules", "every sequence of publishing groups of 0 to 17 slices (plain, forced, oversize) and consuming, from every ring offset; every bounded interleaving of one producer and one consumer",
 "Tests publish two fixed groups from one thread and never fill, wrap or overflow the queue.",
 A("SlicedVideoFrameQueue.cpp SlicedVideoFrameQueue.hh VideoFrame.cpp", [("copying of slices into slots", "SlicedVideoFrameQueue.cpp:addFrame/pushBackSliceGroup"), ("slice limit", "VideoFrame.cpp:SlicedVideoFrame::setSlice")], ["units obtained with getFront", "getLostBlocs"]),
 "Exhaustive up to the stated depth on the real queue with AddressSanitizer; schedule part explores every schedule within the bound.")

prop("C04", "Audio ring plays one gapless timeline: gaps turn silent, old chunks are dropped",
 "The audio ring delivers fixed-size frames of consecutive samples stamped with the time of their first sample: a chunk that starts where the previous one ended (within 64 samples) is appended unchanged, a later one is preceded by exactly the missing number of zero samples, an earlier one is discarded whole, and one that is a whole buffer length or more ahead empties the ring, is itself dropped and counted as lost, and the next chunk starts a new timeline. A chunk that does not fit is refused whole; a frame is offered only while at least one frame of samples is buffered, and the same frame is offered until it is released. No sample is delivered twice, altered, reordered or mixed between channels, and free space and element counts always agree, for however long the stream runs. A frame's origin time is that of the last chunk stored less the duration of what is stored behind the frame. Rings exist only for parameters they can hold (one or two channels, planar samples, 1 kHz or more, a capacity), and frames of any requested length are delivered whole.",
 "histories inputs", "every sequence of pushes with every size, gap, overlap and jump of the alphabet, reads and removals, for several formats, channel counts and frame sizes",
 "Three fixed scripts are tested; combinations of gaps with wrap-around and partially consumed buffers are not.",
 A("AudioCircularBuffer.cpp AudioCircularBuffer.hh", [("timestamp bookkeeping and gap filling", "AudioCircularBuffer.cpp:pushBack"), ("frame extraction", "AudioCircularBuffer.cpp:popFront")], ["samples and timestamps of getFront", "getElements", "getLostBlocs"]),
 "Exhaustive up to the stated depth against a sample-exact reference with AddressSanitizer.")

prop("C05", "Audio ring may be filled and drained concurrently",
 "With a producer and a consumer thread the consumer obtains each sample once, in order, complete and with a matching timestamp, whatever the interleaving, including silences inserted and timeline restarts caused by the producer. The number of buffered samples never exceeds the capacity and always equals pushed minus removed samples.",
 "schedules", "every interleaving of one producer and one consumer within a bounded number of preemptions",
 "The tests drive the ring from a single thread.",
 A("AudioCircularBuffer.cpp AudioCircularBuffer.hh", [("lock around counters", "AudioCircularBuffer.cpp:pushBack/popFront/removeFrame")], ["samples obtained by the consumer", "getElements"]),
 "All schedules within the deviation bound under sequential consistency, every memory access instrumented.")

prop("C06", "A shared reader gives every sharing filter each frame exactly once",
 "When several filters share one reader, each of them obtains every frame of the queue exactly once and in order; a frame leaves the queue, and the producer is told so, only when all current sharers have consumed it. A filter that joins or leaves, at any moment, neither makes another filter miss or repeat a frame nor stalls it.",
 "histories schedules", "every sequence of publishing, reading, consuming, joining and leaving with two and three filters; every bounded interleaving of those threads",
 "The tests share a reader between two filters and process them in one fixed order.",
 A("IOInterface.cpp IOInterface.hh", [("per-filter consumption state", "IOInterface.cpp:Reader::getFrame/removeFrame"), ("joining and leaving", "IOInterface.cpp:Reader::addReader/removeReader")], ["frames obtained per filter", "removeFrame's return value"],
   [("filters, requests", "which sharing filters have seen / must still consume the front frame", "IOInterface.hh")]),
 "Exhaustive up to the stated depths and deviation bounds on the real reader and queue.")

prop("C07", "Filters can be connected, shared and disconnected at any time without damage",
 "Connecting two filters either fully succeeds or, when refused (port busy or out of range, queue or configuration refused, self-connection), leaves both filters as they were; disconnecting either end frees the port for reuse, and the queue, its last frames and both endpoints' bookkeeping are released exactly once. After any sequence of connects, disconnects and sharings, frames flow exactly along the connections that exist, and each endpoint is configured and deconfigured once per connection. The same holds while other threads are processing either filter: no crash, use after release, deadlock, frame lost to another connection, or configuration change in the middle of processing a frame.",
 "histories schedules fault_sequences", "every sequence of connect (also refused at each step), disconnect, share and process on small graphs; every bounded interleaving of these with threads processing the filters",
 "Tests connect filters once on one thread; refused connections, reuse of ports and reconfiguration during processing are not covered.",
 A("Filter.cpp Filter.hh IOInterface.cpp IOInterface.hh FrameQueue.hh", [("connection set-up and roll-back", "Filter.cpp:connect/connectManyToMany/shareReader"), ("tear-down", "Filter.cpp:deleteReader/disconnectWriter/disconnectReader/disconnectAll"), ("exclusion with processing", "Filter.cpp:processFrame")], ["return values", "frames offered to the processing step", "number of live queues"]),
 "Exhaustive up to the stated depths and deviation bounds; queue lifetimes counted; memory released early is detected as a racing access.")

prop("C08", "Worker pool: one worker per filter at a time, no lost work, never early",
 "However many workers there are, a filter is never processed by two of them at the same time and never before the time it asked to wait until. A filter that was enabled by another one or has pending input or is periodic is processed again without external help, so a chain of filters drains everything its source produced. Adding the same filter twice is refused.",
 "schedules", "every interleaving of worker threads, enabling filters and timers within a bounded number of deviations",
 "The existing test adds and removes a task in one thread order the OS happens to choose.",
 A("WorkersPool.cpp WorkersPool.hh Runnable.cpp Runnable.hh", [("job queue and condition", "WorkersPool.cpp:addJob/removeFromQueue/workersLoop"), ("run state and due time", "Runnable.cpp:runProcessFrame/pendingJobs")], ["entries and exits of the processing step", "virtual time at entry", "quiescent states"]),
 "All schedules within the deviation bound under a virtual clock; lost wake-ups show as quiescence with work pending.")

prop("C09", "Removing a filter from the pool and stopping the pool are final and complete",
 "Once a removal returns, the removed filter is not being processed and never will be, so it can be destroyed, while the remaining filters go on; it can be added again. Stopping (or destroying) the pool always returns, joins all workers after their current step, and nothing is processed afterwards. This holds whatever the filter is doing at that moment: idle, queued, delayed or being processed.",
 "schedules", "every interleaving of removal/stop with the workers and timers within a bounded number of deviations",
 "A test can only hit the moment the scheduler happens to produce; the failing windows are between two instructions.",
 A("WorkersPool.cpp WorkersPool.hh", [("removal", "WorkersPool.cpp:removeTask"), ("stop", "WorkersPool.cpp:stop")], ["processing after return", "termination of the calls"]),
 "All schedules within the deviation bound; termination is decided by exploring until quiescence under the virtual clock.")

prop("C10", "Control events are executed exactly once, in time order, never during processing",
 "Every event sent to a filter whose action exists is executed exactly once with its parameters, in the order of the events' timestamps; filters that have both inputs and outputs execute it at their first step after its delay has passed (a delayed event holds back later ones), and events without a known action are dropped without effect on the others. Events may be sent from any thread and from a filter downstream, in which case they reach the filter that feeds it. An event is never executed while the filter is processing a frame or executing another event, and sending never blocks forever.",
 "histories schedules", "every sequence of sending events (ordered and late stamps, delays, failing or unknown actions), letting time pass and processing; every bounded interleaving of senders and processing threads",
 "Tests push single events synchronously.",
 A("Filter.cpp Filter.hh Event.cpp Event.hh", [("event queue", "Filter.cpp:pushEvent/processEvent"), ("upstream routing", "Filter.cpp:sendEvent")], ["order of handler invocations", "overlap with the processing step"]),
 "Exhaustive up to the stated depths and deviation bounds under a virtual clock. Source and sink filters execute events at once, whatever the delay (as implemented).")

prop("C11", "Every processing step takes and publishes exactly what it says, rightly stamped",
 "Each step of a filter takes at most one new frame from every connected input, each exactly once, tells the processing step which inputs are new and offers the last frame of the others; it publishes exactly the outputs the step marked as filled and wakes exactly their consumers (and itself when periodic), also when one of its consumers has left. A filter with nothing to do does not run. Frames keep the sequence number and origin time of the frame they were made from through one-to-one and one-to-many filters, while source and many-to-one filters number their outputs consecutively and stamp them with the current time.",
 "histories inputs", "every sequence of processing the filters of small graphs (line, split, mix, direct) with every answer of every processing step",
 "The functional test pushes one frame through one chain.",
 A("Filter.cpp Filter.hh", [("taking inputs", "Filter.cpp:demandOriginFrames*"), ("offering outputs", "Filter.cpp:demandDestinationFrames"), ("publishing", "Filter.cpp:addFrames"), ("stamping", "Filter.cpp:runDoProcessFrame of each filter class")], ["arguments of the processing step", "frames in downstream queues", "list of filters to enable"]),
 "Exhaustive up to the stated depth against a queue-level reference, including forced discards when a consumer is slow.")

prop("C12", "Multi-input filters pick frames by their synchronisation and frame-time rules",
 "A filter with a frame time takes one pending frame of each input per step: if any lies within the current window they are processed and the window advances by the frame time; otherwise, if any is older than the window all taken ones are dropped without processing; otherwise they are processed and the window jumps to the earliest. A filter with synchronised inputs takes only the inputs whose oldest frame lags the newest one by more than the margin or whose queue is nearly full; if there is none it waits until every input has a frame and takes all. Inputs without a new frame repeat their last one, and inputs whose producer has gone do not hold the others back.",
 "histories inputs", "every arrival pattern of two and three inputs with every timestamp spacing of the alphabet, with processing steps at every position",
 "The tests never feed two inputs with diverging timestamps.",
 A("Filter.cpp Filter.hh", [("frame-time window", "Filter.cpp:demandOriginFramesFrameTime"), ("synchronised inputs", "Filter.cpp:demandOriginFramesSync/demandOriginFramesBestEffort")], ["inputs and frames offered per step"]),
 "Exhaustive over arrival patterns up to the stated depth. Decode times, when given, take the place of presentation times.")

prop("C13", "Audio mixer sums its inputs sample-exactly on one continuous timeline",
 "Each sample of the mixer's output (48 kHz, stereo) is the running sum, in order of arrival, of every input's sample of that instant times the input's gain times the master gain, each addition passing the compressor so that the result stays within full scale. Frames hold 960 consecutive samples, are delivered as soon as 60 ms are mixed and are stamped with the time of their first sample; input that is older than what was delivered or for which there is no room is dropped without effect, and input before the start of the timeline or beyond the buffer restarts it at its time with nothing of the old one left. This holds however long the mixer runs, and conversions between 16-bit and floating-point samples are exact inverses that saturate at full scale.",
 "histories inputs", "every sequence of mixing steps with every placement of every input's frame (missing, on time, after a gap, overlapping, late, beyond the buffer, hours ahead)",
 "The existing tests mix one or two aligned frames; gaps, overlaps, buffer wrap-around, resynchronisation and long runs are never combined.",
 A("modules/audioMixer/AudioMixer.cpp modules/audioMixer/AudioMixer.hh Utils.cpp", [("placement on the timeline", "modules/audioMixer/AudioMixer.cpp:doProcessFrame/pushToBuffer"), ("mixing and compression", "modules/audioMixer/AudioMixer.cpp:mixChannel"), ("extraction", "modules/audioMixer/AudioMixer.cpp:fillOutputFrame")], ["samples, size and timestamp of each output frame"]),
 "Exhaustive up to the stated depth; samples compared with a reference that mixes in a map keyed by absolute position.")

prop("C14", "Audio mixer gains, mute and solo act on exactly the channel named",
 "Changing a channel's volume, muting it, making it the only one heard, or changing or muting the master has effect on exactly the channels named from the next mixed frame on, with gains limited to the range 0 to 1; unknown channels or missing parameters change nothing. A new input starts at full gain, and one that left and comes back does too. The reported state always agrees with the gains in use.",
 "histories inputs", "every sequence of control actions (every target, also unknown ones, every value, missing parameters) and of inputs leaving and coming back",
 "No existing test sends a control action to the mixer.",
 A("modules/audioMixer/AudioMixer.cpp", [("control actions", "modules/audioMixer/AudioMixer.cpp:changeChannelVolumeEvent/muteChannelEvent/soloChannelEvent/changeMasterVolumeEvent/muteMasterEvent"), ("inputs joining and leaving", "modules/audioMixer/AudioMixer.cpp:specificReaderConfig/specificReaderDelete")], ["reported state", "samples of the output"]),
 "Exhaustive up to the stated depth on the real filter.")

prop("C15", "Video mixer paints each enabled input where and how it was configured",
 "A mixed picture has the layout's size on a black background, on which every enabled input's current frame, scaled to the size configured for it, is painted at its position, from the rearmost layer (0) to the front one (the number of channels), blended with its opacity and cut at the edges; an input that lies outside or measures less than a pixel is not seen. Disabled, unconfigured and missing inputs leave no trace. Without a frame time the picture carries the newest time of what was painted, otherwise the mixer's clock. A configuration with impossible values or parameters missing is refused as a whole, the others take effect with the next picture and are reported exactly; an input that comes back starts unconfigured.",
 "histories inputs", "every sequence of channel and layout configurations, inputs leaving and coming back, and mixing steps with any subset of the inputs",
 "The existing tests mix one or two fixed layouts; overlapping layers, edges, opacity and changes between frames are not combined.",
 A("modules/videoMixer/VideoMixer.cpp modules/videoMixer/VideoMixer.hh", [("layers and time", "modules/videoMixer/VideoMixer.cpp:doProcessFrame"), ("scaling, cutting and blending", "modules/videoMixer/VideoMixer.cpp:pasteToLayout"), ("validation", "modules/videoMixer/VideoMixer.cpp:configChannel0/configure0")], ["pixels, size and timestamps of each output frame", "reported state"]),
 "Exhaustive up to the stated depth against a painter's model; pictures are slow ramps so that any reasonable scaling gives the expected value within a tolerance, and equal sizes must match exactly. Every byte around the picture is checked.")

prop("C16", "Video splitter gives every output exactly its crop of each picture",
 "Each output whose crop is configured and lies inside the picture gets exactly those pixels, with their size and length and the times, number and origin of the picture; an output without a crop, or whose crop does not fit in the picture or in the output's frame, gets nothing and does not affect the others. Impossible or incomplete crop configurations are refused as a whole, others take effect with the next picture and are reported exactly. An output that comes back starts without a crop.",
 "histories inputs", "every sequence of crop configurations, outputs leaving and coming back and pictures of any size for any subset of outputs",
 "The existing tests split one picture with two fixed crops.",
 A("modules/videoSplitter/VideoSplitter.cpp modules/videoSplitter/VideoSplitter.hh", [("cropping", "modules/videoSplitter/VideoSplitter.cpp:doProcessFrame"), ("validation", "modules/videoSplitter/VideoSplitter.cpp:configCrop0")], ["pixels, size, length and stamps of each output frame", "reported state"]),
 "Exhaustive up to the stated depth with AddressSanitizer. The rotation angle is stored and reported but (as implemented) not applied.")

prop("C17", "Video resampler delivers every picture in the configured size and format",
 "Every picture of a supported format is delivered in the configured size (its own where none is configured) and pixel format, showing the same image, with its times, number and origin unchanged, whenever the size or format of the input or the configuration changes from one picture to the next. A picture of unknown format, or whose result does not fit in the output's frame, is not delivered and does not disturb later ones. A configuration with an unknown format or negative size is refused and the previous one stays in force.",
 "histories inputs", "every sequence of configurations (complete, partial, refused) and pictures of any size and format",
 "No existing test covers the resampler.",
 A("modules/videoResampler/VideoResampler.cpp modules/videoResampler/VideoResampler.hh", [("change detection", "modules/videoResampler/VideoResampler.cpp:reconfigure"), ("conversion", "modules/videoResampler/VideoResampler.cpp:doProcessFrame"), ("validation", "modules/videoResampler/VideoResampler.cpp:configure0/configEvent")], ["pixels, format, size, length and stamps of each output frame", "frame time"]),
 "Exhaustive up to the stated depth with AddressSanitizer; colours compared with an independent conversion within a tolerance. The filter is constructed in memory that is not zero.")

prop("C26", "JSON documents are read and written exactly, malformed ones refused",
 "Every well-formed document read by the JSON parser (comments, any spacing, escape sequences including \\u, numbers with fraction and exponent) gives exactly its tree of members, elements and values; what the writer produces from any tree, however it was built, is well-formed in every format and reads back as the same tree. A document that is cut, whose brackets or strings do not match, that has unknown words, a root that is not an object, or something after its end is refused with an error, without crash or leak. A parser that has refused a document reads the next one as if it were the first.",
 "inputs histories", "every tree up to a size with every spacing, every string over an alphabet of delicate characters, every number form, every token sequence up to a length, every single-character change and every cut of real requests",
 "The existing tests read no JSON text at all except one fixed state dump.",
 A("Jzon.cpp Jzon.h", [("tokens", "Jzon.cpp:RemoveWhitespace/Parser::tokenize/readString/interpretValue"), ("tree", "Jzon.cpp:Parser::assemble"), ("escapes", "Jzon.cpp:Value::EscapeString/UnescapeString"), ("writer", "Jzon.cpp:Writer")], ["tree after Parse", "text of the writer", "acceptance"]),
 "Exhaustive within the stated bounds with AddressSanitizer, against a strict parser written from RFC 8259. Misplaced or missing separators are read leniently by design: about such documents only memory safety is claimed.")

prop("C25", "Every control request is executed once and answered completely",
 "Whatever pieces a request arrives in, once it is complete the controller executes each of its events exactly once, in order, answers with one document that has the result of every event in that order, however the socket splits the sending, and closes the connection. A request that is malformed, never completed, larger than the controller can hold or has no list of events executes nothing and is answered with an error. Clients that leave, reset the connection, stall or do not read, and system calls that are interrupted, neither end nor block the controller (each client is given a limited time): the next client is served. No descriptor leaks, is closed twice or used after being closed, also when the socket cannot be set up.",
 "inputs fault_sequences histories", "every segmentation of a menu of requests (well formed, malformed, incomplete, oversize) with up to two or three cuts, every placement of interrupted or failing socket calls, every split of the answer, every client behaviour, one client after another",
 "The unit tests of the controller use one local client that sends one short request in one piece.",
 A("Controller.cpp Controller.hh", [("listen", "Controller.cpp:createSocket/listenSocket"), ("read", "Controller.cpp:readAndParse"), ("answer", "Controller.cpp:processRequest/sendAndClose")], ["events given to the pipeline manager", "bytes of the answer", "descriptors open"]),
 "The socket calls are replaced at link time by a modelled network (recv/read, send/write, select/poll, accept, close, ...); the controller and the JSON code are the real ones, the pipeline manager records. Exhaustive within the stated number of cuts, faults and clients.")

prop("C27", "The pipeline graph follows exactly the control events it accepts",
 "At any moment the filters, their types, the tasks of the worker pool and the paths are exactly those that the accepted events (create/remove filter, create/remove path, stop) leave, and the state document lists them. An event is accepted if and only if it is possible: ids exist or are free as required, middle filters are distinct and are not an end of the path, every port to be used is free (or the origin's writer is already connected and its frames can be shared with the new reader), no filter gets more readers or writers than it has; whatever is refused, malformed or of the wrong type is answered with an error and changes nothing. Every frame a source writes reaches exactly the ends of the paths that lead from that writer, once. Removing a path disconnects it and deletes those of its filters that are in no other path, without disturbing other paths; stopping removes everything, and the pipeline can be built again. All of it holds while the worker threads move frames and filters send events to each other.",
 "inputs schedules histories", "every sequence of events up to a depth over two sources, two middle filters and two ends (also mixers and splitters in the middle), every event with up to two or three values replaced by others, and every schedule of the control thread against the workers within a deviation bound",
 "No existing test builds PipelineManager.cpp with a real graph: one unit test creates and deletes single filters, the functional tests run one fixed path each.",
 A("PipelineManager.cpp PipelineManager.hh Path.cpp Path.hh Filter.cpp", [("paths", "PipelineManager.cpp:createPath/connectPath/handleGrouping/validCData/deletePath/removePath"), ("filters", "PipelineManager.cpp:createFilter/addFilter/removeFilter/deleteFilter/eraseFilter"), ("events", "PipelineManager.cpp:processEvent/dispatchEvent/processFilterEvent"), ("stop", "PipelineManager.cpp:stop")], ["error member of every answer", "getState document", "filters alive, pool tasks, queues alive", "frames received by every reader"]),
 "The manager, paths, filter base classes, readers, writers and queues are the real code (and the pool in the concurrent part); concrete filters are stand-ins with the same base classes, because the network and codec modules do not build here. Sequential part exhaustive up to the depth; concurrent part exhaustive up to the deviation bound.")

prop("C18", "Video encoders code each picture once, in order, with its times and intra",
 "Between two reconfigurations, what an AVC or HEVC encoder delivers is a decodable stream in decoding order: each access unit codes exactly one of the pictures it got, in its size and format, and carries that picture's presentation time, origin time and size; no picture comes twice, and only those still inside the encoder at a reconfiguration (or change of size or format) are lost. The delay is constant; decode times strictly increase and are not after the presentation. The first picture after a (re)configuration and the next one taken after a forced intra request are IDR with the parameter sets in front; with a GOP time there is exactly one IDR at the first picture at or after each instant of the grid (also when the reference time is moved, and one only after a gap), and never more than the configured GOP between two. A configuration that is invalid, or a picture that cannot be coded, is refused and leaves the rest as it was; a partial configuration changes only what it names; the state lists what is in force. Nothing is left behind and no memory error occurs.",
 "inputs histories", "every sequence of pictures (usual, after a gap, of another size or format, unsupported), configuration changes (complete, partial, refused), intra and reference time requests up to a depth, for several GOPs, B frames, lookaheads and thread counts",
 "No existing test calls an encoder; what they deliver depends on the order of requests, gaps and pictures still inside the codec.",
 A("modules/videoEncoder/VideoEncoderX264or5.cpp modules/videoEncoder/VideoEncoderX264.cpp modules/videoEncoder/VideoEncoderX265.cpp", [("pictures in and out", "modules/videoEncoder/VideoEncoderX264or5.cpp:doProcessFrame/fill_x264or5_picture"), ("intra", "modules/videoEncoder/VideoEncoderX264or5.cpp:forceIntraEvent/setIntraTime"), ("configuration", "modules/videoEncoder/VideoEncoderX264or5.cpp:configure0/configEvent/reconfigure"), ("x264", "modules/videoEncoder/VideoEncoderX264.cpp:encodeFrame/encodeHeadersFrame/reconfigure"), ("x265", "modules/videoEncoder/VideoEncoderX265.cpp:encodeFrame/encodeHeadersFrame/reconfigure")], ["NAL units delivered, decoded again with libavcodec", "presentation, decode and origin times", "state document", "allocated memory"]),
 "Exhaustive up to the stated depth over the real encoder libraries; pictures are small, presets fast ones. Presets the library does not know, odd sizes and reference times in the future are not explored; the memory x265 itself keeps is not checked.")

prop("C19", "The shared memory holds whole pictures and is never written while read",
 "A process that follows the protocol (look at the first byte, read when it may, give the memory back) always finds one whole picture with its own header: number, format, codec, size, time and length belong to the data, which is a raw picture or a complete H.264 access unit with uniform start codes, whatever units are around the slices (parameter sets, SEI, delimiters, unknown, empty or broken ones). Pictures are shared in order and once; only those that come while the reader has the memory, or do not fit in it, are left out, whole. From the moment a picture is offered until the reader gives the memory back not one byte of it changes. Every frame also passes through the filter unchanged, with its times. A filter that cannot be created (codec, key in use, no memory) leaves nothing behind and touches no other segment; destroying one removes its segment.",
 "inputs schedules fault_sequences", "every sequence of pictures, NAL units and releases up to a depth, every schedule of filter and reader within a deviation bound, every failing system call",
 "The stable test only connects the filter; what a reader finds depends on when it gives the memory back.",
 A("modules/sharedMemory/SharedMemory.cpp", [("handshake", "modules/sharedMemory/SharedMemory.cpp:doProcessFrame/isWritable/writeSharedMemoryRAW/writeSharedMemoryH264"), ("access units", "modules/sharedMemory/SharedMemory.cpp:parseNal/appendNalToFrame"), ("header", "modules/sharedMemory/SharedMemory.cpp:fillHeader"), ("segment", "modules/sharedMemory/SharedMemory.cpp:SharedMemory/createNew")], ["bytes of the segment at every step", "system calls on it", "frame passed on", "state document"]),
 "The segment is answered by the harness (no System V segment is created). The scheduler explores sequentially consistent executions; the handshake byte is a plain byte, so compiler and processor reordering is not covered.")

prop("C20", "DASH segments of AVC video hold exactly the pictures that came in",
 "Every segment written for an H.264 representation is a well-formed ISO media segment that holds, in order, complete and unchanged, the pictures received since the previous one (from the first intra picture on), whatever the NAL units around the slices (delimiters, parameter sets, SEI, unknown or empty ones), start codes, number of slices and presence of decode times; pictures that do not fit in a segment are left out whole. Each sample has the times of its picture (also when pictures are presented in another order than decoded) and lasts until the next one is decoded, only intra pictures are marked as sync samples, and each segment begins with an intra picture, starts where the previous one ended and has the next sequence number. A segment is cut at the first intra picture at which it has the configured duration, and not earlier than the last picture before would complete it. The init segment holds the size and the parameter sets of the stream, and is renewed when they change. Nothing is read or written beyond a buffer.",
 "inputs histories", "every sequence of access units of the menu (up to ten kinds) with every spacing of the alphabet, up to a depth",
 "The existing tests feed one recorded stream and compare single files; the test of segment generation does not pass.",
 A("modules/dasher/DashVideoSegmenter.cpp modules/dasher/DashVideoSegmenterAVC.cpp modules/dasher/i2libdash.c modules/dasher/i2libisoff.c modules/dasher/Dasher.cpp", [("access units", "modules/dasher/DashVideoSegmenterAVC.cpp:parseNal"), ("cut", "modules/dasher/i2libdash.c:generate_video_segment/add_video_sample"), ("boxes", "modules/dasher/i2libisoff.c:segmentGenerator/initVideoGenerator"), ("origin of time", "modules/dasher/Dasher.cpp:doProcessFrame")], ["every file on disk, parsed box by box", "MPD"]),
 "Exhaustive up to the stated depth; reordered pictures are B frames between others (intra pictures close the group, as the encoders of this repository produce them). Open finding: the profile bytes of avcC.")

prop("C21", "DASH segments of HEVC video hold exactly the pictures that came in",
 "Every segment written for an H.265 representation is a well-formed ISO media segment that holds, in order, complete and unchanged, the pictures received since the previous one (from the first intra picture - IDR or CRA - on), whatever the NAL units around the slices (delimiters, parameter sets, prefix or suffix SEI, unknown or empty ones), start codes, number of slices and presence of decode times; pictures that do not fit in a segment are left out whole. Each sample has the times of its picture (also when pictures are presented in another order than decoded) and lasts until the next one is decoded, only intra pictures are marked as sync samples, and each segment begins with an intra picture, starts where the previous one ended and has the next sequence number. A segment is cut at the first intra picture at which it has the configured duration, and not earlier than the last picture before would complete it. The init segment holds the size and the three parameter sets of the stream, and is renewed when they change.",
 "inputs histories", "every sequence of access units of the menu (up to ten kinds, three kinds of intra picture) with every spacing of the alphabet, up to a depth",
 "The existing tests feed one recorded stream and compare single files; the test of segment generation does not pass.",
 A("modules/dasher/DashVideoSegmenter.cpp modules/dasher/DashVideoSegmenterHEVC.cpp modules/dasher/i2libdash.c modules/dasher/i2libisoff.c modules/dasher/Dasher.cpp", [("access units", "modules/dasher/DashVideoSegmenterHEVC.cpp:parseNal"), ("parameter sets", "modules/dasher/DashVideoSegmenterHEVC.cpp:updateExtradata/createExtradata"), ("cut", "modules/dasher/i2libdash.c:generate_video_segment/add_video_sample"), ("boxes", "modules/dasher/i2libisoff.c:segmentGenerator/initVideoGenerator")], ["every file on disk, parsed box by box", "MPD"]),
 "Exhaustive up to the stated depth; reordered pictures are B frames between others; NAL types beyond those the segmenter handles (leading pictures, temporal sublayers) are dropped by design. The profile fields of hvcC are constants of the code and not checked.")

prop("C22", "DASH segments of audio hold exactly the AAC frames that came in",
 "Every segment written for an audio representation is well formed and holds, in order and unchanged but for their ADTS headers, the frames received since the previous one, each lasting its samples; it starts at the time of its first frame relative to the beginning of the session (the earliest frame of all representations), also after days. Without video a segment is written as soon as the frames before the last one reach the configured duration; with video, whenever the video segments are written, with all the audio received until then. The init segment carries the object type, rate and channels of the ADTS headers (all channel configurations), and is written again when these change and only then.",
 "inputs histories", "every sequence of steps with audio of every spacing of the alphabet, with and without video, one or two audio representations, changes of configuration, skew between audio and video",
 "The existing tests feed one recorded stream and compare single files.",
 A("modules/dasher/DashAudioSegmenter.cpp modules/dasher/i2libdash.c modules/dasher/i2libisoff.c modules/dasher/Dasher.cpp", [("headers", "modules/dasher/DashAudioSegmenter.cpp:updateExtradata/getChannelConfFromADTSHeader"), ("frames", "modules/dasher/DashAudioSegmenter.cpp:appendFrameToDashSegment"), ("with video", "modules/dasher/Dasher.cpp:forceAudioSegmentsGeneration/writeAudioSegments"), ("cut", "modules/dasher/i2libdash.c:generate_audio_segment/add_audio_sample")], ["every file on disk, parsed box by box", "MPD"]),
 "Exhaustive up to the stated depth; audio as the encoders of this repository produce it (AAC with ADTS headers).")

prop("C23", "What the DASH manifest advertises exists, complete, at every moment",
 "After every single file operation of the publisher (so at every point at which it can be read, or the process can end), the MPD on disk is absent or complete, and every init and media segment it advertises exists and is complete. The timeline lists each published segment once, in order, with its exact start and duration, and at most the configured number of them; the files of those that leave it are deleted and nothing else stays. When opening, writing or renaming a file fails, nothing incomplete is advertised, and publication goes on with the following segments. The MPD describes the configured window and update period, and changes of the window take effect.",
 "histories fault_sequences crash_points", "every sequence of access units and window changes up to a depth, every file operation as a crash point, every placement of up to one or two failing operations",
 "The existing tests write one manifest and never look at the directory as a whole.",
 A("modules/dasher/Dasher.cpp modules/dasher/MpdManager.cpp modules/dasher/MpdManager.hh", [("publication order", "modules/dasher/Dasher.cpp:writeVideoSegments/writeAudioSegments/writeSegmentsToDisk/cleanSegments"), ("window", "modules/dasher/MpdManager.cpp:updateTimestamp/configure"), ("files", "modules/dasher/Dasher.cpp:writeToDisk"), ("manifest", "modules/dasher/MpdManager.cpp:writeToDisk/toMpd")], ["state of the directory after every operation", "parsed MPD"]),
 "Exhaustive up to the stated depth and number of faults. Torn writes are the prefixes visible after open and after half of a failing write. Power loss (unsynced data) is not modelled.")

prop("C24", "DASH representations come, go and are described exactly",
 "The MPD describes exactly the representations that are connected and have published: their size, sampling rate, channels and the bit rate last configured for them when their last segment was made. All representations of a kind are published together with the same timeline. Removing one takes it out of the MPD at once without disturbing the others; when the last one goes the timeline is emptied; audio goes on by itself when no video is left. A representation that joins later is published with the next segments. A bit rate for an unknown representation changes nothing. The state lists folder, manifest, durations and the connected readers. Destroying the filter releases everything.",
 "histories", "every sequence of access units, joins (up to two), removals and bit rate changes up to a depth, one or two video and up to two audio representations",
 "The existing tests connect one or two readers once.",
 A("modules/dasher/Dasher.cpp modules/dasher/MpdManager.cpp", [("readers", "modules/dasher/Dasher.cpp:specificReaderConfig/specificReaderDelete"), ("description", "modules/dasher/Dasher.cpp:generateSegment"), ("bit rate", "modules/dasher/Dasher.cpp:setBitrateEvent/setDashSegmenterBitrate"), ("manifest", "modules/dasher/MpdManager.cpp:updateVideoRepresentation/updateAudioRepresentation/removeRepresentation")], ["parsed MPD", "every file on disk", "state document", "memory (AddressSanitizer build)"]),
 "Exhaustive up to the stated depth; the renditions get their pictures at the same times, as the encoders of one source deliver them. Open findings: a representation that joins is advertised with the window of those before it, and until its first segment is complete the others lose theirs.")

NOT_APPLICABLE = {}
def na(pid, title, statement, over, quant, why, anchors, reason):
    prop(pid, title, statement, over, quant, why, anchors, "")
    NOT_APPLICABLE[pid] = reason

prop("C28", "V4L capture delivers every picture of the device whole and survives failures",
 "Every picture the driver reports is passed on once and in order, with all its bytes, its size and format, stamped with the time of its capture; empty pictures and those too large for a frame are left out. Its buffer goes back to the device. When none comes in time, or the device fails, nothing is passed on and capturing goes on. The filter asks to run again when the next picture is due, at the rate the driver accepted, or the one measured when that differs. configure() opens, negotiates, maps and starts the device it names; when any step fails, and when the device is released or the filter destroyed, all is undone exactly once: unmapped, stopped, closed, freed. Configuring while it captures changes device, size, rate and format; impossible values and malformed events change nothing. The state document, the stream information and the queue allocated tell what the device gives.",
 "inputs fault_sequences histories", "every sequence of configurations, device answers, times and events up to a depth, with each system call of a configuration failing or interrupted",
 "No stable test has a capture device: none runs this code.",
 A("modules/V4LCapture/V4LCapture.cpp", [("configuration", "modules/V4LCapture/V4LCapture.cpp:configure/openDevice/initDevice/init_mmap/startCapturing"), ("undoing", "modules/V4LCapture/V4LCapture.cpp:releaseDevice/stopCapturing/uninitDevice/closeDevice"), ("pictures", "modules/V4LCapture/V4LCapture.cpp:getFrame/readFrame"), ("pace", "modules/V4LCapture/V4LCapture.cpp:doProcessFrame/getAvgFrameDuration"), ("events", "modules/V4LCapture/V4LCapture.cpp:configureEvent")], ["system calls on the device", "frame filled", "return value", "state document", "stream information", "memory"]),
 "The device is modelled by the harness (two devices with their own limits and formats, system calls redirected by the linker). Pictures with padded lines, failures of unmapping, and formats outside the filter's list are not explored.")
prop("C29", "The video decoder delivers each decoded picture once, whole and well described",
 "When a coded frame yields a picture, the picture is delivered with that frame: every pixel, packed without padding, its own size and pixel format, the times, number and origin of the coded frame it was coded in. A coded frame that yields none delivers none. Pictures of any size and format may follow one another; one too large for the output frame is left out and nothing is written beyond. The coded frame is not changed; every byte of it is given to the codec, in order, as long as no picture came out. A change of codec opens the new one with the stream's extra data and keeps nothing of the old; unsupported codecs deliver nothing. When a codec cannot be found or opened, or fails to decode, nothing is delivered, no context is used that is not open, none remains unreferenced, and later frames are decoded again as soon as possible. The state document gives codec and size of the last picture.",
 "inputs fault_sequences histories", "every sequence of coded frames, whatever their decoding yields, codec changes and failing codec calls up to a depth",
 "The decoder is not part of the tested build: no stable test runs it.",
 A("modules/videoDecoder/VideoDecoderLibav.cpp", [("decoding", "modules/videoDecoder/VideoDecoderLibav.cpp:doProcessFrame/toBuffer"), ("codec contexts", "modules/videoDecoder/VideoDecoderLibav.cpp:inputConfig/reconfigureDecoder/destructor"), ("stream description", "modules/videoDecoder/VideoDecoderLibav.cpp:specificReaderConfig"), ("state", "modules/videoDecoder/VideoDecoderLibav.cpp:doGetState")], ["calls of the codec", "frame filled", "return value", "state document", "contexts alive"]),
 "libavcodec is replaced by a model at link time (its API of that age is not installed); what a real codec makes of coded data is not checked.")
prop("C32", "The delay and loss figures of every path tell what its readers experienced",
 "For every path the state document gives the average delay at its destination reader, the mean time from a frame's origin to its release there over the frames with a new stream time of the last complete second of stream time, and the number of frames that were put into the queues of the path and will never reach the readers behind them. Frames that repeat a time do not count twice; a reader shared between paths counts a frame once, when the last consumer releases it. Before a second of stream has passed the delay is 0; a reader that does not exist has none (-1) and lost nothing. A path's figures do not depend on other paths, and asking for them changes nothing.",
 "inputs histories", "every sequence of frames of any delay and spacing, processing steps, losses and waits up to a depth, from the start and around the first complete second",
 "Tests never read these figures over a running pipeline, let alone past the first second.",
 A("IOInterface.cpp", [("measuring", "IOInterface.cpp:Reader::measureDelay/getAvgDelay/getLostBlocs"), ("per reader", "Filter.cpp:BaseFilter::getAvgReaderDelay/getLostBlocs"), ("per path", "PipelineManager.cpp:getStateEvent"), ("losses", "AVFramedQueue.cpp:forceGetRear; FrameQueue.hh:lostBlocs")], ["state document"]),
 "")
prop("C30", "The audio decoder delivers what was decoded, in the format of its output",
 "When decoding a packet yields audio, one frame is delivered: all the samples of the packet, converted from what the codec gave (whatever its channels, rate and format, and when these change) to the channels, rate and format that the output frame holds, with the packet's times, number and origin. A packet that yields none, cannot be decoded or describes an impossible stream delivers nothing. No sample is written beyond the frame; what does not fit comes with the next packet. A change of codec, rate or channels of the coded stream opens a codec for the new stream; when that fails, nothing is delivered, no context is used that is not open, none is left behind, and later packets are tried again. Configuring sets the format of the queues allocated from then on and what the state document reports; impossible values and malformed events change nothing.",
 "inputs fault_sequences histories", "every sequence of packets, whatever their decoding yields, stream changes, configurations and failing codec calls up to a depth",
 "The decoder is not part of the tested build: no stable test runs it.",
 A("modules/audioDecoder/AudioDecoderLibav.cpp", [("decoding", "modules/audioDecoder/AudioDecoderLibav.cpp:doProcessFrame"), ("conversion", "modules/audioDecoder/AudioDecoderLibav.cpp:resamplerConfig/resample"), ("codec contexts", "modules/audioDecoder/AudioDecoderLibav.cpp:reconfigureDecoder/destructor"), ("configuration", "modules/audioDecoder/AudioDecoderLibav.cpp:configure0/configEvent/allocQueue/doGetState")], ["calls of the codec", "frame filled", "return value", "queue allocated", "state document", "memory"]),
 "libavcodec is replaced by a model at link time (its API of that age is not installed); the conversion itself is done by the installed libswresample, in the code and in the reference.")
prop("C31", "The audio encoder encodes every sample once, in order, stamped with its time",
 "Once configured, the encoder asks its input for chunks that make at most one coded frame, gives the codec frames of exactly its frame size that hold the samples of the chunks in order, converted from any channels, rate and format, none lost, repeated or stale, and delivers each packet the codec returns, whole, with the number and origin of the chunk that completed it and the time at which its first sample was presented. While the codec keeps a frame or fails nothing is delivered. When the input's format changes the conversion follows it. configure() opens the codec with the channels, rate, format and bit rate asked for, describes the output stream and queue and is final; requests that the codec cannot meet, impossible values, malformed events and failing codec calls leave the encoder unconfigured, with nothing left behind and able to be configured. Readers are refused until then.",
 "inputs fault_sequences histories", "every sequence of configurations, chunks, input formats, answers of the codec and failing codec calls up to a depth",
 "The encoder is not part of the tested build: no stable test runs it.",
 A("modules/audioEncoder/AudioEncoderLibav.cpp", [("encoding", "modules/audioEncoder/AudioEncoderLibav.cpp:doProcessFrame"), ("conversion", "modules/audioEncoder/AudioEncoderLibav.cpp:reconfigure/resamplingConfig/resample"), ("configuration", "modules/audioEncoder/AudioEncoderLibav.cpp:configure0/codingConfig/configEvent"), ("input chunks", "modules/audioEncoder/AudioEncoderLibav.cpp:specificReaderConfig"), ("output stream", "modules/audioEncoder/AudioEncoderLibav.cpp:allocQueue; AVFramedQueue.cpp:AudioFrameQueue::setup")], ["frames given to the codec", "frame filled", "return value", "queue allocated", "state document", "memory"]),
 "libavcodec is replaced by a model at link time; times of resampled audio are checked to two samples. Presentation times that jump are stamped as they come; the samples still waiting keep their place.")
prop("C33", "The demuxer passes on every packet of its streams once, whole, with its times",
 "Every packet read from the source is passed on to the writer of its stream, once, in order, whole, before the next is read: H264 with known parameter sets as its units, one by one, each behind a long start code and in Annex B whatever the source holds; anything else as it is. Frames carry the packet's presentation and decoding times, in microseconds from the start of the source; a packet without times has the last ones. Packets of unconnected or unknown streams, without a unit, or that cannot be converted are left out, and so are units too large for the frame: nothing is written beyond it, nothing read beyond the packet, and the following ones are passed on. The state document lists source and streams; each stream's queue is of its kind, described by what the source declares, also after the source has changed; unknown writers get none. Opening another source ends the one before; one that cannot be opened leaves none. Malformed events change nothing. Contexts, filters and packets are released exactly once.",
 "inputs fault_sequences histories", "every sequence of packets, connections, source changes, events and failing calls up to a depth; every content of a packet up to 9 (thorough: 12) bytes over a 3 byte alphabet",
 "The demuxer is not part of the tested build: no stable test runs it.",
 A("modules/headDemuxer/HeadDemuxerLibav.cpp", [("packets", "modules/headDemuxer/HeadDemuxerLibav.cpp:doProcessFrame/findStartCode/discardPacket"), ("sources", "modules/headDemuxer/HeadDemuxerLibav.cpp:setURI/reset/configureEvent"), ("streams", "modules/headDemuxer/HeadDemuxerLibav.cpp:allocQueue/doGetState")], ["calls of the source", "frame filled", "return value", "queue allocated", "state document", "memory (AddressSanitizer build)"]),
 "libavformat and the bitstream filter are replaced by a model (their API of that age is not installed). Empty units and zero bytes after a unit may be passed on or not.")

prop("C34", "The transmitter sends every frame once and whole to all who receive it",
 "Every frame taken from a connected reader reaches each RTP, MPEG-TS, UltraGrid and RTSP destination of that reader exactly once, whole, in order, with its time, whatever is added, refused or removed meanwhile; a destination gets the frames from when it joined. H264 and H265 units lose their start code, in transport streams all get a long one; UltraGrid video goes out in access units, from the one after the first parameter set, in packets that tell number, offset, length, size and rate. Packets of AAC and UltraGrid audio carry their headers, and AAC and H264/5 streams are described by their own configuration. Exception: the frame in flight when another destination of the same reader comes or goes over RTSP, or is removed, may be lost for the others. A request is accepted if its id, session name and readers are new, known and of codecs that its format can carry and its port is even; otherwise nothing changes. Removing a connection or disconnecting its reader ends it, its sockets and sessions, and no other; the state document lists exactly the connections that exist. Nothing is left behind and processing never hangs.",
 "inputs histories", "every sequence of frames, requests, clients that come and go, and readers disconnected and connected, up to a depth",
 "The transmitter is not part of the tested build: no stable test runs it.",
 A("modules/transmitter/SinkManager.cpp modules/transmitter/Connection.cpp modules/transmitter/QueueSource.cpp", [("frames", "modules/transmitter/SinkManager.cpp:doProcessFrame; QueueSource.cpp:deliverFrame/gotFrame"), ("units", "modules/transmitter/H264or5QueueSource.cpp; H264or5StartCodeInjector.cpp"), ("connections", "modules/transmitter/SinkManager.cpp:addRTPConnection/addRTSPConnection/removeConnection; Connection.cpp"), ("readers", "modules/transmitter/SinkManager.cpp:specificReaderConfig/specificReaderDelete"), ("packets", "modules/transmitter/UltraGridVideoRTPSink.cpp; UltraGridAudioRTPSink.cpp; CustomMPEG4GenericRTPSink.cpp; ADTSStreamParser.cpp; H264VideoStreamSampler.cpp")], ["units and packets sent", "destinations and formats", "sessions offered", "state document", "sockets, media objects and memory"]),
 "live555 is replaced by a model of its event loop, replicator, sinks, sockets and RTSP server (it is not installed); what the library itself makes of units (RTP fragments of H264, transport stream packets, RTCP) is not checked.")
prop("C35", "Received streams reach their consumers whole, and sessions end without a trace",
 "Every packet that arrives for a subsession while its port is connected is delivered to the reader once, whole, in order, with its times and consecutive numbers; H264 and H265 units get their start code and, when the description carries parameter sets, these come first and describe the stream. Only the first frames after a connection may be missing: those already being received. A port offers the format of the stream it carries now, and cannot be connected when unknown or its codec unsupported. An RTSP session is described, each usable subsession set up, then played; a refusal or a malformed description ends that session, a failed subsession only itself. A stream's end ends its subsession; the last one, the announced end of play, or removal ends the session: torn down once, consumers disconnected, sinks, client and statistics released, and nothing else affected. The state document lists the sessions and subsessions that exist, with their loss, rate and jitter. Sessions that are not valid are refused and change nothing.",
 "inputs histories fault_sequences", "every sequence of sessions, descriptions, replies of servers, packets, ends, readers connected and disconnected, and passing time, up to a depth",
 "The receiver is not part of the tested build: no stable test runs it.",
 A("modules/receiver/SourceManager.cpp modules/receiver/QueueSink.cpp modules/receiver/Handlers.cpp", [("sessions", "modules/receiver/SourceManager.cpp:addSessionEvent/removeSession/Session::initiateSession"), ("replies and ends", "modules/receiver/Handlers.cpp"), ("frames", "modules/receiver/QueueSink.cpp; SourceManager.cpp:doProcessFrame"), ("formats", "modules/receiver/SourceManager.cpp:allocQueue/createStreamInfo; H264VideoSdpParser.cpp"), ("statistics", "modules/receiver/SourceManager.cpp:SCSSubsessionStats")], ["frames delivered", "requests to servers", "state document", "sinks, clients, sockets and memory"]),
 "live555's client side (event loop, SDP parser, RTP sources, RTSP client) is not installed and replaced by a model; reordering, loss and reassembly of RTP packets and the wire format of RTSP are the library's and are not checked.")

