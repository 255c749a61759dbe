# What each check runs.  HARNESSES: name -> build description.  CHECKS: property -> parts.
AVWRAP = "-Wl," + ",".join("--wrap=" + f for f in "avcodec_find_decoder avcodec_find_encoder avcodec_alloc_context3 avcodec_open2 avcodec_close avcodec_free_context av_free av_freep".split())
import os
OLDAVF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs/oldavf")
L555 = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs/live555")
OLDAV = "-fpermissive -w -include @VERIF@/fw/stubs/libav_old.h"   # the libav interface of the repository's time
HARNESSES = {
    "queue_seq": dict(src=["harness/queue_seq.cc"], variant="asan", modules=[]),
    "queue_conc": dict(src=["harness/queue_conc.cc"], variant="sched", modules=[]),
    "audio_seq": dict(src=["harness/audio_seq.cc"], variant="asan", modules=[]),
    "audio_conc": dict(src=["harness/audio_conc.cc"], variant="sched", modules=[]),
    "pool": dict(src=["harness/pool.cc"], variant="sched", modules=[]),
    "reader_seq": dict(src=["harness/reader_seq.cc"], variant="asan", modules=[]),
    "reader_conc": dict(src=["harness/reader_conc.cc"], variant="sched", modules=[]),
    "conn_conc": dict(src=["harness/conn_conc.cc"], variant="sched", modules=[]),
    "sliced_seq": dict(src=["harness/sliced_seq.cc"], variant="asan", modules=[]),
    "sliced_conc": dict(src=["harness/sliced_conc.cc"], variant="sched", modules=[]),
    "events_seq": dict(src=["harness/events_seq.cc"], variant="asan", modules=[], fw=["fw/vclock.cc"]),
    "events_conc": dict(src=["harness/events_conc.cc"], variant="sched", modules=[]),
    "filter_seq": dict(src=["harness/filter_seq.cc"], variant="asan", modules=[], fw=["fw/vclock.cc"]),
    "sync_seq": dict(src=["harness/sync_seq.cc"], variant="asan", modules=[], fw=["fw/vclock.cc"]),
    "audio_mix": dict(src=["harness/audio_mix.cc"], variant="asan", modules=["audioMixer"], fw=["fw/vclock.cc"]),
    "audio_mix_plain": dict(src=["harness/audio_mix.cc"], variant="plain", modules=["audioMixer"], fw=["fw/vclock.cc"]),
    "video_mix": dict(src=["harness/video_mix.cc"], variant="asan", modules=["videoMixer"], fw=["fw/vclock.cc"]),
    "video_mix_plain": dict(src=["harness/video_mix.cc"], variant="plain", modules=["videoMixer"], fw=["fw/vclock.cc"]),
    "video_split": dict(src=["harness/video_split.cc"], variant="asan", modules=["videoSplitter"], fw=["fw/vclock.cc"]),
    "video_resample": dict(h_cflags="-fno-access-control", src=["harness/video_resample.cc"], variant="asan", modules=["videoResampler"], fw=["fw/vclock.cc"]),
    "json": dict(src=["harness/json.cc"], variant="asan", modules=[]),
    "pipeline": dict(src=["harness/pipeline.cc"], variant="asan", modules=["pipeline"], exclude=["WorkersPool.cpp"], fw=["fw/vclock.cc"],
                     file_cflags={"PipelineManager.cpp": "-I@REPO@/src -include @VERIF@/harness/pipe_stubs.hh"}),
    "pipe_conc": dict(src=["harness/pipe_conc.cc"], variant="sched", modules=["pipeline"], file_cflags={"PipelineManager.cpp": "-I@REPO@/src -include @VERIF@/harness/pipe_stubs.hh"}),
    "control": dict(src=["harness/control.cc"], variant="asan", modules=[], fw=["fw/vclock.cc"],
                    libs="-Wl," + ",".join("--wrap=" + f for f in "recv read send write close shutdown socket setsockopt bind listen accept accept4 select poll".split())),
    "encoder": dict(h_cflags="-fno-access-control", src=["harness/encoder.cc"], variant="plain", modules=["videoEncoder"], fw=["fw/vclock.cc"]),
    "encoder_asan": dict(h_cflags="-fno-access-control", src=["harness/encoder.cc"], variant="asan", modules=["videoEncoder"], fw=["fw/vclock.cc"]),
    "dash": dict(src=["harness/dash.cc"], variant="plain", modules=["dasher"], fw=["fw/vclock.cc"]),
    "dash_asan": dict(src=["harness/dash.cc"], variant="asan", modules=["dasher"], fw=["fw/vclock.cc"]),
    "shm": dict(h_cflags="-fno-access-control", src=["harness/shm.cc"], variant="asan", modules=["sharedMemory"], fw=["fw/vclock.cc"]),
    "shm_conc": dict(h_cflags="-fno-access-control", src=["harness/shm_conc.cc"], variant="sched", modules=["sharedMemory"]),
    "capture": dict(h_cflags="-fno-access-control", src=["harness/capture.cc"], variant="asan", modules=["V4LCapture"], fw=["fw/vclock.cc"], libs="-Wl," + ",".join("--wrap=" + f for f in "stat open close ioctl mmap munmap select".split())),
    "video_decode": dict(h_cflags="-fno-access-control", src=["harness/video_decode.cc"], variant="asan", modules=["videoDecoder"], fw=["fw/vclock.cc"], libs=AVWRAP, file_cflags={"modules/videoDecoder/VideoDecoderLibav.cpp": OLDAV}),
    "audio_decode": dict(h_cflags="-fno-access-control -Wno-deprecated-declarations", src=["harness/audio_decode.cc"], variant="asan", modules=["audioDecoder"], fw=["fw/vclock.cc"], libs=AVWRAP, file_cflags={"modules/audioDecoder/AudioDecoderLibav.cpp": OLDAV}),
    "audio_encode": dict(h_cflags="-fno-access-control -Wno-deprecated-declarations", src=["harness/audio_encode.cc"], variant="asan", modules=["audioEncoder"], fw=["fw/vclock.cc"], libs=AVWRAP, file_cflags={"modules/audioEncoder/AudioEncoderLibav.cpp": OLDAV}),
    "demux": dict(h_cflags="-fno-access-control -Wno-deprecated-declarations -I"+OLDAVF, src=["harness/demux.cc"], variant="asan", modules=["headDemuxer"], fw=["fw/vclock.cc"], file_cflags={"modules/headDemuxer/HeadDemuxerLibav.cpp": "-fpermissive -w -I@VERIF@/fw/stubs/oldavf"}),
    "transmit": dict(h_cflags="-fno-access-control -Wno-deprecated-declarations -w -I"+L555, src=["harness/transmit.cc"], variant="asan", modules=["transmitter"], fw=["fw/vclock.cc"], repo_cflags="-w -I@VERIF@/fw/stubs/live555 -I@REPO@/src"),
    "receive": dict(h_cflags="-fno-access-control -Wno-deprecated-declarations -w -I"+L555, src=["harness/receive.cc"], variant="asan", modules=["receiver"], fw=["fw/vclock.cc"], file_cflags={f: "-w -I@VERIF@/fw/stubs/live555 -I@REPO@/src -include @VERIF@/harness/small_queues.hh" for f in ("modules/receiver/SourceManager.cpp", "AVFramedQueue.cpp")}, repo_cflags="-w -I@VERIF@/fw/stubs/live555 -I@REPO@/src"),
    "stats": dict(src=["harness/stats.cc"], variant="asan", h_cflags="-fno-access-control", modules=["pipeline"], exclude=["WorkersPool.cpp"], fw=["fw/vclock.cc"], file_cflags={"PipelineManager.cpp": "-I@REPO@/src -include @VERIF@/harness/pipe_stubs.hh"}),
    "conn_seq": dict(src=["harness/conn_seq.cc"], variant="asan", modules=[]),
}
def P(harness, quick, thorough=None, bound="", min_outcomes=None):
    """One part of a check; parameter sets are written "a=1 b=x"."""
    def parse(l):
        return [dict((kv.split("=", 1)[0], num(kv.split("=", 1)[1])) for kv in x.split()) for x in l]
    def num(v):
        try:
            return int(v)
        except ValueError:
            return v
    d = dict(harness=harness, quick=parse(quick), thorough=parse(quick if thorough is None else thorough), bound=bound)
    if min_outcomes:
        d["min_outcomes"] = min_outcomes
    return d


SCHED = "all schedules with at most `bound` deviations (default 2): preemptions at every synchronisation operation and every racing memory access, timers firing early"
ENUM = "exhaustive enumeration of operation sequences on the real code against a reference model"
CONC = "exhaustive exploration of thread schedules of the real code under a controlled scheduler (bounded deviations)"

DASH = "all sequences of access units (kinds of the menu) with every spacing, up to the depth; every file parsed after every step, the published state after every file operation"
CHECKS = {
    "C01": dict(technique=ENUM, parts=[
        P("queue_seq", ["mode=fifo depth=7 caps=6", "mode=factory", "mode=limits"], ["mode=fifo depth=9 caps=6", "mode=factory", "mode=limits"],
          "all sequences of produce/forced produce/abandoned produce/read/consume up to the depth, every ring offset"),
    ]),
    "C02": dict(technique=CONC, parts=[
        P("queue_conc", ["bound=4 forced=1", "bound=4 forced=1 pre=1", "bound=4 forced=0", "bound=4 size=4 frames=5"],
          ["bound=5 forced=%d pre=%d size=%d frames=5 polls=4" % (f, p, z) for f in (0, 1) for p in (0, 1, 2) for z in (3, 4)], SCHED, 2),
    ]),
    "C04": dict(technique=ENUM, parts=[
        P("audio_seq", ["create=1", "depth=5 rate=2000 max=250", "depth=5 out=50 fmt=5 ch=1", "depth=5 fmt=3", "depth=5", "long=1 rate=8000 max=32768 fmt=3 depth=1 ch=1"],
          ["depth=6 rate=2000 max=250", "depth=6 out=50 fmt=5 ch=1", "depth=6 fmt=3", "create=1", "depth=6", "depth=6 ch=1 out=33", "depth=6 n1=40 n2=40 max=100", "long=1 rate=8000 max=32768 fmt=3 depth=2 ch=1"],
          "all sequences of pushes (sizes, gaps, overlaps, jumps), reads and removals up to the depth"),
    ]),
    "C05": dict(technique=CONC, parts=[
        P("audio_conc", ["bound=3", "bound=3 jump=1", "bound=3 jump=2 polls=4", "bound=3 pre=0"], ["bound=6 chunks=4 polls=5", "bound=6 jump=1 chunks=4 polls=5", "bound=6 jump=2 polls=5", "bound=6 pre=0"], SCHED, 2),
    ]),
    "C06": dict(technique=ENUM + "; " + CONC, parts=[
        P("reader_seq", ["depth=8 filters=2", "depth=7 filters=3", "depth=8 filters=3 joined=1"], ["depth=10 filters=2", "depth=8 filters=3", "depth=9 filters=3 joined=1"],
          "all sequences of publish/read/consume/join/leave up to the depth"),
        P("reader_conc", ["bound=2", "bound=2 leave=1", "bound=2 forced=1 size=3", "bound=1 filters=3", "bound=2 join=1", "bound=2 filters=3 join=2"], ["bound=3 join=1", "bound=3 filters=3 join=2", "bound=2 filters=3 join=2 leave=1", "bound=3", "bound=3 leave=1", "bound=3 forced=1 size=3", "bound=2 filters=3", "bound=2 filters=3 leave=1"], SCHED),
    ]),
    "C07": dict(technique=ENUM + "; " + CONC, parts=[
        P("conn_seq", ["depth=3", "depth=5 producers=1 refuse=0", "depth=3 producers=1 writers=2 readers=2"],
          ["depth=4", "depth=6 producers=1 refuse=0", "depth=5 producers=2 refuse=0", "depth=4 producers=1 writers=2 readers=2 refuse=0"],
          "all sequences of connect (also refused ones)/disconnect/share/process up to the depth"),
        P("conn_conc", ["mode=connect bound=2", "mode=off", "mode=leave bound=1", "mode=share bound=1", "mode=leaveall bound=1", "mode=reconnect", "mode=events", "mode=query", "mode=off sync=1", "mode=off frametime=1", "mode=share busy=1 frames=1"],
          ["mode=connect bound=3", "mode=off bound=3", "mode=leave", "mode=share", "mode=leaveall", "mode=reconnect bound=3", "mode=events bound=3", "mode=query bound=3", "mode=off sync=1 bound=3", "mode=off frametime=1 bound=3", "mode=share sync=1", "mode=share busy=1", "mode=leave busy=1", "mode=leaveall busy=1"], SCHED),
    ]),
    "C08": dict(technique=CONC, parts=[
        P("pool", ["mode=chain bound=2", "mode=fan bound=2", "mode=delay bound=2", "mode=chain threads=3 bound=1", "mode=admin bound=2", "mode=poke bound=2", "mode=poke slow=5000 bound=2", "mode=poke delay=5000 bound=2"],
          ["mode=chain bound=3", "mode=fan bound=3", "mode=delay bound=3", "mode=chain threads=3 bound=2", "mode=admin bound=3", "mode=poke bound=3", "mode=poke slow=5000 bound=3", "mode=poke threads=3 bound=2"], SCHED),
    ]),
    "C09": dict(technique=CONC, parts=[
        P("pool", ["mode=remove", "mode=remove delay=20000", "mode=remove slow=5000", "mode=remove slow=150000", "mode=remove slow=250000", "mode=remove wait=3 delay=20000", "mode=remove readd=1", "mode=stop bound=3", "mode=destroy"],
          ["mode=remove bound=3", "mode=remove delay=20000 bound=3", "mode=remove slow=5000 bound=3", "mode=remove slow=150000 bound=3", "mode=remove slow=250000 bound=3", "mode=remove wait=3 delay=20000 bound=3", "mode=remove readd=1 bound=3", "mode=stop bound=4", "mode=destroy bound=4"], SCHED),
    ]),
    "C03": dict(technique=ENUM + "; " + CONC, parts=[
        P("sliced_seq", ["depth=4", "depth=3 h265=1"], ["depth=5", "depth=4 h265=1", "depth=5 slice=5"], "all sequences of publishing slice groups (plain, forced, oversize, too many slices, empty), consuming; every ring offset"),
        P("sliced_conc", ["bound=3", "bound=4 groups=3", "bound=4 size=3 groups=3"], ["bound=5 groups=3 polls=5", "bound=5 size=3 groups=3 polls=5", "bound=4 groups=4 polls=6"], SCHED, 2),
    ]),
    "C10": dict(technique=ENUM + "; " + CONC, parts=[
        P("events_seq", ["filter=mid depth=3", "filter=head depth=3", "filter=tail depth=3"], ["filter=mid depth=4", "filter=head depth=5", "filter=tail depth=5"], "all sequences of sending events (ordered or late stamps, delays, unknown or failing actions, missing parameters), letting time pass, processing with and without frames"),
        P("events_conc", ["mode=mid bound=3", "mode=mid pushers=2", "mode=head bound=3", "mode=tail", "mode=up bound=3"], ["mode=mid bound=4 events=3", "mode=mid pushers=2 bound=3", "mode=head bound=4 pushers=2", "mode=tail bound=3", "mode=up bound=4"], SCHED),
        P("pipeline", ["mode=delay count=3"], ["mode=delay count=4"], "all sequences of `count` events with delays from a millisecond to 23 days, sent as control requests"),
    ]),
    "C11": dict(technique=ENUM, parts=[
        P("filter_seq", ["topo=line depth=7", "topo=split depth=5", "topo=mix depth=5", "topo=direct depth=6", "topo=line server=1 depth=6", "topo=mix server=1 depth=5", "topo=line periodic=1 depth=5", "topo=mix periodic=1 depth=5", "topo=split unlink=1 depth=5", "topo=line unlink=1 depth=6", "topo=split unlink=2 depth=5", "topo=mix unlink=2 depth=5", "topo=direct unlink=2 depth=5", "topo=direct server=1 unlink=1 depth=5", "topo=mix server=1 noin=1 depth=4", "topo=mix noin=1 depth=4"],
          ["topo=line depth=9", "topo=split depth=7", "topo=mix depth=7", "topo=direct depth=8", "topo=line server=1 depth=8", "topo=mix server=1 depth=7", "topo=line periodic=1 depth=8", "topo=mix periodic=1 depth=7", "topo=split unlink=1 depth=6", "topo=line unlink=1 depth=8", "topo=split unlink=2 depth=6", "topo=mix unlink=2 depth=6", "topo=direct unlink=2 depth=7", "topo=direct server=1 unlink=1 depth=7", "topo=direct server=1 unlink=2 depth=7", "topo=mix server=1 noin=1 depth=6", "topo=mix server=1 unlink=2 depth=5", "topo=line unlink=2 depth=7"],
          "all sequences of processing the filters of a small graph with every answer of the processing step"),
    ]),
    "C12": dict(technique=ENUM, parts=[
        P("sync_seq", ["mode=window depth=5", "mode=window dts=1 depth=4", "mode=window inputs=3 fewsteps=4 depth=5", "mode=sync depth=6 fewsteps=3", "mode=sync depth=5", "mode=sync inputs=3 depth=5 fewsteps=3", "mode=sync slots=21 prefill=17 depth=5"],
          ["mode=window depth=7", "mode=window dts=1 depth=6", "mode=window inputs=3 fewsteps=4 depth=7", "mode=sync depth=8 fewsteps=3", "mode=sync depth=7", "mode=sync inputs=3 depth=7 fewsteps=3", "mode=sync slots=21 prefill=17 depth=7"],
          "all interleavings of arrivals (every spacing of the alphabet) and processing steps"),
    ]),
    "C13": dict(technique=ENUM, parts=[
        P("audio_mix", ["depth=2 alpha=6", "inputs=1 alpha=8 depth=4 t0=3"], None, "memory-checked subset"),
        P("audio_mix_plain", ["depth=3 alpha=6", "inputs=1 alpha=8 depth=5", "inputs=3 depth=2 alpha=5", "inputs=2 depth=4 alpha=3 pre=0", "mode=convert", "mode=long bits=28 inputs=1 pre=0 _hang=300"],
          ["depth=4 alpha=6", "inputs=1 alpha=8 depth=7", "inputs=3 depth=3 alpha=5", "inputs=2 depth=6 alpha=3 pre=0", "mode=convert", "mode=long inputs=1 pre=0 _hang=900"],
          "all sequences of mixing steps with every placement of every input's frame (missing, on time, gap, overlap, past, beyond the buffer, last position, five hours ahead)"),
    ]),
    "C14": dict(technique=ENUM, parts=[
        P("audio_mix_plain", ["mode=control depth=3"], ["mode=control depth=4"], "all sequences of control actions (every target, also unknown ones, every value, missing parameters) and of inputs leaving and coming back"),
    ]),
    "C15": dict(technique=ENUM, parts=[
        P("video_mix", ["depth=2", "depth=2 bare=1", "depth=2 frametime=40000"], ["depth=3", "depth=2 inputs=4 channels=5"], "all sequences of channel and layout configurations (also impossible or incomplete ones), inputs leaving and coming back, partial and complete mixing steps"),
        P("video_mix_plain", ["depth=3", "depth=2 inputs=3"], ["depth=3 inputs=3", "depth=3 bare=1", "depth=3 frametime=40000", "depth=3 inputs=2 channels=2"], "as above, deeper"),
    ]),
    "C16": dict(technique=ENUM, parts=[
        P("video_split", ["depth=2", "depth=2 outputs=3"], ["depth=3"], "all sequences of crop configurations (also impossible or incomplete ones), outputs leaving and coming back, pictures of several sizes for every subset of outputs"),
    ]),
    "C17": dict(technique=ENUM, parts=[
        P("video_resample", ["depth=2"], ["depth=3"], "all sequences of configurations (complete, partial, refused) and pictures of every size and format of the alphabet"),
    ]),
    "C25": dict(technique=ENUM, parts=[
        P("control", ["mode=socket", "cuts=1 faults=2", "cuts=2 faults=1 step=3", "mode=size faults=1", "cuts=0 faults=1 partial=8", "cuts=1 faults=2 step=6 partial=3", "cuts=0 faults=1 partial=4 filler=30000 reqs=2", "cuts=1 step=9 faults=1 clients=3"],
          ["mode=socket cuts=2", "cuts=2 faults=2", "cuts=3 faults=1 step=2", "mode=size faults=2", "cuts=1 faults=1 partial=8", "cuts=1 faults=3 step=3 partial=4", "cuts=0 faults=2 partial=9 filler=30000 reqs=2", "cuts=1 step=4 faults=1 clients=3"],
          "every request of the menu in every segmentation with up to `cuts` cuts, every client behaviour, every placement of up to `faults` interrupted or failing calls, every split of the answer"),
    ]),
    "C18": dict(technique=ENUM, parts=[
        P("encoder", ["menu=FibgSYUABlhp depth=3", "menu=FiS depth=6", "menu=Fibf depth=5", "menu=FJtRZ gopTime=1000000 depth=4", "menu=FJ gopTime=1500000 depth=8", "menu=XFi depth=3", "menu=Fi preset=veryfast bframes=2 lookahead=4 depth=11", "menu=FB lookahead=3 depth=9", "menu=Fi threads=3 depth=8", "menu=Fi gop=4 depth=9", "menu=FSYA annexb=0 depth=4"] +
          ["codec=hevc " + x for x in ("menu=FibgSYUABlhp depth=3", "menu=FiS depth=5", "menu=FJtRZ gopTime=1000000 depth=3", "menu=FJ gopTime=1500000 depth=7", "menu=XFi depth=2", "menu=Fi preset=veryfast bframes=2 lookahead=4 depth=10", "menu=FB lookahead=3 depth=7", "menu=Fi threads=3 depth=7", "menu=Fi gop=4 depth=8", "menu=FSYA annexb=0 depth=4")],
          ["menu=FibgSYUABlhp depth=4", "menu=FiS depth=8", "menu=Fibf depth=7", "menu=FJtRZ gopTime=1000000 depth=5", "menu=FJt gopTime=1500000 depth=8", "menu=XFib depth=3", "menu=Fi preset=veryfast bframes=2 lookahead=4 depth=14", "menu=Fib preset=veryfast bframes=2 lookahead=4 depth=9", "menu=FiB lookahead=3 depth=9", "menu=Fib threads=3 depth=8", "menu=Fi gop=4 depth=13", "menu=FSYA annexb=0 depth=6"] +
          ["codec=hevc " + x for x in ("menu=FibgSYUABlhp depth=4", "menu=FiS depth=7", "menu=FJtRZ gopTime=1000000 depth=4", "menu=FJt gopTime=1500000 depth=7", "menu=XFib depth=3", "menu=Fi preset=veryfast bframes=2 lookahead=4 depth=13", "menu=FiB lookahead=3 depth=8", "menu=Fib threads=3 depth=7", "menu=Fi gop=4 depth=12", "menu=FSYA annexb=0 depth=6")],
          "all sequences of pictures (usual, after a gap, of another size or format, impossible), configurations (partial, refused) and requests of the menu up to the depth; everything that comes out is decoded again"),
        P("encoder_asan", ["menu=FibS depth=4", "menu=FSYA depth=4", "menu=Fi depth=8 preset=veryfast bframes=2 lookahead=3", "menu=FibS depth=3 codec=hevc", "menu=XF depth=2 codec=hevc"], ["menu=FibSUA depth=4", "menu=FSYAh depth=4", "menu=Fib depth=7 preset=veryfast bframes=2 lookahead=3", "menu=FibSY depth=4 codec=hevc", "menu=XFZ depth=3 codec=hevc"], "memory-checked subset"),
    ]),
    "C19": dict(technique=ENUM + "; " + CONC, parts=[
        P("shm", ["menu=FGr depth=5", "mode=h264 menu=aspeinuxzyor depth=5", "mode=h264 menu=ainr depth=8", "mode=h264 menu=ainbr cap=3100000 depth=4", "menu=FHKr cap=6300000 depth=4", "mode=h264 menu=bn cap=3100000 depth=9 bound=1", "mode=h264 menu=an seq0=65530 depth=9 t0=4294960000", "mode=create", "mode=leak"],
          ["menu=FGr depth=7", "mode=h264 menu=aspeinuxzyor depth=6", "mode=h264 menu=ainr depth=11", "mode=h264 menu=ainbr cap=3100000 depth=6", "menu=FHKr cap=6300000 depth=6", "mode=h264 menu=bn cap=3100000 depth=11 bound=1", "mode=h264 menu=anr seq0=65530 depth=10 t0=4294960000", "mode=create", "mode=leak"],
          "all sequences of pictures or NAL units and of the reader giving the memory back, up to the depth; every failure of creating the segment"),
        P("shm_conc", ["bound=4", "h264=1 bound=4", "h264=1 nals=2 bound=3", "bound=3 frames=4 polls=5"], ["bound=6", "h264=1 bound=6", "h264=1 nals=2 bound=5", "bound=5 frames=5 polls=6"], SCHED, 2),
    ]),
    "C28": dict(technique=ENUM, parts=[
        P("capture", ["menu=CPTEAIQLZ depth=4 confs=abdh", "menu=CPWT depth=3", "menu=C depth=2 faults=36 confs=abcf", "menu=CrP depth=3 faults=30 confs=ac", "menu=exP depth=3", "menu=CPsdhnT depth=4 confs=ac", "menu=PWTsnd warm=3 depth=5", "menu=PnsT warm=131 depth=3 period=20000", "menu=PnsT warm=135 depth=3 period=50000", "menu=PdC warm=140 depth=4 period=41000 confs=ac", "menu=PhWC warm=200 depth=3 period=33367 first=2 confs=ac", "menu=CPu depth=4 confs=acm", "menu=iP depth=3 confs=ac", "menu=QPTr depth=6 warm=1", "menu=CPL depth=4 cap=500 confs=abcdefh", "mode=connect", "mode=leak"],
          ["menu=CPTEAIQLZ depth=6 confs=abdh", "menu=CPWT depth=4", "menu=C depth=3 faults=36 confs=abc", "menu=CrPe depth=3 faults=36 confs=acm", "menu=exP depth=4", "menu=CPsdhnT depth=6 confs=ac", "menu=PWTsnd warm=3 depth=7", "menu=PnsT warm=131 depth=6 period=20000", "menu=PnsT warm=135 depth=6 period=50000", "menu=PdC warm=140 depth=6 period=41000 confs=ac", "menu=PhWC warm=200 depth=5 period=33367 first=2 confs=ac", "menu=CPu depth=5 confs=acm", "menu=iP depth=4 confs=ac", "menu=QPTr depth=9 warm=1", "menu=CPL depth=5 cap=500 confs=abcdefh", "mode=connect", "mode=leak"],
          "all sequences of configurations, pictures (there, late, missing, empty, too large), device errors, times and malformed events, up to the depth; every system call of each configuration failing or interrupted"),
    ]),
    "C20": dict(technique=ENUM, parts=[
        P("dash", ["avcc=1 menu=PHCDASEUWI depth=5", "avcc=1 menu=DZP slots=9 depth=7", "avcc=1 menu=PD depth=12", "avcc=1 menu=PDA dt=400000/3000000/40000 depth=5", "avcc=1 dts=0 menu=PDI depth=8 seg=2", "avcc=1 bytes=3000000 slots=12 depth=7 menu=PD", "avcc=1 t0=0 menu=PDE depth=7", "avcc=1 menu=D dt=400000/200000000000 depth=6", "avcc=1 menu=PGDA reorder=250000 depth=6", "avcc=1 menu=PGD reorder=250000 v=1 a=1 depth=5"],
          ["avcc=1 menu=PHCDASEUWI depth=6", "avcc=1 menu=DZP slots=9 depth=10", "avcc=1 menu=PD depth=16", "avcc=1 menu=PDA dt=400000/3000000/40000 depth=6", "avcc=1 dts=0 menu=PDI depth=10 seg=2", "avcc=1 bytes=3000000 slots=12 depth=9 menu=PD", "avcc=1 menu=PDH v=2 depth=9", "avcc=1 menu=DA dt=400000/200000000000/33333 depth=7", "avcc=1 menu=PGDAI reorder=250000 depth=8", "avcc=1 menu=PGD reorder=300000 v=2 a=1 seg=2 depth=8"], DASH),
        P("dash_asan", ["avcc=1 menu=PHCDASEUWI depth=3", "avcc=1 menu=DZP slots=9 depth=5"], ["avcc=1 menu=PHCDASEUWI depth=4", "avcc=1 menu=DZP slots=9 depth=7"], "memory-checked subset"),
    ]),
    "C21": dict(technique=ENUM, parts=[
        P("dash", ["codec=hevc menu=PHCDASEUWI depth=5", "codec=hevc menu=DZP slots=10 depth=7", "codec=hevc menu=PD depth=12", "codec=hevc menu=PDA dt=400000/3000000/40000 depth=5", "codec=hevc dts=0 menu=PDI depth=8 seg=2", "codec=hevc bytes=3000000 slots=12 depth=7 menu=PD", "codec=hevc t0=0 menu=PDE depth=7", "codec=hevc menu=PGDA reorder=250000 depth=6", "codec=hevc menu=PGD reorder=250000 v=1 a=1 depth=5"],
          ["codec=hevc menu=PHCDASEUWI depth=6", "codec=hevc menu=DZP slots=10 depth=10", "codec=hevc menu=PD depth=16", "codec=hevc menu=PDA dt=400000/3000000/40000 depth=6", "codec=hevc dts=0 menu=PDI depth=10 seg=2", "codec=hevc bytes=3000000 slots=12 depth=9 menu=PD", "codec=hevc menu=PDH v=2 depth=9", "codec=hevc menu=PGDAI reorder=250000 depth=8", "codec=hevc menu=PGD reorder=300000 v=2 a=1 seg=2 depth=8"], DASH),
        P("dash_asan", ["codec=hevc menu=PHCDASEUWI depth=3", "codec=hevc menu=DZP slots=10 depth=5"], ["codec=hevc menu=PHCDASEUWI depth=4", "codec=hevc menu=DZP slots=10 depth=7"], "memory-checked subset"),
    ]),
    "C22": dict(technique=ENUM, parts=[
        P("dash", ["v=0 a=2 menu=PQ depth=6 dt=400000/21333/1000000", "v=0 a=1 menu=PQ depth=10 seg=2 ch=1", "v=0 a=1 menu=PQ depth=9 ch=3 sfi=4 profile=0", "v=0 a=1 menu=P depth=8 dt=400000/100000000000", "v=1 a=2 menu=PDaQ depth=6", "v=1 a=1 askew=-30000 menu=PDa depth=7", "v=1 a=1 askew=15000 menu=PDa depth=7", "v=0 a=1 aper=17 menu=P dt=0/100/500000 depth=8"],
          ["v=0 a=2 menu=PQ depth=7 dt=400000/21333/1000000", "v=0 a=1 menu=PQ depth=14 seg=2 ch=1", "v=1 a=2 menu=PDaQ depth=8", "v=1 a=1 askew=-30000 menu=PDa depth=9", "v=1 a=1 askew=15000 menu=PDa depth=9", "v=0 a=1 aper=17 menu=P dt=0/100/500000 depth=10"], DASH),
        P("dash_asan", ["v=0 a=1 menu=PQ depth=5", "v=1 a=1 menu=PDaQ depth=4"], ["v=0 a=2 menu=PQ depth=7", "v=1 a=1 menu=PDaQ depth=5"], "memory-checked subset"),
    ]),
    "C23": dict(technique=ENUM, parts=[
        P("dash", ["menu=PDm depth=7", "maxseg=4 menu=Dm dt=1100000 depth=7", "maxseg=4 menu=Dm dt=1100000 depth=6 v=1 a=1", "v=1 a=1 menu=PDm depth=6", "v=0 a=1 menu=Pm depth=8", "v=1 a=1 maxseg=3 menu=PD depth=10", "menu=PD depth=8 faults=1", "menu=PD depth=6 v=2 faults=1", "v=1 a=1 menu=PD depth=7 faults=1", "v=0 a=2 menu=P depth=7 faults=2", "menu=PD depth=6 faults=2"],
          ["menu=PDm depth=8", "maxseg=4 menu=Dm dt=1100000 depth=9", "maxseg=4 menu=Dm dt=1100000 depth=7 v=1 a=1", "v=1 a=1 menu=PDm depth=7", "v=0 a=1 menu=Pm depth=10", "v=1 a=1 maxseg=3 menu=PD depth=13", "menu=PD depth=9 faults=2", "menu=PD depth=6 v=2 faults=2", "v=1 a=1 menu=PD depth=7 faults=2", "v=0 a=2 menu=P depth=8 faults=3", "menu=PDH depth=8 faults=1"], DASH + "; every file operation is a crash point, up to `faults` of them fail"),
    ]),
    "C24": dict(technique=ENUM, parts=[
        P("dash", ["menu=DN depth=10", "menu=PDXN depth=7", "menu=PDXN depth=6 v=2", "menu=PDXNa depth=6 a=1", "menu=PDB depth=6 v=2 a=1", "v=1 a=1 menu=DPNBX depth=5", "v=2 a=2 menu=PDQHC bitrate=1 depth=4", "menu=PDRH depth=6", "menu=DPxn dt=1100000 depth=6 v=1 a=1", "menu=DaXxn dt=400000 depth=6 v=1 a=1"],
          ["menu=DXN depth=10", "menu=DXN depth=9 v=2", "menu=PDXN depth=8", "menu=PDXN depth=7 v=2", "menu=PDXNa depth=7 a=1", "menu=PDB depth=7 v=2 a=1", "v=1 a=1 menu=DPNBX depth=6", "v=2 a=2 menu=PDQHC bitrate=1 depth=6", "menu=PDXN depth=8 codec=hevc", "menu=PDRH depth=8", "menu=DPxn depth=8 v=1 a=1", "menu=DPxn depth=8 v=0 a=1", "menu=DaXxn depth=7 v=1 a=1"], DASH),
        P("dash_asan", ["v=1 a=1 menu=DPNX depth=4", "v=2 menu=PDB depth=3", "v=1 a=1 menu=DPNX depth=4 codec=hevc"], ["v=1 a=1 menu=DPNX depth=5", "v=2 menu=PDB depth=4"], "memory-checked subset, with the memory left behind"),
    ]),
    "C27": dict(technique=ENUM + "; " + CONC, parts=[
        P("pipeline", ["mode=ops depth=2 kinds=0,1,2,3,4,5,6 ghost=1", "mode=ops depth=4 kinds=0,1 mids=0,1,3 orgs=1 drs=1 ows=1,2", "mode=ops depth=3 kinds=0,1 mids=0,1,2 orgs=1,3 dsts=5,4 ows=1 drs=1,2", "mode=ops depth=3 kinds=0,1,2,3,4,5,6 mids=0,3 orgs=1 ows=1 drs=1,2",
                        "mode=ops depth=1 mids=0,1,2,3,4,5,6,7,8 orgs=1,2,3,9 dsts=5,6,4,9,1 ows=1,2,3,-1 drs=1,2,3,-1 reread=1", "mode=ops depth=2 many=1 mids=0,1,9,10,11,12", "mode=ops depth=3 kinds=0,1 mids=0,3 orgs=1,3,4 dsts=5,4 ows=1 drs=1,2", "mode=ops depth=4 many=1 kinds=0,1 mids=0,11 orgs=1,2,7 dsts=5,7 ows=1 drs=1", "mode=ops depth=3 many=1 kinds=0,1 mids=0,10,12 orgs=1,8 dsts=5,8,3 ows=1 drs=1", "mode=ops first=12 depth=3 many=1 kinds=0,1 mids=0 orgs=1,3,8 dsts=5,4,6 ows=1,2 drs=1", "mode=ops depth=2 many=1 kinds=0,1 mids=3,13,14 orgs=1 dsts=5 drs=1,2", "mode=bad changes=2", "mode=types"],
          ["mode=ops depth=3 mids=0,1,2,3,4", "mode=ops depth=3 kinds=0,1,2,3,4,5,6 mids=0,1,3 orgs=1,2 ows=1 drs=1,2", "mode=ops depth=5 kinds=0,1 mids=0,1,3 orgs=1 drs=1 ows=1,2", "mode=ops depth=4 kinds=0,1 mids=0,1,2 orgs=1,3 dsts=5,4 ows=1 drs=1,2",
           "mode=ops depth=2 mids=0,1,2,3,4,5,6,7,8 orgs=1,2,3,9 dsts=5,6,4,9,1 ows=1,2,3,-1 drs=1,2,3,-1", "mode=ops depth=3 many=1 mids=0,1,9,10,11,12 ows=1", "mode=ops depth=4 kinds=0,1 mids=0,3 orgs=1,3,4 dsts=5,4 ows=1 drs=1", "mode=ops depth=4 many=1 kinds=0,1 mids=0,11 orgs=1,2,7 dsts=5,7 ows=1 drs=1,2", "mode=ops depth=3 many=1 kinds=0,1 mids=0,1,10,11 orgs=1,3,7 dsts=5,7 ows=1 drs=1,2", "mode=ops depth=3 many=1 kinds=0,1 mids=0,10,12 orgs=1,8 dsts=5,8,3 ows=1,2 drs=1", "mode=ops first=12 depth=3 many=1 kinds=0,1 mids=0,1,10 orgs=1,3,8 dsts=5,4,6 ows=1,2 drs=1", "mode=ops first=11 depth=3 many=1 kinds=0,1 mids=0 orgs=1,2,3,7 dsts=5,7,6 ows=1,2 drs=1,2", "mode=bad changes=2", "mode=bad changes=3", "mode=types count=3"],
          "all sequences of creating and removing paths and filters, events and stopping (also impossible requests) up to the depth; every event with up to `changes` values replaced"),
        P("pipe_conc", ["mode=mid", "mode=add bound=1 up=1", "mode=add bound=1 getstate=1", "mode=second bound=1", "mode=second bound=1 share=1 up=1", "mode=remove bound=1 up=1", "mode=removefilter bound=1 up=1", "mode=replace bound=1", "mode=event up=1", "mode=event", "mode=stop", "mode=stop up=1", "mode=restart bound=1"],
          ["mode=mid", "mode=mid up=1", "mode=add up=1", "mode=add getstate=1", "mode=second", "mode=second share=1", "mode=second up=1", "mode=remove", "mode=remove up=1", "mode=removefilter up=1", "mode=replace", "mode=event up=1", "mode=event", "mode=stop bound=3", "mode=stop bound=3 up=1", "mode=restart", "mode=restart up=1"], SCHED),
    ]),
    "C29": dict(technique=ENUM, parts=[
        P("video_decode", ["menu=Ac depth=4", "menu=PNEZ0Bc depth=4", "menu=MEP depth=2", "menu=PEc faults=10 depth=4", "menu=PDEc depth=5", "extra=0 menu=Pc depth=4"],
          ["menu=Ac depth=5", "menu=PNEZ0Bc depth=5", "menu=MEP depth=3", "menu=PEcM faults=14 depth=4", "menu=PDEc depth=7", "extra=0 menu=Pc depth=6"],
          "all sequences of coded frames (what each decoding step of them yields included), codec changes and failing codec calls, up to the depth"),
    ]),
    "C30": dict(technique=ENUM, parts=[
        P("audio_decode", ["menu=PNEZM0cb depth=2", "menu=PNEZ0cb depth=4", "menu=Hcs depth=4", "menu=PEcs faults=10 depth=3", "menu=Apfx depth=3", "menu=Acf depth=3", "menu=Pfx queue=1 depth=2", "menu=MPf depth=2 mk=3"],
          ["menu=PNEZM0cb depth=3", "menu=PNEZ0cb depth=5", "menu=Hcs depth=5", "menu=PEcs faults=14 depth=4", "menu=Apfx depth=4", "menu=Acf depth=4", "menu=Pfx queue=1 depth=3", "menu=MPf depth=2 mk=3"],
          "all sequences of packets (what each decoding step of them yields included), codec and stream changes, configurations and failing codec calls, up to the depth"),
    ]),
    "C31": dict(technique=ENUM, parts=[
        P("audio_encode", ["menu= depth=0 tries=2 bad=1", "menu= depth=0 tries=2 cfgs=9 faults=8", "menu=CENLRikt cfgs=7 depth=2", "menu=CxmkR depth=2 ins=4", "menu=Ri depth=2 cfgs=7", "menu=CiN faults=6 tries=2 cfgs=9 depth=1", "menu=RiN depth=3 in=3 cfgs=2", "menu=CEN depth=5 cfgs=3 in=3"],
          ["menu= depth=0 tries=3 bad=1", "menu= depth=0 tries=3 cfgs=9 faults=12", "menu=CENLRikt cfgs=7 depth=3", "menu=CxmkR depth=3 ins=4", "menu=Ri depth=3 cfgs=7", "menu=CiN faults=6 tries=2 cfgs=9 depth=2", "menu=RiN depth=4 in=3 cfgs=2", "menu=CENt depth=7 cfgs=3 in=3"],
          "all sequences of configurations, chunks, input formats, answers of the codec and failing codec calls, up to the depth"),
    ]),
    "C33": dict(technique=ENUM, parts=[
        P("demux", ["menu=PU depth=2", "menu=R raw=9 depth=1 srcs=0", "menu=Pf depth=3 srcs=14", "menu=PUdEue0 mid=1 depth=3", "menu=Qd0uf mid=1 depth=4 srcs=12", "menu=PQu faults=6 depth=2", "menu=uq depth=2 faults=4", "menu=T depth=4 srcs=0", "menu=Tu depth=3", "menu=xeu depth=3"],
          ["menu=PU depth=3", "menu=R raw=12 depth=1 srcs=0", "menu=R raw=6 depth=2 srcs=0", "menu=Pf depth=4 srcs=14", "menu=PUdEue0 mid=1 depth=4", "menu=Qd0uf mid=1 depth=6 srcs=12", "menu=PQu faults=9 depth=3", "menu=uqe depth=3 faults=5", "menu=T depth=6 srcs=0", "menu=Tu depth=4", "menu=xeu depth=4"],
          "all sequences of packets (of every content up to 9 or 12 bytes over the bytes start codes are made of), connections, sources, events and failing calls, up to the depth"),
    ]),
    "C34": dict(technique=ENUM, parts=[
        P("transmit", ["readers=HA menu=fbsmrRplxdci depth=4", "readers=HA menu=fsxi depth=5", "readers=HA menu=frpli depth=5", "readers=HA menu=fRpl depth=5", "readers=HV menu=fspldcx pre=r depth=4", "readers=5 menu=fsmRpx depth=4 sizes=4", "readers=H menu=fpl depth=5 pre=rss", "readers=HA menu=fmxi pre=mffsf depth=3", "readers=MPOG menu=sfbdc depth=3 sizes=3", "readers=R menu=sfdcw depth=3", "readers=LN menu=rwfplx depth=3", "readers=HA menu=w depth=2 pre=rs", "readers=5MV menu=w depth=2 pre=rs", "readers=HA menu=fi depth=4 pre=mrps low=1000", "readers=M menu=fu depth=4 sizes=4", "readers=U menu=fu depth=4 pre=u sizes=6", "readers=U menu=fudc depth=4 pre=uff sizes=4", "readers=UA menu=fumrpsx depth=3 sizes=3", "readers=A menu=fsp depth=4 sizes=3 pre=r"],
          ["readers=HA menu=fbsmrRplxdci depth=5", "readers=HA menu=fsxi depth=6", "readers=HA menu=frpli depth=6", "readers=HA menu=fRpl depth=6", "readers=HV menu=fbspldcx pre=r depth=4", "readers=5 menu=fsmRpx depth=5 sizes=4", "readers=H menu=fpl depth=6 pre=rss", "readers=HA menu=fmxi pre=mffsf depth=4", "readers=MPOG menu=sfbdc depth=4 sizes=3", "readers=R menu=sfdcw depth=4", "readers=LN menu=rwfplx depth=4", "readers=HA menu=w depth=3 pre=rs", "readers=5MV menu=w depth=3 pre=rs", "readers=HA menu=fi depth=6 pre=mrps low=1000", "readers=M menu=fu depth=6 sizes=4", "readers=U menu=fu depth=6 pre=u sizes=6", "readers=U menu=fudc depth=6 pre=uff sizes=4", "readers=UA menu=fumrpsx depth=4 sizes=3", "readers=A menu=fsp depth=5 sizes=3 pre=r", "readers=MH menu=fbuspmxd depth=5"],
          "all sequences of frames, connections added, refused and removed, clients that come and go and readers disconnected and connected, up to the depth"),
    ]),
    "C35": dict(technique=ENUM, parts=[
        P("receive", ["menu=uarxcdnSbt depth=4", "menu=cdnsSb depth=4 servers=P pre=urrrcn", "menu=urf depth=6 servers=PVeze", "menu=xbec depth=6 servers=P pre=urrrcn", "menu=axcn locals=hgcopqmxd0 depth=3", "menu=axcdbn locals=hg depth=5", "menu=urcn servers=HL0XU depth=7 sessions=1", "menu=nsScbd servers=HBL depth=5 pre=urrrr", "menu=urfcxnS servers=HPnrRa5VPOXUeuzEB depth=5", "menu=w depth=3 pre=urrra", "menu=tTG servers=Rra pre=urrr depth=4", "menu=urtT servers=rRa depth=7 sessions=1", "menu=urkx servers=PH depth=7 sessions=1", "menu=urKtx servers=P depth=6 sessions=1", "menu=Kxb servers=r depth=3 pre=urrr", "menu=ven depth=5 pre=urrr servers=PB", "menu=vxua depth=6", "menu=vxuad depth=5 order=1", "menu=nscdS depth=4 pre=urrrc servers=Pr sizes=3", "menu=rfdcn depth=4 pre=uuaa servers=BU locals=b sessions=4", "menu=nt depth=6 pre=a"],
          ["menu=uarxcdnSbt depth=5", "menu=cdnsSb depth=6 servers=P pre=urrrcn", "menu=urf depth=8 servers=PVeze", "menu=xbec depth=8 servers=P pre=urrrcn", "menu=axcn locals=hgcopqmxd0 depth=5", "menu=axcdbn locals=hg depth=7", "menu=urcn servers=HL0XU depth=9 sessions=1", "menu=nsScbd servers=HBL depth=6 pre=urrrr", "menu=urfcxnS servers=HPnrRa5VPOXUeuzEB depth=6", "menu=w depth=4 pre=urrra", "menu=tTG servers=Rra pre=urrr depth=6", "menu=urtT servers=rRa depth=9 sessions=1", "menu=urkx servers=PH depth=9 sessions=1", "menu=urKtx servers=P depth=8 sessions=1", "menu=Kxb servers=r depth=5 pre=urrr", "menu=ven depth=7 pre=urrr servers=PB", "menu=vxua depth=8", "menu=vxuad depth=7 order=1", "menu=nscdS depth=5 pre=urrrc servers=Pr sizes=3", "menu=rfdcn depth=5 pre=uuaa servers=BU locals=b sessions=4", "menu=nt depth=10 pre=a"],
          "all sequences of sessions, replies, packets, ends of streams, readers connected and disconnected, and time, up to the depth"),
    ]),
    "C32": dict(technique=ENUM, parts=[
        P("stats", ["menu=F depth=4 dts=7", "menu=FO depth=3 warm=24 dts=7", "menu=FEmts warm=20 depth=3", "menu=LMmts depth=4", "menu=LMtF warm=23 depth=3", "share=0 menu=FEmtOw depth=3 warm=24", "menu=EOmtswd warm=24 depth=4", "share=0 mids=2 few=1 menu=LMNnt depth=4", "mids=2 menu=FEmnts warm=20 depth=3"],
          ["menu=F depth=5 dts=7", "menu=FO depth=4 warm=24 dts=7", "menu=FEmts warm=20 depth=5", "menu=LMmts depth=6", "menu=LMtF warm=23 depth=4", "share=0 menu=FEmtOw depth=4 warm=24", "menu=EOmtswd warm=24 depth=6", "share=0 mids=2 few=1 menu=LMNnt depth=5", "share=0 mids=2 few=1 menu=LMNFt depth=5 warm=23", "mids=2 menu=FEmnts warm=20 depth=4"],
          "all sequences of pictures (spacing, delay), runs of the filters, losses and waits, up to the depth, from the start and after a second of stream"),
    ]),
    "C26": dict(technique=ENUM, parts=[
        P("json", ["mode=tree nodes=2", "mode=tree nodes=3 leaves=3 keys=2", "mode=string len=3", "mode=string len=4 alpha=6", "mode=number", "mode=tokens len=4", "mode=tokens len=3 open=1", "mode=edit", "mode=edit warm=1"],
          ["mode=tree nodes=3", "mode=tree nodes=4 leaves=3 keys=2", "mode=string len=4", "mode=string len=6 alpha=6", "mode=number", "mode=tokens len=6", "mode=tokens len=6 alpha=10 open=1", "mode=edit", "mode=edit warm=1"],
          "all trees, strings, numbers, token sequences and edited documents within the bounds"),
    ]),
}
for c in CHECKS.values():
    c.setdefault("level", "model_checking")
