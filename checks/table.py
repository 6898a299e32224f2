CHECKS = {
 "C01": dict(level="model_checking",
   parts=[dict(name="main", src=["C01.cpp"], mode="thr", quick_s=90, thorough_s=700)],
   rule="every producer/consumer program over the transfer calls up to the stated length, from every start offset and fill, under every schedule within the bound; distinct_nontrivial counts distinct result vectors (how much each call moved)",
   bounds="full interleaving (sleep sets, <=2 stale reads) for length-2 programs at capacity 1-2; <=2 preemptions + <=1 stale read for length-3 (capacity 1) and length-2 (capacity 2-3); thorough: length 3, capacity 3, 3 preemptions",
   assumptions=["x86-64 code generated by clang -O1; the C++ memory model is represented by per-location store histories with happens-before views (no load buffering, no out-of-thin-air)", "two threads, one producer and one consumer"]),
 "C02": dict(level="model_checking", technique="explicit-state exploration of all operation sequences on the real channel against a reference deque",
   parts=[dict(name="s%d" % k, src=["C02.cpp"], flags=["-DSHARD=%d" % k], mode="asan", quick_s=60, thorough_s=250) for k in range(4)],
   rule="a case is one operation sequence applied from one (position, occupancy, history) state; outcomes are distinct (state path, final occupancy) tuples",
   bounds="all states of capacities 1-8 x all sequences of length 2-4 (thorough up to 6), boundary states of capacities up to 2^20, every requested capacity 1..1100; element sizes 1..2048 bytes",
   assumptions=["single thread (interleavings are C01's subject)"]),
 "C03": dict(level="model_checking", technique="explicit-state exploration of the real channel (all wrap-position classes x operation pairs) against a reference deque, with guard pages around every mapping",
   parts=[dict(name="s%d" % k, src=["C03.cpp"], flags=["-DSHARD=%d" % k], mode="plain", quick_s=40, thorough_s=160) for k in range(5)]
        + [dict(name="firstuse", src=["C03u.cpp"], mode="thr", quick_s=40, thorough_s=200)]
        + [dict(name="noclaim", src=["C03.cpp"], flags=["-DSHARD=5", "-DNDEBUG"], mode="plain", quick_s=20, thorough_s=30)],
   rule="a case is (element size, requested capacity, read position, occupancy, way of filling, operation, count, way of reading back); outcomes are distinct (position, occupancy, element size, operation) classes",
   bounds="60 element sizes 1..8192 bytes at the smallest contiguous capacity and multiples, 13 channels of 2 MiB and more with and without huge pages; positions and occupancies 0, 1, half, all but one, all; every transfer amount class",
   assumptions=["single thread", "a granted huge-page reservation behaves as the kernel documents (length rounded to 2 MiB)"]),
 "C04": dict(level="fault_enumeration", technique="exhaustive fault enumeration: every combination of failing OS calls along the real construction path is executed, with a ledger of descriptors, mapped pages, names and heap blocks",
   parts=[dict(name="faults", src=["C04.cpp"], mode="plain", quick_s=120, thorough_s=600)],
   rule="a case is one success/failure pattern over the sequence of memfd_create, shm_open, ftruncate, mmap and allocation calls that construction actually makes; outcomes are distinct (call log, resulting storage kind) classes",
   bounds="all patterns for one channel (probe included: every subset of failing calls); up to 3 failing calls for two channels; mapping-object histories of length 3 with up to 2 failing calls",
   assumptions=["munmap and close do not fail on valid arguments", "huge pages are refused in this check (C03 grants them)"]),
 "C05": dict(level="model_checking", technique="explicit-state exploration: every operation history up to the depth is executed on the real queue with lifetime-tracking element types, ownership ledger and allocation ledger; exceptions injected at every construction",
   parts=[dict(name="main", src=["C05.cpp"], mode="asan", quick_s=100, thorough_s=600)],
   rule="a case is one operation history on one (element type, storage kind, capacity, fill) configuration; outcomes are distinct (operation, occupancy) paths",
   bounds="all histories of length 4-5 (thorough 6-7) over 10 operations, stack, heap and doubly mapped storage, movable-only, copyable-only and over-aligned types; a throw at every element construction and every copy assignment",
   assumptions=["single thread (hand-over between threads is C01's subject)"]),
 "C06": dict(level="model_checking",
   parts=[dict(name="main", src=["C06.cpp"], mode="thr", quick_s=90, thorough_s=700)],
   rule="a case is one schedule of a balanced producer/consumer program; outcomes are distinct (length, stale reads) of terminating executions; non-termination is deadlock or more than 4000 visible operations under fair yielding",
   bounds="balanced programs moving 2-6 elements at capacity 1-2, from every offset and fill; <=2-3 preemptions and <=1-2 stale reads (switches at a blocked or yielding thread are free); full interleaving for 2 elements at capacity 1",
   assumptions=["fair scheduling: a thread that only re-reads unchanged values lets the others run", "a stale read is eventually followed by a fresh one"]),
 "F02": dict(level="model_checking",
   parts=[dict(name="main", src=["F02.cpp"], mode="thr", flags=["-D_GLIBCXX_ASSERTIONS"], quick_s=90, thorough_s=700),
          dict(name="noassert", src=["F02.cpp"], mode="thr", flags=["-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"], quick_s=40, thorough_s=100)],
   rule="a case is one schedule of one (block count, worker count, scheduler, batch limit, adaptive sleep, block behaviour) configuration; outcomes are distinct (assignment of blocks to workers, length) pairs",
   bounds="1-12, 16, 17, 20 and 22 blocks x 2..21, 64, 255, 256 and SIZE_MAX workers under the default schedule; up to 2 (thorough 3) preemptions for 2-3 blocks, 1 (thorough 2) for 4-9; 0 and 1 workers with asserts compiled out",
   assumptions=["max_calls_per_tick >= 1", "fair scheduling: a thread that only re-reads unchanged values lets the others run"]),
 "F03": dict(level="model_checking",
   parts=[dict(name="main", src=["F03.cpp"], mode="thr", flags=["-D_GLIBCXX_ASSERTIONS"], quick_s=100, thorough_s=800)],
   rule="a case is one schedule of one history over run(config), stop, fatal failure of block k, failing thread creation and destruction; outcomes are distinct (history, length) pairs",
   bounds="all histories of length 3-5 over up to 4 configurations, 1-3 (thorough 4) blocks, each thread creation failing in turn; 1-2 preemptions and 1 stale read",
   assumptions=["one controlling thread; stop() is not called from inside a block or from the termination callback", "fair scheduling"]),
 "F04": dict(level="model_checking",
   parts=[dict(name="main", src=["F04.cpp"], mode="thr", flags=["-D_GLIBCXX_ASSERTIONS"], quick_s=100, thorough_s=800)],
   rule="a case is one schedule of one (configuration, failing block, failing call, code, callback registration, error pattern of the other steps) choice over up to two runs; outcomes are distinct (calls per block, length) classes",
   bounds="1-4 (thorough 5) blocks, every block failing at call 1-4 with each of the five fatal codes, one or two failing blocks, both schedulers; 0-2 (thorough 3) preemptions and 1 stale read",
   assumptions=["the callback does not call stop()", "fair scheduling"]),
 "F01": dict(level="model_checking",
   parts=[dict(name="main", src=["F01.cpp"], mode="thr", flags=["-D_GLIBCXX_ASSERTIONS"], quick_s=150, thorough_s=850)],
   rule="a case is one schedule of one (topology, transfer style, scheduler configuration, capacity) combination carrying K numbered samples to the sinks; outcomes are distinct (length, stale reads) of executions",
   bounds="chains of 2-4, fan-out, fan-in and diamond; single, bulk, segment, blocking and view transfers; capacity 1-2; 2-4 samples; both schedulers, 2-8 workers, batch 1-4, adaptive sleep, stats, pinning, stop and re-run; 1-2 (thorough 3) preemptions and 1 stale read",
   assumptions=["fair scheduling", "the blocks used are the check's own; the shipped blocks are the subject of B01-B08"]),
 "F05": dict(level="model_checking",
   parts=[dict(name="main", src=["F05.cpp"], mode="thr", flags=["-D_GLIBCXX_ASSERTIONS"], quick_s=100, thorough_s=800)],
   rule="a case is one schedule of one (topology, configuration, failing block or blocks, error pattern); outcomes are distinct (pattern, length) classes",
   bounds="every pattern of length 1-3 (thorough 4) over the six non-fatal codes and success, once or repeated for ever, at one or two blocks of chains, fan-in, fan-out and (thorough) diamond; 0-1 preemptions; blocks failing for ever beside working ones with 0-2 preemptions",
   assumptions=["fair scheduling", "a failing step leaves its channels untouched (the check's own blocks do)"]),
 "F06": dict(level="model_checking",
   parts=[dict(name="main", src=["F06.cpp"], mode="thr", flags=["-D_GLIBCXX_ASSERTIONS"], quick_s=100, thorough_s=800)],
   rule="a case is one schedule of one (history of runs, configuration, result pattern, step duration, ending, wall-clock step); outcomes are distinct (counts per block, length) classes",
   bounds="1-5 (thorough 7) blocks, every result pattern of period 3, 1-2 (thorough 3) runs ended by stop or by a fatal error of each block, both schedulers, statistics on and off, the wall clock stepping an hour back or forth during the run; 0-1 (thorough 2) preemptions",
   assumptions=["statistics are read after stop()", "virtual clocks: every clock read takes 100 ns"]),
 "F07": dict(level="model_checking", technique="exhaustive enumeration of step-result sequences on the real schedulers under the controlled scheduler, against an interval model of the back-off",
   parts=[dict(name="main", src=["F07.cpp"], mode="thr", flags=["-D_GLIBCXX_ASSERTIONS"], quick_s=100, thorough_s=800)],
   rule="a case is one (scheduler, batch, threshold, factor, maximum, result sequence per block) under one schedule; outcomes are distinct sequences of sleep lengths",
   bounds="all sequences of length 7 (thorough 9) over success/fruitless and 5-6 over four result kinds, rows of up to 14 (24) fruitless steps around up to 3 successes; thresholds 0-3 and 10, factors 1.1-7, maxima 0-5000 us, batch 1-4, 1-12 blocks, two runs; mostly the default schedule, 1-2 preemptions for short sequences",
   assumptions=["sleeps are observed through a task policy that records them"]),
 "F08": dict(level="model_checking",
   parts=[dict(name="main", src=["F08.cpp"], mode="thr", flags=["-D_GLIBCXX_ASSERTIONS"], quick_s=100, thorough_s=800)],
   rule="a case is one schedule of one (duration, configuration, step behaviour and length, wall-clock step, fatal error) run, made twice; outcomes are distinct (elapsed virtual time, length) pairs",
   bounds="17 durations from -5 us to 30 days in integer, rational and floating-point units; both schedulers, 1-3 (thorough 5) blocks; the wall clock stepping two hours during polling or during the long sleep; 0-2 (thorough 3) preemptions",
   assumptions=["virtual time: sleeping takes exactly as long as asked, polling advances in steps of 5-20 ms", "overshoot bound checked: 400 ms of virtual time"]),
 "F09": dict(level="model_checking",
   parts=[dict(name="main", src=["F09.cpp"], mode="thr", flags=["-D_GLIBCXX_ASSERTIONS", "-I@HERE@/checks/rtos"], quick_s=100, thorough_s=800)],
   rule="a case is one schedule of one history of create / join / move / move-construct operations on up to three task handles (or of flowgraph run / stop / run again) on one RTOS, with one RTOS creation call refused; outcomes are distinct (history, length) pairs",
   bounds="every history of length 2-5 (thorough 6) over up to 3 handles and 3 tasks, four kinds of task function, each creation call refused in turn; flowgraphs of 1-4 blocks on both schedulers, 2-3 runs; 0-3 preemptions and 1 stale read",
   assumptions=["the RTOS is a kernel model written from the published API contracts (FreeRTOS, ThreadX, Zephyr), with tracked object lifetimes; priorities are not modelled, every interleaving is allowed", "a moved-from handle is only destroyed or assigned to, never joined"]),
 "B01": dict(level="model_checking", technique="exhaustive enumeration of chunking schedules of the real blocks against reference streams, under AddressSanitizer",
   parts=[dict(name="main", src=["B01.cpp"], mode="asan", quick_s=100, thorough_s=800)],
   rule="a case is one (block, sample type, input and output capacity, ring position, schedule of feed and drain amounts before each call); states are distinct (schedule, occupancy) pairs",
   bounds="gain, noise (deviation 0), frequency shift, add (2-4 inputs), fan-out (1-3 outputs), throughput, complex split, null sink; channels of 1-5 samples with every feed and drain amount before each of 2-5 calls from up to 8 ring positions; page-sized and larger channels with boundary amounts",
   assumptions=["frequency shift compared to the exact rotation within 2e-4"]),
 "B02": dict(level="model_checking", technique="exhaustive enumeration of chunking schedules of the real blocks against one uninterrupted pass, under AddressSanitizer",
   parts=[dict(name="main", src=["B02.cpp"], mode="asan", libs=["-lliquid"], quick_s=100, thorough_s=800)],
   rule="a case is one (block, parameters, channel capacities, initial fill, schedule of feed and drain amounts before each call); states are distinct (schedule, occupancy) pairs",
   bounds="low-pass filter (real, complex), FM demodulator, channelizer of 1-5 channels, resampler with 11 ratios from 0.1 to 8.5 into output channels of 1-16 and of page size; boundary feed and drain amounts before each of 1-5 calls, starting from empty, full, nearly full and nearly empty outputs",
   assumptions=["reference: the same liquid-dsp objects driven one sample at a time, within 1e-4"]),
 "B03": dict(level="model_checking", technique="exhaustive enumeration of drain schedules of the real generators against the closed form of the sequence, under AddressSanitizer",
   parts=[dict(name="main", src=["B03.cpp"], mode="asan", quick_s=100, thorough_s=800)],
   rule="a case is one (generator, parameters, output capacity, start offset, schedule of drain amounts before each call), or one chirp duration; states are distinct (schedule, occupancy) pairs",
   bounds="output capacities 1-6 with every drain amount and 512-4096 with 0/1/2/half/all-1/all, 4 (thorough 5) scheduled calls; chirp durations of every whole sample count up to the listed limits; runs of 10^6 (thorough 5*10^6) samples",
   assumptions=["values are compared to the closed form within 1e-4 (tone, plus 3e-7 of the amplitude per sample of accumulated frequency rounding) or 1e-3 (chirp)"]),
 "B04": dict(level="model_checking", technique="exhaustive enumeration of schedules, file lengths and I/O fault points of the real file blocks on real files, under AddressSanitizer",
   parts=[dict(name="main", src=["B04.cpp"], mode="asan", quick_s=100, thorough_s=800)],
   rule="a case is one (block, sample type, channel capacity, file length or size limit, fault point and kind, repeat / callback, schedule of feed or drain amounts); states are distinct (schedule, occupancy) pairs",
   bounds="capacities 2-7 with every amount and 512-4096 with 0/1/2/half/all-1/all, 2-5 scheduled calls; files of 0-9 samples plus 0/1/all-but-one trailing bytes; disk full at the listed bytes; a failing, short or interrupted read at each of the first three read calls",
   assumptions=["a full disk is produced with RLIMIT_FSIZE (short write up to the limit, then EFBIG)", "read faults are injected at read(2) as called by the C++ library", "data still in the stdio buffer when a write fails may be lost, since the failure is reported"]),
 "B05": dict(level="model_checking", technique="exhaustive enumeration of call times, sleep overruns, wall-clock steps and channel schedules of the real throttle under a virtual clock",
   parts=[dict(name="main", src=["B05.cpp"], mode="thr", flags=["-D_GLIBCXX_ASSERTIONS"], quick_s=60, thorough_s=800)],
   rule="a case is one (rate, channel capacities, sequence of waiting times, overlong sleeps, wall-clock steps and channel amounts); states are distinct (occupancy, virtual time) histories",
   bounds="5 (thorough 6) calls with waits of 0/0.3/1/1.7/12.5 intervals and up to two overlong sleeps; channel capacities 1-3 with every amount; wall clock +-1 h or -3.5 intervals before every call; runs of 4000-12000 samples at rates of 1/s to 7 million/s",
   assumptions=["time is the checker's virtual clock; a call itself takes at most 2 us of it", "a sleep may last longer than asked, never shorter"]),
 "B06": dict(level="model_checking", technique="stateless exploration of the real pool: every interleaving of one taker and up to two releasers, and every operation sequence, against an ownership ledger",
   parts=[dict(name="conc", src=["B06.cpp"], repo=["desktop_blocks/blob.cpp"], mode="thr", quick_s=60, thorough_s=600),
          dict(name="seq", src=["B06s.cpp"], repo=["desktop_blocks/blob.cpp"], mode="asan", quick_s=60, thorough_s=300)],
   rule="a case is one (pool size, start offset, slots released by each thread, taker program) under one schedule, or one sequence of takes and releases; outcomes are distinct slot sequences",
   bounds="pools of 1-4 slots, 0-4 concurrent releases by up to two threads plus the taker, programs of 1-3 (4) operations: every interleaving with up to 2 stale reads for two threads, 2-3 (4) preemptions for three; sequences of 8 (10) operations on pools of 1-1024 slots",
   assumptions=["one thread takes; any number release", "a slot is released once by its holder (a second release is caught by the code's assertion only for the same handle)"]),
 "B07": dict(level="model_checking", technique="exhaustive enumeration of socket outcome sequences and drain / release schedules of the real datagram blocks over a scripted socket layer, under AddressSanitizer",
   parts=[dict(name="main", src=["B07.cpp"], repo=["desktop_blocks/blob.cpp", "desktop_blocks/udp/shared.cpp"], mode="asan", quick_s=100, thorough_s=800)],
   rule="a case is one (item type, pool and channel size, sequence of socket outcomes, drain and release schedule), or one (address, direction, failing call); states are distinct (script position, occupancy) histories",
   bounds="scripts of 4-6 socket outcomes out of ten kinds, 1-4 scheduled calls, pools of 1-4 slots, channels of 1-16 (sink 1-512); all address forms and every failing call while opening",
   assumptions=["the socket layer is a stand-in with the documented behaviour of recvmsg/recvfrom/sendto on datagram sockets", "a datagram shorter than a fixed-size item is accepted and fills its first bytes (the UDP example relies on it); an empty datagram is skipped"]),
 "B08": dict(level="model_checking", technique="stateless exploration of the real driver blocks with the driver's callback thread under the controlled scheduler, plus exhaustive enumeration of transfer / call histories and of failing driver calls, on a scripted driver",
   parts=[dict(name="threads", src=["B08.cpp"], mode="thr", flags=["-DTHR", "-I@HERE@/checks/mock"], quick_s=100, thorough_s=700),
          dict(name="seq", src=["B08.cpp"], mode="asan", flags=["-I@HERE@/checks/mock"], quick_s=60, thorough_s=300),
          dict(name="soapy_rx", src=["B08s.cpp"], flags=["-DRX"], mode="asan", libs=["-lSoapySDR"], quick_s=60, thorough_s=300),
          dict(name="soapy_tx", src=["B08s.cpp"], mode="asan", libs=["-lSoapySDR"], quick_s=60, thorough_s=300)],
   rule="a case is one (buffer position and fill, transfer sizes, calls) under one schedule, one history of transfers, calls and channel operations, one sample code, or one failing driver call",
   bounds="<=2 (thorough 3) preemptions and 1 (2) stale reads over 1-4 transfers of 1-4 samples around a full, empty or wrapping buffer; histories of 4-5 (7) operations; all 65536 codes; every driver call failing",
   assumptions=["the stand-in driver keeps libhackrf's documented contract: one callback thread, no callback after close"]),
 "L01": dict(level="model_checking", technique="exhaustive enumeration of interface histories and failing file calls of the real logger on real files, each execution in its own process, plus stateless exploration of its threads under the controlled scheduler",
   parts=[dict(name="hist", src=["L01.cpp"], repo=["desktop_logger/desktop_logger.cpp", "desktop_logger/zf_log/zf_log.c"], flags=["-I@REPO@/desktop_logger", "-I@REPO@/desktop_logger/zf_log"], mode="plain", quick_s=100, thorough_s=700),
          dict(name="threads", src=["L01.cpp"], repo=["desktop_logger/desktop_logger.cpp", "desktop_logger/zf_log/zf_log.c"], flags=["-DTHR", "-I@REPO@/desktop_logger", "-I@REPO@/desktop_logger/zf_log"], mode="thr", quick_s=60, thorough_s=500)],
   rule="a case is one history of interface calls over one set of existing files, one failing file call, or one schedule of two writers and a controller; outcomes are distinct line and file histories",
   bounds="histories of 3-7 (thorough 4-9) calls out of 16 kinds, line lengths 14-700 around limits of 1024-2000 bytes, 1-3 backups, 0-3 existing files; <=3 (4) preemptions with two writers of 2-3 lines",
   assumptions=["the time stamp is not checked against a clock", "zf_log's own global output setting is changed only by starting the logger"]),
 "A03": dict(level="model_checking", technique="exhaustive enumeration of the report space (every latitude cell of both grids, every longitude cell per zone count, reference grids) of the real decoder against an independent long-double encoder",
   parts=[dict(name="main", src=["A03.cpp"], repo=["desktop_blocks/adsb/cpr.c"], mode="plain", quick_s=60, thorough_s=600)],
   rule="a case is one decoded report pair or relative report; outcomes are distinct zone combinations and completed enumeration slices",
   bounds="airborne global: all 2 x 3.9 million latitude cells x 3 in-cell positions, and longitude cells of all 59 zone counts (thorough: all of them, quick: every 13th and all within 300 cells of a zone edge); surface, relative and arbitrary pairs on grids with the date line, equator and poles refined",
   assumptions=["within 1e-7 degrees of a zone boundary and at the poles refusing is allowed", "the zone boundaries follow the closed-form NL definition"]),
 "A01": dict(level="model_checking", technique="exhaustive enumeration of corruption patterns, field values and address-cache histories (controlled clock) of the real decoder against an independent checksum and bit-field oracle, under AddressSanitizer",
   parts=[dict(name="main", src=["A01.cpp"], repo=["desktop_blocks/adsb/modes.c"], mode="asan", quick_s=100, thorough_s=800)],
   rule="a case is one received frame in one decoder configuration, or one history of frames, clock steps and queries; outcomes are distinct verdicts with reported error positions",
   bounds="all corruptions of <=2 (thorough 3) bits of 12 frames, repair off, on and aggressive; all 32 formats; histories of 4 (5) events on 2 addresses, also sharing a cache slot, with the clock around 2^31 and near 2^32; every value of every decoded field (fields up to 19 bits, velocity pairs on a grid of 1/3, thorough all) in 3-6 surroundings",
   assumptions=["formats 0, 4, 5, 11, 16, 17, 20, 21 and 24 are the supported ones", "velocities and rates are the raw field values", "altitudes coded without the Q bit or in metres decode to 0 (documented as not implemented)"]),
 "A02": dict(level="model_checking", technique="exhaustive enumeration of buffer lengths, frame positions, sample phases, quiet patterns and stream splits over the real detectors and decoder block under AddressSanitizer, plus stateless exploration of filter changes and of two decoders under the controlled scheduler",
   parts=[dict(name="seq", src=["A02.cpp"], repo=["desktop_blocks/adsb/modes.c", "desktop_blocks/adsb/modes_2400.c"], mode="asan", flags=["-I@REPO@/desktop_blocks/adsb"], quick_s=120, thorough_s=800),
          dict(name="threads", src=["A02.cpp"], repo=["desktop_blocks/adsb/modes.c", "desktop_blocks/adsb/modes_2400.c"], mode="thr", flags=["-DTHR", "-I@REPO@/desktop_blocks/adsb"], quick_s=60, thorough_s=300)],
   rule="a case is one sample buffer given to a detector, one call of the decoder block, or one schedule; states are distinct (position, phase, length) or (input, output) situations",
   bounds="buffers of all lengths 0-560 (thorough 900) with 12 contents; 9 formats x 6 contents x 4 strengths x 5 quiet patterns at 40 (330) positions and all 5 sample phases of 2.4 MHz; 4096 (65536) patterns of small pulses; pairs of frames with gaps 1-23 (59); streams of 6 frames split at every sample, on a grid of pairs, outputs of 1-8; 68 filters; <=2 (3) preemptions",
   assumptions=["at 2 MHz the frame is aligned with the samples (the detector's documented limit)", "at least one quiet sample separates frames", "frames are valid or, for the louder-signal cases, decodable at the lower strength"]),
 "U01": dict(level="model_checking", technique="exhaustive enumeration of operation sequences and arguments of the real helpers against reference results, under AddressSanitizer",
   parts=[dict(name="main", src=["U01.cpp"], mode="asan", quick_s=60, thorough_s=600)],
   rule="a case is one observation after one operation of a sequence, or one argument; states are distinct (size, length) or (kind, step) situations",
   bounds="string sizes 1-64 with all source lengths to size+70 and all sequences of 3 (thorough 4) of 38 operations; results of four type pairs with all sequences of 3-4 (4-5) of 18 operations; all arguments below 2^21 (2^26) and within 300 of every power and of every sum of two powers of two",
   assumptions=["the power-of-two helpers are asked only where the answer exists (no power at or below 0, none above 2^63)"]),
 "G01": dict(level="model_checking", technique="stateless exploration of the interleavings of drawing and processing on the real plot blocks under the controlled scheduler, plus exhaustive enumeration of chunking, pause and drawing sequences under AddressSanitizer against an independent transform",
   parts=[dict(name="seq", src=["G01.cpp"], repo=["desktop_blocks/plots/plot_timeseries.cpp", "desktop_blocks/plots/plot_cspectrum.cpp", "desktop_blocks/plots/plot_cspectrogram.cpp"], mode="asan", flags=["-I@HERE@/checks/mock/imgui"], libs=["-lliquid"], quick_s=100, thorough_s=800),
          dict(name="threads", src=["G01.cpp"], repo=["desktop_blocks/plots/plot_timeseries.cpp", "desktop_blocks/plots/plot_cspectrum.cpp", "desktop_blocks/plots/plot_cspectrogram.cpp"], mode="thr", flags=["-DTHR", "-I@HERE@/checks/mock/imgui"], libs=["-lliquid"], quick_s=100, thorough_s=800)],
   rule="a case is one schedule of drawing beside processing, or one step of a sequence of arrivals, presses of the pause button, processing and drawing; outcomes are distinct (samples taken, paused) or moments shown",
   bounds="1-3 signals; histories of 100-3000 samples; transforms of 4-1000 points, all six windows, three signals; sequences of 2-5 (thorough 3-6) steps with the arrival sizes 0, 1, N-1, N, half, all; recordings of 2*10^7 (10^8) samples; <=2 (3) preemptions, <=1 stale read",
   assumptions=["the drawing library is replaced by a stand-in that copies and records what is plotted", "one drawing thread and one processing thread"]),
 "A04": dict(level="model_checking", technique="exhaustive enumeration of message, clock and batching sequences over the real decoder and aircraft table against a reference record, plus stateless exploration of queries and drawing beside the processing under the controlled scheduler",
   parts=[dict(name="seq", src=["A04.cpp"], repo=["desktop_blocks/adsb/modes.c", "desktop_blocks/adsb/cpr.c"], mode="asan", flags=["-I@REPO@/desktop_blocks/adsb", "-I@HERE@/checks/mock/imgui"], quick_s=120, thorough_s=800),
          dict(name="threads", src=["A04.cpp"], repo=["desktop_blocks/adsb/modes.c", "desktop_blocks/adsb/cpr.c"], mode="thr", flags=["-DTHR", "-I@REPO@/desktop_blocks/adsb", "-I@HERE@/checks/mock/imgui"], quick_s=100, thorough_s=800)],
   rule="a case is one sequence of messages and clock steps, given one by one or in one call, or one schedule; outcomes are distinct tables",
   bounds="all sequences of 4-5 (thorough 5-6) out of 6-12 messages of up to 3 aircraft and clock steps of 9, 12, 20, 3000 and -5 s; tables of up to 3000 (20000) aircraft; <=2 (3) preemptions, <=1 stale read",
   assumptions=["speeds to 2.5 knots and tracks to 2.9 degrees (the decoder reports raw components)", "pairs of reports of places more than half a zone apart within 10 s are not meaningful", "a pair of reports exactly 10 s apart may be used or not", "the drawing library is replaced by a recording stand-in", "one querying thread and one processing thread"]),
 "A05": dict(level="model_checking", technique="exhaustive enumeration of coastline file corruptions (every cut, every word and pairs of words by boundary values) under AddressSanitizer with a memory limit, and of zoom and drag sequences of the real map against a linear projection",
   parts=[dict(name="main", src=["A05.cpp"], repo=["desktop_blocks/adsb/modes.c", "desktop_blocks/adsb/cpr.c"], mode="asan", flags=["-I@REPO@/desktop_blocks/adsb", "-I@HERE@/checks/mock/imgui"], quick_s=120, thorough_s=800)],
   rule="a case is one file content, or one aircraft drawn after one sequence of zooms and drags; outcomes are distinct (lines, points) loaded or (zoom, centre) views",
   bounds="6 files of 0-300 records, every length, every word by 50 values, pairs of the length, type and count words by 12 (thorough 50) values, also cut behind the change; maps of 4 window sizes with up to 24 aircraft and sequences of 2-4 (thorough 2-5) of 8 mouse actions",
   assumptions=["the drawing library is replaced by a recording stand-in", "a malformed record may be skipped or end the file; records before it are intact"]),
 "A06": dict(level="model_checking", technique="exhaustive enumeration of queueing, room and draining sequences, stream splits, offsets, damage and callback answers over the real modulator and demodulator under AddressSanitizer against an independent framing, plus stateless exploration of filling beside framing under the controlled scheduler",
   parts=[dict(name="seq", src=["A06.cpp"], repo=["desktop_blocks/blob.cpp", "desktop_blocks/ezgmsk/_ezgmsk_mod.c", "desktop_blocks/ezgmsk/_ezgmsk_demod.c"], mode="asan", flags=["-I@HERE@/checks/mock/liquid", "-I/usr/include/liquid"], libs=["-lliquid"], quick_s=120, thorough_s=800),
          dict(name="threads", src=["A06.cpp"], repo=["desktop_blocks/blob.cpp", "desktop_blocks/ezgmsk/_ezgmsk_mod.c"], mode="thr", flags=["-DTHR", "-I@HERE@/checks/mock/liquid", "-I/usr/include/liquid"], libs=["-lliquid"], quick_s=60, thorough_s=300)],
   rule="a case is one sequence of queueing, calls and draining, one stream given to a receiver in one split, or one schedule; states are distinct (room, queue) or split situations",
   bounds="9 modulator configurations (2-8 samples per symbol, filters of 1-4 symbols), sequences of 5-7 (thorough 6-8) steps of queueing 1-2 lengths, calls and draining, from room for exactly one frame, one sample less, or all; buffers of all lengths to 60 and all byte values; 3 links: all payload lengths and byte values, 70 (300) leads and gaps, gains 0.001-100, all single splits (8 samples per symbol: every 4th), piece sizes, a grid of pairs, sequences of 3 (4) of 11 good and damaged frames, cuts, tones, noise, non-finite samples; <=2 (3) preemptions, <=1 stale read",
   assumptions=["a frame is smaller than the output channel; headers have at least one byte; the preamble is at least as long as the filter", "frames are noise-free; carrier offsets to 0.04 rad only at two samples per symbol (elsewhere early detection may lose frames)", "liquid-dsp's private header is replaced by a stand-in with its error helper", "after samples that are not finite numbers only safety is promised"]),
 "B09": dict(level="model_checking", technique="exhaustive enumeration of drain schedules, file lengths, decoder framings and failing library calls of the real audio blocks (real FFmpeg libraries behind a scripted decoder, scripted PortAudio device), under AddressSanitizer",
   parts=[dict(name="file", src=["B09.cpp"], mode="asan", libs=["-lavformat", "-lavcodec", "-lswresample", "-lavutil"], quick_s=100, thorough_s=500),
          dict(name="output", src=["B09p.cpp"], mode="asan", quick_s=60, thorough_s=300)],
   rule="a case is one (file format, rates, channels, length, repeat, frames per packet, decoder delay, failing call, schedule of drain amounts); states are distinct (occupancy, samples produced) histories",
   bounds="WAV and FLAC files of 0-6000 samples, 1-6 channels, rates 8000 to 4000-16000 Hz; 3 (thorough 5) calls with 0/1/700/all samples taken, then 300 or all each; decoder frames of 1-3000 samples with 0-3 frames of delay; failing read or seek, every failing library call of the construction; audio output: 4 (5) calls x 4 amounts x 5 write outcomes from 6 buffer positions, every PortAudio call failing with 6 device numbers, 4 rates, 4 buffer sizes",
   assumptions=["the scripted decoder follows FFmpeg's send/receive contract", "an underflow of PortAudio means that the data was accepted", "the reference for mixing and rate conversion is one pass of the same converter over the whole file"]),
 "B10": dict(level="model_checking", technique="exhaustive enumeration of stream outcomes, drain and feed schedules and failing device calls of the real USRP and CaribouLite blocks on scripted devices, under AddressSanitizer",
   parts=[dict(name="main", src=["B10.cpp"], mode="asan", flags=["-I@HERE@/checks/mock"], quick_s=100, thorough_s=700)],
   rule="a case is one (block, sample type, channels, buffer position, script of stream outcomes, schedule of drain or feed amounts, device messages) or one (settings, missing part, failing device call) construction; states are distinct (occupancies, script position) histories",
   bounds="USRP: 1-2 channels, scripts of 2-3 (thorough 3-4) outcomes out of one / half / all / timeout / overflow / four stream errors, outputs full to 600 short of full and unequal between channels, 4 drain choices before each call; sinks with 3 feed amounts per channel and call and up to 3 device messages; CaribouLite: scripts of 2-3 outcomes of 6, MTU 1, 6 and 4096; each of the first 25 device calls failing, missing device, streamer and channel, 7 x 6 settings",
   assumptions=["the stand-in devices follow the published contracts of UHD (recv reports errors without samples, one buffer per channel) and CaribouLite", "samples below a quarter of the smallest buffer may wait in the sink"]),
 "M01": dict(level="model_checking", technique="exhaustive enumeration of small flowgraphs, program layouts and command lines through the real diagram tool (a small stand-in parser for tree-sitter), diagrams read back, under AddressSanitizer",
   parts=[dict(name="main", src=["M01.cpp"], repo=["tools/mermaid/src/cpp_parser.cpp", "tools/mermaid/src/flowgraph.cpp", "tools/mermaid/src/mermaid_renderer.cpp"], mode="asan", flags=["-I@HERE@/checks/mock", "-I@REPO@/tools/mermaid/src"], quick_s=100, thorough_s=700)],
   rule="a case is one flowgraph in one program layout, one given graph, or one command line; states are distinct (blocks, edges), outcomes distinct diagrams",
   bounds="all graphs of 1-3 blocks with 0-2 (two blocks: 0-4) connections between each ordered pair, every subset of unused blocks, 32 program layouts (three blocks, quick: one each); 11 names x 5 types x 6 template arguments; chains and stars of 1-40 (120) blocks behind texts of up to 300000 characters; 729 graphs x 3 fences x 3 directions; all command lines of 1-3 (4) of 7 files, 6 output paths, 11 malformed command lines, unwritable outputs",
   assumptions=["tree-sitter's grammar is replaced by a small parser of declarations and calls that yields the same node types", "block names are identifiers of ASCII letters, digits and underscores"]),
}
