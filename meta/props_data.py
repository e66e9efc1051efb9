TODO = "check not built yet"

prop("C01", "Every buffer reference acquired has exactly one owner until it is released",
 """Every reference-counted buffer (picture, packet data, header, metadata, probability table, segmentation
 map, motion field) that the decoder acquires is, on every path out of the operation including every error
 path, either released exactly once or left in exactly one owning handle. No owning handle is overwritten
 while it still holds a buffer, no buffer is released twice, and no error exit leaks one, so the release
 callback the application registered for a buffer runs exactly once.""",
 ["inputs", "fault_sequences", "histories"],
 "every call sequence, every bitstream, and every allocation failure inside any library function",
 "The suite runs only DSP kernels and header compile tests; no decode, no error path and no allocation failure is executed.",
 ["src/ref.c", "src/data.c", "src/picture.c", "src/obu.c", "src/lib.c", "src/decode.c", "src/cdf.c", "src/thread_task.c"],
 [("counted references", "src/ref.c"), ("handle copy/move/unref helpers", "src/picture.c, src/data.c, src/cdf.c"),
  ("error-path cleanup", "src/decode.c:dav1d_submit_frame, src/obu.c:dav1d_parse_obus")],
 state=[("reference counter", "number of owners of a buffer", "src/ref.h")],
 observe=["user free callback count", "heap at dav1d_close"], technique='conservation-of-references analysis: static partial evaluation (constant and symbolic-cell propagation over the IR, paths split at unknown branches and at every failing step); references taken per path compared with the owning handles found in the types', level="other", note='submit, OBU parsing, frame end, send/get/apply-grain/flush-side handle API and the counter primitives, from states with every handle full or empty; sub-parsers and the bit reader modelled')

prop("C02", "Copying or dropping a handle treats every buffer the handle carries",
 """Duplicating a picture, packet, or any other handle that carries reference-counted buffers takes one new
 reference for each buffer it carries, moving one leaves the source empty, and dropping one releases each of
 them, whatever combination of buffers is present. A picture handed to the application therefore keeps its
 pixels, frame header, sequence header, HDR metadata, T.35 payloads and user data alive until it is dropped.""",
 ["inputs", "histories"], "every handle type and every combination of present/absent attached buffers",
 "Tests never create a picture or packet handle with attachments.",
 ["src/picture.c", "src/data.c", "src/cdf.c", "src/lib.c", "include/dav1d/picture.h", "include/dav1d/data.h"],
 [("ref/move/unref functions per handle type", "src/picture.c, src/data.c, src/cdf.c")], technique="abstract interpretation (constant/symbolic-cell propagation over the IR, no execution) of every handle helper over all combinations of present buffers; buffers read off the handle's type", level="other", note='15 helpers, up to 2^7 combinations each')

prop("C03", "Closing the decoder releases everything it ever allocated",
 """Closing a decoder, at any point of its life including after a failed open, frees every heap block,
 buffer pool, mutex, condition variable and thread that opening it or decoding with it created, each through
 the deallocator that matches its allocator. Worker threads are told to stop and joined before anything they use is torn down.""",
 ["histories", "fault_sequences"], "every history of calls ending in close, and every failing step of open",
 "No test opens or closes a decoder.",
 ["src/lib.c", "src/decode.c", "src/mem.c", "src/picture.c", "src/refmvs.c"],
 [("teardown", "src/lib.c:close_internal"), ("per-frame buffers", "src/decode.c:dav1d_decode_frame_init")], technique='Typestate and ownership analysis by abstract evaluation of whole decoder lives, pool and reference histories (constant/symbolic-cell domain, all allocation-failure paths)', level="other", note='')

prop("C04", "Memory exhaustion is reported, never dereferenced",
 """The result of every allocation is tested before it is used; when an allocation fails the operation ends with an
 error (not success) and nothing is read or written through the missing block. A remembered buffer capacity never survives the
 failure of the buffer it describes, so a later frame cannot believe that a buffer exists when it does not.""",
 ["fault_sequences"], "every allocation site and every subset of allocations failing",
 "No test makes an allocation fail.",
 ["src/decode.c", "src/lib.c", "src/obu.c", "src/picture.c", "src/mem.c", "src/ref.c", "src/data.c", "src/cdf.c", "src/refmvs.c", "src/thread_task.c", "src/log.c"],
 [("null checks and capacity resets", "src/decode.c:dav1d_decode_frame_init")], technique='Path-sensitive allocation-failure and null-state analysis with abstract evaluation of the buffer set-up sequences', level="other", note='')

prop("C05", "State shared between decoder threads is only touched under its lock",
 """Every access to the mutable scheduling and pool state that several threads share (task queues, first/current frame
 indices, delayed film-grain job, worker wake-up and shutdown flags, buffer-pool free lists) happens while the mutex
 that protects it is held, or before the other threads exist / after they are gone; state that is shared without a mutex is only
 accessed by atomic operations.""",
 ["schedules"], "every interleaving of the application thread and all workers",
 "No test starts a worker thread.",
 ["src/thread_task.c", "src/lib.c", "src/decode.c", "src/obu.c", "src/mem.c", "src/internal.h"],
 [("task-thread mutex, pending-task mutex, pool mutex", "src/internal.h, src/mem.h")], technique='lockset dataflow (guard table, must-locksets through the call graph) over LLVM IR; atomicity lint', level="other", note='Every access to 18 guarded fields and 19 atomic fields; guard table stated in the rule.')

prop("C06", "Mutexes are balanced and acquired in one global order",
 """Every mutex a thread takes is released by the same thread exactly once on every path (loops, early exits and error exits included),
 is never taken again while held, and is never released when not held. Whenever two mutexes are held together they were
 acquired in one fixed global order, and no blocking wait on a condition happens while a second mutex is held.""",
 ["schedules", "inputs"], "every path of every library function and every pair of nested acquisitions",
 "No test starts a worker thread or takes an error path.",
 ["src/thread_task.c", "src/lib.c", "src/decode.c", "src/obu.c", "src/mem.c"],
 [("lock/unlock pairs", "src/thread_task.c")], technique='path-sensitive lockset typestate over LLVM IR; lock-order graph through the call graph', level="other", note='All functions with pthread mutex operations, every path; mutexes identified by field.')

prop("C07", "Condition waits re-test their predicate and wake-ups are never lost",
 """Every wait on a condition variable is made with its mutex held and inside a loop that re-tests the awaited condition after waking,
 always with the same mutex for the same condition. Every thread that makes an awaited condition true (frame finished, workers flushed,
 grain job done, shutdown requested, work queued) wakes the waiters afterwards, on every path, so no waiter sleeps forever.""",
 ["schedules"], "every interleaving of waiters and signallers, spurious wake-ups included",
 "No test starts a worker thread.",
 ["src/thread_task.c", "src/lib.c", "src/decode.c", "src/obu.c"],
 [("condition variables", "src/internal.h: TaskThreadData, FrameContext.task_thread")], technique='wait-loop dominance/slice analysis and path-sensitive wake-up typestate over LLVM IR', level="other", note="Events and their condition variables are named in the rule's table; whether a predicate is the right one is not decided.")

prop("C08", "Decoding progress is published only after the work, and always published",
 """A worker makes a row of a frame visible to other threads (as decoded, filtered or complete) only after the work for that row has
 finished, through a releasing atomic store that the consumer reads with an acquiring load. On failure the
 failed frame and its remaining rows are still marked, with an error value, and the frame's completion is always reported, so
 that frames which depend on it and the application never wait forever nor take a broken frame for a good one.""",
 ["schedules", "inputs"], "every interleaving of frame/tile workers and every failing row or tile",
 "No test decodes a frame with threads.",
 ["src/thread_task.c", "src/decode.c", "src/lib.c", "src/obu.c", "src/picture.c"],
 [("progress counters and task error flag", "src/thread_task.c, src/internal.h")], technique='abstract evaluation of the work scheduler under enumerated worker interleavings (constant propagation on the compiler IR with opaque decoding steps): happens-before obligations on every publication of progress; memory-order lint of progress loads and stores', level="other", note='Two and three workers, switched at opaque steps, lock acquisitions and (two workers) atomic accesses; frame geometries are enumerated, motion vectors appear as lowest referenced rows.')

prop("C09", "Decoder instances share no mutable state",
 """Any number of decoder instances in one process are independent: after one-time initialisation no library code
 writes any process-global or function-static variable, and one-time initialisation runs exactly once however many threads open
 decoders concurrently.""",
 ["schedules", "histories"], "every interleaving of calls on different decoder instances",
 "Tests never hold two decoder instances.",
 ["src/lib.c", "src/cpu.c", "src/wedge.c", "src/log.c", "src/qm.c", "src/intra_edge.c", "src/scan.c"],
 [("pthread_once initialisation", "src/lib.c:dav1d_open")], technique='whole-program points-to and write-effect analysis over LLVM IR (mutable globals), call-graph once-dominance', level="other", note='All functions of the library; assembly assumed to write only through pointer arguments.')

prop("C10", "Application picture callbacks run on the caller's thread and are paired",
 """The picture-allocation callback runs only inside calls the application itself makes, never on a worker thread; every picture it
 returns successfully is handed back exactly once to the release callback of the same allocator with the same cookie and
 allocator data. When the allocation callback fails, its result is not used and the release callback is not called for it.""",
 ["schedules", "fault_sequences"], "every call graph path from a worker thread, every allocator outcome",
 "No test installs an allocator or decodes.",
 ["src/picture.c", "src/lib.c", "src/thread_task.c", "src/decode.c", "src/fg_apply_tmpl.c"],
 [("picture_alloc and its free callback", "src/picture.c")], technique='call-graph reachability from thread entries through function-pointer slots; path-sensitive typestate of alloc/release pairing over LLVM IR', level="other", note='All call sites of both callback slots, every path.')

prop("C11", "No header value, however malformed, indexes outside a fixed-size table",
 """While parsing sequence, frame, tile and metadata headers, every index into a fixed-size array (loop filter, segmentation, film-grain
 points and coefficients, reference slots, tile boundaries, operating points, CDEF strengths, warp parameters, ...) stays within
 that array for every possible bitstream, because each decoded value is bounded by its bit width or explicitly checked
 before use.""",
 ["inputs"], "every byte sequence presented as an OBU",
 "No test parses a header.",
 ["src/obu.c", "src/getbits.c", "include/dav1d/headers.h"],
 [("range checks in header parsing", "src/obu.c")], technique='interval abstract interpretation of the header parsers over the compiler IR (thresholds, path partitioning, header-field ranges closed under all writers); every index into an array of known extent is an obligation', level="other", note='parse_seq_hdr and parse_frame_hdr: every index; elsewhere: indexes that are themselves header fields. Indexes computed from decoded symbols are not covered.')

prop("C12", "Bitstream readers never read past the end of the packet",
 """Every byte the header bit reader, the symbol decoder and the OBU/tile splitters fetch from a packet is fetched only after a check, on that path, that the
 read position is before the end of that packet or of the current OBU/tile; sizes decoded from the stream are compared with
 the bytes remaining before they are used to advance or to delimit a reader. A reader that runs out of data enters an error
 state instead of reading on.""",
 ["inputs"], "every packet length and content, including truncated ones",
 "No test feeds the bit reader or symbol decoder truncated data.",
 ["src/getbits.c", "src/getbits.h", "src/msac.c", "src/obu.c", "src/decode.c"],
 [("end-of-buffer tests", "src/getbits.c, src/msac.c:ctx_refill, src/obu.c")], technique='Abstract evaluation of the bit reader from every state, of OBU parsing, tile splitting and the symbol decoder around every length (bounds and closed-state analysis)', level="other", note='')

prop("C13", "A missing or incompatible reference frame is an error, not a crash",
 """When a frame names a reference slot, an existing frame to show, or a primary reference for its state, the decoder first establishes that the slot
 holds a frame (and, for inter prediction, that its size, chroma layout and bit depth are compatible) and otherwise rejects the
 frame with an error. No decoding path uses the contents of a slot that may be empty. Motion field and segmentation map of a reference are
taken over only when it has them and its coded dimensions equal those of the frame.""",
 ["inputs", "histories"], "every stream, including ones starting mid-sequence, after a flush, or after failed frames",
 "No test decodes a frame.",
 ["src/obu.c", "src/decode.c"],
 [("slot checks", "src/obu.c:parse_frame_hdr, dav1d_parse_obus; src/decode.c:dav1d_submit_frame")], technique='path-sensitive nullness analysis of every slot-header dereference, and abstract evaluation of frame submission and re-show with each reference empty, header-only or incompatible (constant and symbolic-cell propagation on the compiler IR)', level="other", note='The prediction limits (2x, 1/16) are decided at the boundary values for one frame size; memory safety of the reconstruction itself is not covered.')

prop("C14", "Every public entry point validates its arguments before acting",
 """Each public function that reports a result or releases a handle checks its pointer and range arguments (null handles, out-of-range settings, wrong sizes, pictures or packets in the wrong
 state) before it has any effect, and reports a violation with a negative error code (or a harmless no-op for
 void functions) without dereferencing the bad argument. Every documented range of a decoder setting is enforced when a decoder is opened.""",
 ["inputs"], "every combination of arguments and settings",
 "The header tests only compile the API; no public function is called with bad arguments.",
 ["src/lib.c", "src/data.c", "src/picture.c", "src/cpu.c", "include/dav1d/dav1d.h", "include/dav1d/data.h"],
 [("validate_input macros", "src/lib.c, src/data.c")], technique='Abstract evaluation of every public entry point over null, out-of-range and boundary arguments (effect and null-access analysis)', level="other", note='')

prop("C15", "No error is dropped on its way to the application",
 """Whenever an internal operation of the decoder fails, its error result is tested by the caller and either propagated, recorded for the application to
 receive, or converted to another error; it is never ignored, overwritten by success, or turned into a non-negative result.
 Every call that reports failure to the application does so with a negative error code.""",
 ["inputs", "fault_sequences"], "every failing internal call on every path to a public function",
 "No test provokes an error in the decoder.",
 ["src/lib.c", "src/obu.c", "src/decode.c", "src/picture.c", "src/data.c", "src/thread_task.c", "src/cdf.c", "src/refmvs.c"],
 [("return-code checks", "all of src/*.c")], technique='error-propagation typestate (path-sensitive dataflow over the IR, fallible functions inferred) + static partial evaluation of the decoder operations with every fallible step failing in turn', level="other", note='25 functions, 98 fallible calls, about 7800 failing paths; film-grain threads and DSP code cannot fail')

prop("C16", "A decoding error identifies the packet that caused it",
 """Whenever decoding a packet ends in an error, the metadata (timestamp, duration, offset, user data) of the failing packet is what the error-properties query
 then returns, on every error path and for synchronous as well as frame-threaded decoding, and it is returned only once.""",
 ["inputs", "fault_sequences"], "every error exit of packet parsing and frame decoding",
 "No test provokes a decoding error or queries its properties.",
 ["src/obu.c", "src/decode.c", "src/lib.c"],
 [("cached error properties", "src/internal.h: cached_error_props")], technique="static partial evaluation of submission, OBU parsing, drain and picture calls (constant and symbolic-cell propagation over the IR, every fallible step failing in turn); recorded properties compared with the failing packet's", level="other", note='about 6200 failing paths; one known finding (two failures in one submission)')

prop("C17", "A flush leaves nothing of the old stream behind",
 """After a flush the decoder behaves like a freshly opened one with the same settings: pending input, output and cached pictures, reference
 frames and their probability and motion state, headers, HDR and T.35 metadata, drain state, pending
 errors, and every frame in flight are discarded and released, and all workers have stopped working on them.""",
 ["histories", "schedules"], "every decoder history before the flush, with any number of frames in flight",
 "No test flushes a decoder.",
 ["src/lib.c", "src/thread_task.c", "src/internal.h"],
 [("flush", "src/lib.c:dav1d_flush")], technique='static partial evaluation of dav1d_flush/dav1d_decode_frame_exit (constant propagation over the IR with loop enumeration) + may-dataflow over the worker', level="other", note='settings of the evaluated worlds: 1-3 frame contexts, 1-3 workers')

prop("C18", "Every decoder setting the application makes is honoured",
 """Each field of the settings takes effect: it reaches the decoder instance unchanged and governs the behaviour it documents. In particular the frame-size limit is
 checked before any buffer for the frame is allocated, each in-loop filter runs only when enabled, strict mode enables
 the strict checks, film grain is applied only when requested, and hidden or unwanted frame types and layers are not output.""",
 ["configurations", "inputs"], "every combination of settings and every stream",
 "No test decodes with non-default settings.",
 ["src/lib.c", "src/obu.c", "src/decode.c", "src/recon_tmpl.c", "src/picture.c", "include/dav1d/dav1d.h"],
 [("settings copied at open and tested at use", "src/lib.c:dav1d_open")], technique='Abstract evaluation of opening, OBU parsing, filter stages and picture output for every value of each setting; call-graph query for filter entry points', level="other", note='')

prop("C19", "Symbol alphabets agree with the probability tables they are decoded with",
 """Every adaptive symbol is decoded with exactly the alphabet size for which its probability table was laid out, so that the adaptation
 counter is read and written in its own place and never outside the table. At the end of a frame every adapted table is
 carried over to the saved context, with its counter reset, and none is forgotten.""",
 ["inputs"], "every symbol decoding site in every block mode",
 "checkasm exercises the symbol decoder on synthetic tables only; no call site is run.",
 ["src/decode.c", "src/recon_tmpl.c", "src/cdf.c", "src/cdf.h", "src/msac.h"],
 [("alphabet argument at each call", "src/decode.c, src/recon_tmpl.c"), ("end-of-frame averaging", "src/cdf.c:dav1d_cdf_thread_update")], technique='table-layout inference from default initialisers + call-site evaluation + constant propagation with loop enumeration over the carry-over', level="other", note='')

prop("C20", "The constant tables are the ones the AV1 specification prescribes",
 """Every normative constant table (default probability tables, scan orders, quantizer and quantizer-matrix tables, interpolation and
 intra-edge filters, smooth-prediction weights, warp and division tables, Gaussian noise, self-guided and CDEF parameters, block and transform
 size tables) that the program stores as constant data holds exactly the values of the AV1 specification (tables the program derives from these at
start-up are outside this statement).""",
 ["inputs"], "every entry of every table, hence every stream that uses it",
 "checkasm compares assembly with C using the same tables, so a wrong entry is invisible; no stream is decoded.",
 ["src/cdf.c", "src/scan.c", "src/dequant_tables.c", "src/qm.c", "src/tables.c", "src/intra_edge.c"],
 [("constant data", "src/tables.c, src/cdf.c, src/qm.c, src/scan.c, src/dequant_tables.c")], technique='constant-data lint: compiled initialisers compared value by value with golden AV1 tables, plus algebraic identities', level="other", note='Tables computed at start-up (wedge masks, derived quantizer matrices, last-nonzero-column tables) are out of scope: their values exist only at run time.')

prop("C21", "Every DSP entry a decoder can call is set up, for every bit depth",
 """For each supported bit depth, opening and configuring a decoder stores a valid function in every entry of every DSP and reconstruction dispatch table
 that decoding can call, whatever CPU features are present or masked, and each entry receives the function built for
 that bit depth and for the role and block shape of the entry.""",
 ["configurations"], "every bit depth, CPU flag mask and table entry",
 "checkasm compares only the entries where assembly differs from C, and never the reconstruction table.",
 ["src/lib.c", "src/decode.c", "src/itx_tmpl.c", "src/mc_tmpl.c", "src/ipred_tmpl.c", "src/loopfilter_tmpl.c", "src/looprestoration_tmpl.c", "src/cdef_tmpl.c", "src/filmgrain_tmpl.c", "src/pal.c", "src/refmvs.c"],
 [("dsp init functions", "src/*_tmpl.c"), ("bit-depth function table", "src/decode.c:dav1d_submit_frame")], technique='symbolic evaluation of table-filling code over all CPU-flag paths (constant propagation), conditional constant dataflow of frame set-up per bit depth', level="other", note='x86-64 configuration; roles of entries from a committed role list')

prop("C22", "No instruction-set extension is used without its CPU flag",
 """An assembly kernel that needs an instruction-set extension is installed in a dispatch table only on paths where the CPU flags,
 after applying the application's mask, include that extension, so the library never executes an instruction the
 processor lacks or the application disabled.""",
 ["configurations"], "every CPU flag combination",
 "checkasm runs only on the flags of the build machine and installs kernels level by level on a CPU that has them all.",
 ["src/x86/*.h", "src/x86/cpu.c", "src/cpu.c", "src/cpu.h"],
 [("flag tests in per-architecture init", "src/x86/*.h")], technique='path-sensitive must-analysis of CPU-flag guards at every assembly-symbol installation; dataflow of CPUID feature bits', level="other", note='x86-64 only: the ARM, LoongArch, PowerPC and RISC-V trees are not part of this build.')

prop("C23", "Frames leave the decoder by one rule on every output path",
 """A frame becomes output exactly when it is visible (or hidden output was requested) and was decoded without error, and this rule, together with the handling of its error status,
 its event flags and the release of the internal picture, is the same whether the frame leaves by normal decoding order, by showing an
 existing frame, or by draining; each frame is output at most once and in order. When only the highest spatial layer is wanted, of each temporal unit exactly the highest decoded layer is output.
 New-sequence and operating-parameter events are raised with the first frame output after the change, once.""",
 ["histories", "schedules"], "every delivery path: submission with and without frame threads, show-existing-frame, drain",
 "No test outputs a frame.",
 ["src/lib.c", "src/obu.c", "src/decode.c"],
 [("delayed output ring", "src/lib.c:drain_picture, src/obu.c, src/decode.c:dav1d_submit_frame")], technique='abstract evaluation of the output paths over an enumerated decoder state (constant and symbolic-cell propagation on the compiler IR), outcomes held to one delivery rule', level="other", note='Quick and thorough are the same analysis; ring sizes 2 and 3, every combination of frame states, layers and flags.')

prop("C24", "A reference slot is always replaced as a whole",
 """Whenever a frame refreshes reference slots (decoded frame, shown key frame, or failed frame), each refreshed slot gets picture, probability
 tables, segmentation map and motion field together: all from the new frame, or, when the frame fails before that call returns, all emptied
 (or all left as they were, if it failed before anything was replaced). A sequence header for a new sequence empties every slot as a whole. No slot ever combines state of
 two frames.""",
 ["histories", "fault_sequences"], "every frame type, refresh mask and failure",
 "No test decodes a frame.",
 ["src/decode.c", "src/obu.c"],
 [("slot update loops", "src/decode.c:dav1d_submit_frame, src/obu.c:dav1d_parse_obus")], technique='static partial evaluation of dav1d_submit_frame and dav1d_parse_obus (constant and symbolic-cell propagation over the IR, paths split at unknown branches and failing steps); slot-by-slot comparison of buffer identities', level="other", note='7 frame configurations x 1-2 frame contexts, all header flag combinations that select buffers; bit reader and header parsers modelled')

prop("C25", "The command-line tool moves whole packets and pictures, or reports failure",
"""The tool's demuxers deliver the packets of an IVF, Annex B or Section 5 file whole, once and in order, each from its own bytes; a read or seek failure, a file that ends inside a packet or a size that does not fit what holds it
makes the demuxer fail, with everything it allocated released, and never delivers a packet. Its muxers write exactly the visible rows of every plane, or fail. Every packet read is sent to the decoder or
released, every picture it returns is written once, and a failure to open the input, the decoder or the output, to read the first packet, to decode for lack of resources, to write or to verify a checksum makes the tool exit with failure. A file
that ends early ends the stream.""",
["inputs", "fault_sequences"], "every container file content and every I/O failure",
"No test runs the command-line tool.",
["tools/dav1d.c", "tools/input/*.c", "tools/output/*.c"],
[("demuxers", "tools/input/ivf.c, annexb.c, section5.c, input.c"), ("muxers", "tools/output/*.c"), ("exit status", "tools/dav1d.c:main")], technique="abstract evaluation with injected failures (constant propagation on the compiler IR): result, release and coverage obligations on every path of the tool's demuxers, muxers and main function", level="other", note='I/O failures that stdio reports only at fclose are out of scope; file layouts are known contents plus the unknown-content mode.')

prop("C26", "A truncated or overlong header never takes effect",
 """A sequence header, frame header, tile group header or metadata unit whose parsing ran past the end of its OBU is rejected: on every path the reader's overrun state is
 tested after the last bit was read and before the parsed header is used by the decoder, and a rejected header
 leaves no half-parsed header installed. In strict mode a header followed by anything but a trailing bit and zeros is rejected in the same way.""",
 ["inputs"], "every truncation point of every OBU type",
 "No test parses an OBU.",
 ["src/obu.c", "src/getbits.c"],
 [("overrun checks", "src/obu.c")], technique="path-sensitive typestate of the bit reader's error state over the header parsers, and abstract evaluation of OBU parsing at every truncation point (constant and symbolic-cell propagation on the compiler IR)", level="other", note='The inner header parsers are summarised by whether they test the error state themselves; anchored on the static functions parse_seq_hdr and parse_frame_hdr.')

prop("C27", "Every decoding step runs once, in order, in every threading mode",
"""Every superblock of every tile is decoded once per pass, every filter stage the frame uses (deblocking columns and rows, CDEF, super-resolution, loop restoration) and film grain run once on every
superblock row, in that order, and stages the frame does not use do not run, with the same steps in single-threaded, tile-threaded and frame-threaded decoding; every worker task type has its handler. Restoration units are read at the
superblocks the specification names, motion vectors are saved and probability tables kept from the tile the header names. OBUs and metadata of every known type reach their
parser; unknown ones are skipped whole and change nothing.""",
["inputs", "schedules", "configurations"], "every combination of filters, tiling and threading mode; every OBU and metadata type",
"No test decodes a frame in either mode.",
["src/thread_task.c", "src/obu.c", "src/decode.c", "src/recon_tmpl.c"],
[("dispatch switches", "src/thread_task.c:dav1d_worker_task, src/obu.c:dav1d_parse_obus"), ("superblock walk", "src/decode.c:dav1d_decode_tile_sbrow")], technique='abstract evaluation of the work scheduler, the superblock walk and OBU dispatch (constant propagation on the compiler IR): step-count and order obligations on every path', level="other", note='Decoding of a superblock and the filters of a row are opaque steps; geometries and filter combinations are enumerated.')

prop("C33", "Every picture carries its own headers, metadata and packet properties",
 """Every picture the decoder outputs or keeps as a reference carries the sequence and frame header it was decoded with, its own size, chroma layout and bit depth, the packet
 properties (timestamp, duration, offset, size, user data) of the packet its tile data came from (or, when an existing frame is shown again, of the packet that shows it), and, if it is visible,
 the content-light and mastering metadata in force. The T.35 payloads received since the last visible frame go to exactly one picture, in order and with the bytes and country codes of the bitstream.
 Applying film grain or choosing a layer keeps all of them.""",
 ["inputs", "histories"], "every way a picture is created, shown or copied, with and without frame threads",
 "No test outputs a frame.",
 ["src/picture.c", "src/obu.c", "src/decode.c", "src/lib.c"],
 [("attachment", "src/picture.c:dav1d_thread_picture_alloc, dav1d_picture_copy_props, dav1d_picture_alloc_copy"), ("metadata parsing", "src/obu.c:dav1d_parse_obus")], technique='abstract evaluation of picture creation, re-show, metadata parsing and output (constant and symbolic-cell propagation on the compiler IR), each member compared with its source object', level="other", note='Values of metadata are followed from known packet bytes to the picture; pixel content is out of scope.')

prop("C28", "Decoded pictures match the AV1 specification bit for bit",
 """For every conforming stream the pixels of every output frame equal those of the AV1 reference decoder, film grain included.""",
 ["inputs"], "every conforming bitstream", "The suite contains no streams.",
 ["src/decode.c", "src/recon_tmpl.c"], [("reconstruction", "src/recon_tmpl.c")],
 na="""Numerical result of the whole reconstruction: no static rule bounds it. Its structural necessary conditions (tables, alphabets, dispatch, pipeline stages) are claimed separately as C19-C21, C27.""")

prop("C29", "Output does not depend on thread count, delay or CPU features",
 """The sequence of output pictures of a stream is the same for any number of threads, any frame delay and any CPU flag mask.""",
 ["schedules", "configurations"], "all thread counts, delays, CPU masks, interleavings", "No stream is decoded by the tests.",
 ["src/thread_task.c", "src/decode.c"], [("task dependencies", "src/thread_task.c")],
 na="""Equality of pixel values over schedules is a runtime quantity (dependency distances are computed from motion vectors); the lock, wake-up and publication clauses that are visible in the code are claimed as C05-C08, and dispatch as C21/C22.""")

prop("C30", "Pixel and coefficient buffers are never accessed out of bounds",
 """Reconstruction, loop filtering, motion compensation and film grain access only memory of the buffers allocated for the frame.""",
 ["inputs"], "every frame size, partitioning and motion vector", "checkasm uses fixed buffer geometries.",
 ["src/recon_tmpl.c", "src/*_tmpl.c", "src/x86/*.asm"], [("edge emulation and padding", "src/recon_tmpl.c")],
 na="""The bounds are products of frame geometry, block position and motion vectors and half of the code is assembly; no sound static bound is in reach. Header-level index bounds are claimed as C11, packet reads as C12.""")

prop("C31", "Decoding always makes progress and terminates",
 """Every public call returns after finitely many steps for every input, and the set of worker tasks can never reach a state in which all wait for each other.""",
 ["inputs", "schedules"], "every stream and schedule", "No stream is decoded by the tests.",
 ["src/thread_task.c", "src/lib.c"], [("task scheduling", "src/thread_task.c")],
 na="""Deadlock freedom of the task graph depends on runtime dependency distances and queue contents; a sound argument needs model checking, another family. The shape clauses (wake-ups, balanced locks, progress on failure) are claimed as C06-C08.""")

prop("C32", "Assembly kernels compute exactly what the C kernels compute",
 """Each assembly kernel returns bit-identical results to the C function it replaces on every valid input.""",
 ["inputs"], "every valid argument of every kernel", "checkasm samples random inputs only.",
 ["src/x86/*.asm"], [("kernels", "src/x86")],
 na="""Equality of numerical results of hand-written assembly is out of reach of dataflow or effect analyses of the source.""")
