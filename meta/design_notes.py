NOTES = {
"C08": "**Worlds.** `sa/sched.py` takes one or two abstract frames (25 geometries and filter combinations, fresh or reused frame contexts, reference frames that are ready, late or failed) through dav1d_task_frame_init, dav1d_worker_task and dav1d_decode_frame; decoding of a tile row, each filter of a row, CDF averaging and film grain are opaque steps that may fail. A second worker (quick) or two more (some geometries) take over at every opaque step, mutex acquisition and, for the core geometries, every atomic access, and run until nothing is left to do. `Judge` replays the events of each path against the obligations. **Limits.** Preemption of the second worker in the middle of its run is covered only by the three-worker schedules; weak-memory effects only through the memory-order rule. Dependency distances enter as the lowest referenced row, not as motion vectors.",
"C25": "**Limits.** What stdio reports only at fclose (a full disk met by the last buffer) is not tested by the tool: known upstream behaviour, left out of the statement. A demuxer does not tell the end of the file from a read error, so a truncated file ends the stream with exit status 0; the statement says so. The xxh3 muxer is included with the hash as an opaque sink. Seeking (used only by dav1dplay) is not covered.",
"C27": "**Limits.** As C08. Which filter is applied to which block, and everything inside decode_sb, is not judged here. The expected places of restoration units are computed from section 5.11.57 of the AV1 specification.",
"C01": "**Books.** A handle whose buffer was taken over by another holds nothing afterwards; entries beyond the counted tile groups hold nothing. **Limits.** Sub-parsers of headers and the bit reader are models (they own no buffers: checked by the call graph). A buffer held by application code is one more owner. Double release through pool reuse is C03.",
"C03": "**Recorded, not repaired (harmless on glibc, so not a violation of the statement as checked):** the failure path of dav1d_open destroys frame mutexes and condition variables that were never initialised or were already destroyed. With TRACK_HEAP_ALLOCATIONS (a debug option that is off) two arguments of dav1d_alloc_aligned_internal are swapped; that configuration is not analysed.",
"C04": "**Tile data.** The array of pending tile groups is followed through dav1d_parse_obus for every fill level: its recorded capacity never exceeds what was allocated. **Limits.** A buffer that is allocated too small by the same formula on the first run and on later runs is not seen (no oracle for the right size); what is compared is the buffer after a failed or differently sized predecessor with the buffer of a fresh decoder.",
"C05": "**False alarm corrected on the way:** `task_thread.init_done` and progress of a frame whose workers are parked are accessed without the lock by design; the guard table says so.",
"C11": "**Limits.** Everything inside parse_seq_hdr and parse_frame_hdr; outside them only indexes that are header fields themselves. Indexes computed from block positions are C30 (not applicable).",
"C12": "**Limits.** The assembly variants of the symbol decoder are not analysed. That a reader never reads *before* its own position but inside the packet is not judged. Lengths are enumerated around each boundary, the position arithmetic being piecewise linear between them.",
"C14": "**Limits.** Functions that return nothing and document no validation (dav1d_default_settings, dav1d_flush) may be given only valid pointers.",
"C15": "**Sign.** A positive error number is never stored as a result (the application tests for negative values). **Drain.** A delayed frame's failure that is met while draining is reported even if a held-back picture could be returned.",
"C13": "**Slots a frame does not name.** Empty or incompatible slots that the frame does not refer to change nothing: such frames are decoded.",
"C24": "**Hidden frames.** show_frame, showable_frame and refresh flags are enumerated together.",
"C33": "**Picture size.** The picture that is decoded into has the coded size, the one that is output the upscaled size, with and without frame threads.",
"C16": "**Known finding** (`known_findings.txt`): when a delayed frame turns out to have failed and the submission that collects this error fails too, there is one error code for two failures and the properties are those of the newer packet. A film-grain failure belongs to the picture and not to a packet and is not judged.",
"C18": "**Limits.** Which frames and layers are output is judged by C23.",
"C20": "**Oracle.** `sa/golden/tables.json` was extracted from the pinned tree and then cross-checked by identities independent of it (sums of filters, permutations, closed formulas, monotony), so a shared error in table and golden copy survives only where no identity applies. Tables computed at start-up are outside the statement.",
"C21": "**Limits.** x86-64 only (the build's architecture). Roles of entries are in `sa/golden/dsp.json`.",
"C22": "**Limits.** x86-64 only.",
"C23": "**Rings.** Sizes 2 and 3; the code treats the ring index modularly, which is itself judged (`next` wraps at the number of frame contexts).",
}

# planted bug -> checks that report it (default: that of its property)
CAUGHT = {}
