"""C08: decoding progress is published only after the work, and always published."""
from sched import *
from scan import addr_class
from rules.c05 import ATOMIC, ATOMIC_PTR, ptr_origin

def run(ctx):
    ctx.rule = ("The scheduling code (dav1d_task_frame_init, dav1d_worker_task, dav1d_task_create_tile_sbrow, dav1d_decode_frame and what they call) is evaluated by constant propagation on abstract decoders with decoding "
                "of a tile row and each filter of a superblock row as opaque steps that may fail, and with a second (and third) worker taking over at every opaque step, mutex acquisition or atomic access. On every path, "
                "each publication of progress (frame, tile, deblocking, parsing and copy progress, probability tables, done flags) covers only work finished by then and is a releasing store; each step starts only when what it "
                "reads is finished (rows above, symbols, tiles of the row, the rows of reference frames it uses, probability tables); a failed frame is marked failed everywhere and its end is reported exactly once; the calling thread "
                "never waits with nothing left to do. Loads of progress are acquiring. dav1d_submit_frame gives the frame the number of tasks and the geometry that the scheduler counts on.")
    ctx.assumptions += ["the opaque steps do what their names say for the row they are given", "mutexes and condition variables behave as POSIX specifies", "sequential consistency between the evaluated workers; the ordering of each access is checked by itself"]
    P = ctx.prog(); L = Lay(P)
    explore(ctx, P, L, "C08")
    explore_grain(ctx, P, L, "C08")
    submit(ctx, P, L)
    orders(ctx)

FIELDS = ["Dav1dFrameContext.task_thread.init_done", "Dav1dFrameContext.task_thread.done[]", "Dav1dFrameContext.task_thread.error", "Dav1dFrameContext.task_thread.task_counter",
          "Dav1dFrameContext.frame_thread.entropy_progress", "Dav1dFrameContext.frame_thread.deblock_progress", "Dav1dTileState.progress[]", "TaskThreadData.delayed_fg.progress[]"]
POINTERS = ["Dav1dThreadPicture.progress", "CdfThreadContext.progress", "Dav1dFrameContext.frame_thread.frame_progress", "Dav1dFrameContext.frame_thread.copy_lpf_progress"]

def orders(ctx):
    """every load of published progress by a worker acquires (the calling thread looks at frames that have ended, under the scheduler's mutex)"""
    P = ctx.prog()
    n = 0
    reach, todo = set(), ["dav1d_worker_task"]
    while todo:
        x = todo.pop()
        f = P.fn(x) if x in P.raw else None
        if f is None or x in reach: continue
        reach.add(x); todo += [i.callee for i in f.calls() if i.callee]
    for name in sorted(reach):
        f = P.fn(name)
        for i in f.all_insts():
            if i.op not in ("load", "atomicrmw"): continue
            c = addr_class(f, i.a[0])[0]
            if c not in FIELDS and not (ptr_origin(f, i.a[0]) in POINTERS and i.ty == "i32"): continue
            o = i.x[0] if i.x else 0
            n += 1
            if i.op == "load" and o not in ACQUIRE: ctx.violation(i.where(), "progress (%s) is read by a load that does not acquire what was published" % (c or ptr_origin(f, i.a[0])), fn=name, kind="order")
    ctx.require(n > 0, "no progress is read anywhere")
    ctx.count("progress_reads", n); ctx.count("obligations", n)

def submit(ctx, P, L):
    """the counts and sizes a frame is scheduled with"""
    def case(c):
        nfc, cols, rows, w_, h_, sr, sb128 = c
        snap = []
        def take(rw, w, i, av, mem, ev): snap.append((i, {p: rw.get(w, mem, "fc", p) for p in WANT})); return 0
        rw = frame_world(ctx, P, L, nfc, 0, 0xff, fail=False, models={"dav1d_decode_frame": take, "dav1d_task_frame_init": take})
        for p, v in (("tiling.cols", cols), ("tiling.rows", rows), ("width[0]", w_), ("width[1]", sr), ("height", h_), ("segmentation.enabled", 0), ("allow_intrabc", 0), ("refresh_context", 1)): rw.set("hdr", p, v)
        rw.set("seq", "sb128", sb128)
        w, f, res = rw.run("dav1d_submit_frame", {0: O("c")})
        bw, bh = (w_ + 7 >> 3) << 1, (h_ + 7 >> 3) << 1
        st = 32 if sb128 else 16; sbh = (bh + st - 1) // st
        want = dict(zip(WANT, ((cols * rows + sbh) * (2 if nfc > 1 else 1), 0, sbh, st, 4 + sb128, bw, bh, (w_ + 3) // 4, (h_ + 3) // 4, (bw + 31) // 32, (bh + 31) // 32, (bw + 31) & ~31)))
        ctx.count("submissions")
        if not snap: ctx.violation(f.name, "a frame is not handed to the decoder", fn=f.name, kind="submit")
        for i, got in snap:
            for p in WANT:
                ctx.count("obligations")
                if got[p] != want[p]: ctx.violation(i.where(), "a frame is started with %s = %s instead of %s [%dx%d, %dx%d tiles, %d frame contexts]" % (p, got[p], want[p], w_, h_, cols, rows, nfc), fn=f.name, kind="submit", path=[p])
    js = [(nfc, c, r, w, h, sr, s) for nfc in (1, 2) for s in (0, 1) for c, r, w, h, sr in ((1, 1, 64, 64, 64), (2, 3, 500, 300, 500), (1, 1, 8, 2200, 16), (4, 1, 1000, 130, 1600), (1, 2, 129, 257, 129))]
    parallel(ctx, lambda: js, case)

WANT = ["task_thread.task_counter", "task_thread.error", "sbh", "sb_step", "sb_shift", "bw", "bh", "w4", "h4", "sb128w", "sb128h", "b4_stride"]
