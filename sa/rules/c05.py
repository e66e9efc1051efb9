"""C05: shared scheduling and pool state is accessed under its lock or atomically."""
from locks import *

TTD = "TaskThreadData.lock"
PEND = "Dav1dFrameContext.task_thread.pending_tasks.lock"
POOL = "Dav1dMemPool.lock"
F = "Dav1dFrameContext.task_thread."
# field -> (mutex, kinds of access that need it, threads concerned)
GUARD = {
    "TaskThreadData.cur": (TTD, "rw", "all"),
    "TaskThreadData.delayed_fg.exec": (TTD, "rw", "all"),
    "TaskThreadData.delayed_fg.finished": (TTD, "rw", "all"),
    "TaskThreadData.delayed_fg.in": (TTD, "r", "all"),
    "TaskThreadData.delayed_fg.out": (TTD, "r", "all"),
    "TaskThreadData.delayed_fg.type": (TTD, "r", "all"),
    F + "task_head": (TTD, "rw", "all"),
    F + "task_tail": (TTD, "rw", "all"),
    F + "task_cur_prev": (TTD, "rw", "all"),
    F + "retval": (TTD, "rw", "worker"),
    "Dav1dFrameContext.n_tile_data": (TTD, "w", "worker"),
    "Dav1dTaskContext.task_thread.die": (TTD, "rw", "all"),
    "Dav1dTaskContext.task_thread.flushed": (TTD, "rw", "all"),
    F + "pending_tasks.head": (PEND, "rw", "all"),
    F + "pending_tasks.tail": (PEND, "rw", "all"),
    "Dav1dMemPool.buf": (POOL, "rw", "all"),
    "Dav1dMemPool.ref_cnt": (POOL, "rw", "all"),
    "Dav1dMemPool.end": (POOL, "rw", "all"),
}
ATOMIC = ["TaskThreadData.first", "TaskThreadData.reset_task_cur", "TaskThreadData.cond_signaled", "TaskThreadData.delayed_fg.progress[]",
          F + "init_done", F + "done[]", F + "error", F + "task_counter", F + "pending_tasks.merge",
          "Dav1dFrameContext.frame_thread.entropy_progress", "Dav1dFrameContext.frame_thread.deblock_progress",
          "Dav1dTileState.progress[]", "Dav1dRef.ref_cnt", "Dav1dContext.flush_mem"]
# cells reached through a pointer field
ATOMIC_PTR = ["Dav1dThreadPicture.progress", "CdfThreadContext.progress", "Dav1dContext.flush",
              "Dav1dFrameContext.frame_thread.frame_progress", "Dav1dFrameContext.frame_thread.copy_lpf_progress"]

def ptr_origin(f, v):
    """field a pointer was loaded from, looking through index arithmetic"""
    while isinstance(v, int) and v in f.insts:
        i = f.insts[v]
        if i.op == "getelementptr": v = i.a[0]
        elif i.op == "load": return addr_class(f, i.a[0])[0]
        else: break
    return None

def run(ctx):
    ctx.rule = ("For every load and store (in any function) of a field in the guard table, the set of mutexes held on every path to it, given the locks every caller holds, contains "
                "the mutex that guards the field; accesses that precede pthread_create in the creating function are exempt, and the pending list may also be reset under the task mutex after waiting "
                "for every worker to park. Every access to a field in the atomic table is an atomic instruction (initialisation of a fresh object excepted), and no atomic field is "
                "updated by a separate load and store.")
    ctx.assumptions += ["the guard table in sa/rules/c05.py states which mutex guards which field", "a decoder has at least one frame context and one task context", "delayed_fg.in/out/type are written before the job is published by exec=1 under the mutex"]
    R = analyse(ctx)
    P, E = R.P, R.E
    structs = set()
    n_acc = 0; n_fields = set()
    for n, f in sorted(R.fns.items()):
        creates = [i for i in f.calls() if i.callee == "pthread_create"]
        after = set()
        if creates:
            st = [(i.bb) for i in creates]; seen = set()
            work = []
            for i in creates:
                after |= {j.id for j in f.blocks[i.bb][i.idx:]}
                work += f.succ[i.bb]
            while work:
                b = work.pop()
                if b in seen: continue
                seen.add(b); work += f.succ[b]
            for b in seen: after |= {j.id for j in f.blocks[b]}
        if n in R.rules:
            acc = [(i, c, w, h) for i, c, w, h in R.rules[n].access.values()]
        else:
            acc = []
            for i in f.all_insts():
                if i.op == "load": a = i.a[0]; w = False
                elif i.op == "store": a = i.a[1]; w = True
                elif i.op in ("atomicrmw", "cmpxchg"): a = i.a[0]; w = True
                else: continue
                c, b = addr_class(f, a)
                if c: acc.append((i, c, w, R.entry[n]))
        inworker = n in R.worker
        for i, c, w, h in acc:
            g = GUARD.get(c)
            if g:
                lock, kinds, who = g
                if ("w" if w else "r") not in kinds: continue
                if who == "worker":
                    if not inworker: continue
                    h = h | R.wentry[n]
                n_acc += 1; n_fields.add(c)
                if lock in h: continue
                if creates and i.id not in after: continue
                if c in (F + "pending_tasks.head", F + "pending_tasks.tail") and TTD in h and parked(f, i): continue
                if fresh(f, i): continue
                ctx.violation(i.where(), "%s of %s without holding %s" % ("write" if w else "read", c, lock), f.name, "guard")
    ctx.setc("guarded_accesses", n_acc); ctx.setc("guarded_fields", len(n_fields))
    for c in GUARD:
        if c not in n_fields: ctx.notes.append("field %s of the guard table is not accessed" % c)
    ctx.require(len(n_fields) >= len(GUARD) // 2, "most guarded fields are gone: the guard table no longer describes this tree")
    # --- atomics
    at = 0; seen = set()
    for n, f in sorted(R.fns.items()):
        rd = {}
        for i in f.all_insts():
            if i.op == "load": a = i.a[0]
            elif i.op == "store": a = i.a[1]
            elif i.op in ("atomicrmw", "cmpxchg"): a = i.a[0]
            else: continue
            c, b = addr_class(f, a)
            key = c if c in ATOMIC else None
            if key is None:
                o = ptr_origin(f, a)
                if o in ATOMIC_PTR and (c is None or c.startswith("*")): key = "*" + o
            if key is None: continue
            at += 1; seen.add(key)
            # the only plain access an _Atomic object allows is atomic_init; a field that stopped being atomic shows plain loads
            if i.op == "load" and not i.x[0]:
                ctx.violation(i.where(), "plain (non-atomic) %s of %s, which is shared between threads without a mutex" % (i.op, key), f.name, "atomic")
            if i.op == "store":
                d = depends(f, i.a[0], key)
                if d: ctx.violation(i.where(), "%s is updated by a separate load and store instead of one atomic operation" % key, f.name, "rmw")
    ctx.setc("atomic_accesses", at); ctx.setc("atomic_fields", len(seen))
    ctx.require(len(seen) >= (len(ATOMIC) + len(ATOMIC_PTR)) // 2, "most atomic fields are gone: the table no longer describes this tree")

def fresh(f, i):
    """the object was allocated in this function"""
    a = i.a[0] if i.op == "load" else i.a[1]
    rs = roots(f, a)
    return bool(rs) and all(r[0] == "i" and f.insts[r[1]].op == "call" and (f.insts[r[1]].callee or "").endswith(("alloc", "alloc_aligned", "memalign")) for r in rs)

def parked(f, i):
    """dominated by a test of a worker's parked flag"""
    idom = f.idom(); b = i.bb
    ld = [j for j in f.all_insts() if j.op == "load" and addr_class(f, j.a[0])[0] == "Dav1dTaskContext.task_thread.flushed"]
    # every path from entry to i passes the loop that tests the flag: its header dominates i
    for j in ld:
        for h, body in f.loops().items():
            if j.bb in body and f.dominates(h, b) and b not in body: return True
    return False

def depends(f, v, key, depth=0):
    """v is computed from a plain read of the same atomic field"""
    if not isinstance(v, int) or v not in f.insts or depth > 6: return False
    i = f.insts[v]
    if i.op == "load":
        c, b = addr_class(f, i.a[0])
        if c == key: return True
        if key.startswith("*"):
            return (c is None or c.startswith("*")) and ptr_origin(f, i.a[0]) == key[1:]
        return False
    if i.op in ("add", "sub", "and", "or", "xor", "zext", "sext", "trunc"):
        return any(depends(f, w, key, depth + 1) for w in i.a if isinstance(w, int))
    return False
