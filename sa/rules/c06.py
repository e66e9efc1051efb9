"""C06: mutexes are balanced and ordered."""
from locks import *

def run(ctx):
    ctx.rule = ("Lockset typestate on every path of every function that locks, unlocks or waits (file-local helpers inlined, branch-correlated): a mutex is never "
                "locked while held, never released while not held, each function returns with the locks it was entered with (for functions only called with a lock held, that lock), "
                "waits hold exactly the mutex they wait with. Every pair (held, acquired), directly or through any callee, is an edge of the lock-order graph, which must be acyclic.")
    ctx.assumptions += ["mutex identity is the field that holds it (the task mutex is one per decoder instance); two instances of one class are never held together, which is checked",
                        "a decoder has at least one frame context and one task context (set when it is opened)",
                        "application callbacks do not re-enter the decoder"]
    R = analyse(ctx)
    ops = 0
    for n, r in R.rules.items():
        ops += r.ops
        for i, cv, mx in r.waits: ctx.sample("%s waits on %s with %s" % (i.where(), cv, mx))
    for x in R.reports: ctx.violation(x["where"], x["msg"], x["fname"], x["kind"], x["path"])
    edges = {}
    for n, r in R.rules.items():
        for e, i in r.edges.items(): edges.setdefault(e, (n, i))
    for n, e in R.entry.items():
        if n in R.opsf: continue
        for h in e:
            for c in R.acq[n]:
                if c != h: edges.setdefault((h, c), (n, None))
    nodes = sorted({x for e in edges for x in e})
    for comp in sccs(nodes, {n: [b for a, b in edges if a == n] for n in nodes}):
        if len(comp) > 1:
            for (a, b), (n, i) in sorted(edges.items(), key=str):
                if a in comp and b in comp:
                    ctx.violation(i.where() if i else n, "lock order cycle: %s is acquired while %s is held, and the other way round elsewhere" % (b, a), n, "order")
    ctx.setc("lock_operation_visits", ops); ctx.setc("lock_order_edges", ["%s -> %s" % e for e in sorted(edges)])
    ctx.setc("functions_entered_with_a_lock", {n: sorted(e) for n, e in R.entry.items() if e})
