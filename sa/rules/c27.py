"""C27: every task, stage and OBU type is carried out once, in order, in both pipelines."""
from sched import *
import tilerow

def run(ctx):
    ctx.rule = ("(1) The scheduling code is evaluated by constant propagation for frames with every combination of filters, tilings and threading modes (see C08): on every path each superblock row of each tile is decoded once per pass, each "
                "filter stage the frame uses runs once per row and after the stages before it, none runs that the frame does not use, probability tables are saved once from the tile the header names, film grain is applied once per row, "
                "and abort() is not reached. (2) dav1d_decode_tile_sbrow is evaluated for a set of geometries with superblocks and restoration units opaque: every superblock of the row is decoded once, in order, with its own contexts; "
                "restoration units are read where the specification reads them, each into a place of its own; motion vectors are projected, saved and edges kept in every threading mode. (3) dav1d_parse_obus is evaluated for every OBU and "
                "metadata type: known types reach their parser, unknown ones are skipped whole without a change to the decoder.")
    ctx.assumptions += ["the opaque steps do what their names say for the row they are given"]
    P = ctx.prog(); L = Lay(P)
    explore(ctx, P, L, "C27")
    explore_grain(ctx, P, L, "C27")
    P2 = ctx.prog(noinline=["decode_sb", "read_restoration_info"])
    told = set()
    def tell(p, kind, i, msg):
        if (kind, msg) in told: return
        told.add((kind, msg)); ctx.violation(i.where(), msg, fn=i.fn.name, kind=kind)
    tilerow.explore_rows(ctx, P2, Lay(P2), tell)
    obus(ctx)

KNOWN = {1: "sequence header", 3: "frame header", 6: "frame", 7: "redundant frame header", 4: "tile group", 5: "metadata", 2: "temporal delimiter"}

NEW_UNIT = 4        # PICTURE_FLAG_NEW_TEMPORAL_UNIT
PENDING_FLAGS = 3   # a new sequence and new parameters wait for the next picture

def obus(ctx):
    P = obu_program(ctx); L = Lay(P)
    def changed(rw, ev):
        for e in ev:
            if e[0] in ("store", "rmw") and isinstance(e[2], tuple) and e[2][0] == "ptr" and e[2][1] == ("obj", "c"):
                v = rw.cells.get(("c", e[2][2]), 0)
                if e[0] == "rmw" or e[3] != v: yield e
    def case(c):
        typ, payload, length, nfc = c
        rw = obu_world(ctx, P, L, nfc, typ, payload=payload, length=length, hdr={"frame_type": 0, "tiling.cols": 1, "tiling.rows": 1, "width[1]": 64, "height": 64, "refresh_frame_flags": 0xff} if typ in (3, 6, 7) else None,
                       fhdr={"frame_type": 1, "tiling.cols": 2, "tiling.rows": 1, "tiling.log2_cols": 1} if typ == 4 else None, submit_fails=False)
        rw.set("c", "frame_flags", PENDING_FLAGS)
        w, f, res = parse(rw)
        name = KNOWN.get(typ, "reserved type %d" % typ) + (" of type %d" % payload[0] if typ == 5 else "")
        def bad(i, msg): ctx.violation(i.where() if i is not None else f.name, "%s [%s]" % (msg, name), fn=f.name, kind="obu", path=[name])
        i0 = f.blocks[0][0]
        if not res: bad(i0, "parsing an OBU ends in an assertion")
        ctx.count("obu_types"); ctx.count("obligations", len(res))
        seen = set()
        for ev, v, mem in res:
            seen |= {e[0] for e in ev}
            got = {e[0] for e in ev}
            if ("parse_seq" in got) != (typ == 1) and not rw.failed(ev): bad(i0, "the sequence header parser runs for another type of OBU" if typ != 1 else "a sequence header is not parsed")
            if "parse_frame" in got and typ not in (3, 6, 7): bad(i0, "the frame header parser runs for another type of OBU")
            if typ in (0,) + tuple(range(8, 16)) or typ == 5 and payload[0] not in (1, 2, 4):
                if v != rw.n_data: bad(i0, "an OBU that is not understood is not skipped as a whole")
                for e in changed(rw, ev): bad(e[1], "an OBU that is not understood changes the decoder (%s)" % L.name("Dav1dContext", e[2][2]))
            if typ == 2:
                flags = w.read(mem, rw.at("c", "frame_flags"), "i32")
                if v != rw.n_data or not isinstance(flags, int) or flags != PENDING_FLAGS | NEW_UNIT: bad(i0, "a temporal delimiter does not mark the next frame as the first of its temporal unit")
            if typ == 5 and payload[0] in (1, 2, 4) and not rw.failed(ev):
                m = {1: "content_light", 2: "mastering_display", 4: "itut_t35"}[payload[0]]
                if v == rw.n_data and w.read(mem, rw.at("c", m), "ptr") == O("held." + m): bad(i0, "metadata of a known type is accepted without being kept")
        if typ in (3, 6) and "parse_frame" not in seen: bad(i0, "a frame header is not parsed")
        if typ == 5 and payload[0] in (1, 2, 4) and not any(v == rw.n_data and w.read(mem, rw.at("c", {1: "content_light", 2: "mastering_display", 4: "itut_t35"}[payload[0]]), "ptr") != O("held." + {1: "content_light", 2: "mastering_display", 4: "itut_t35"}[payload[0]]) for ev, v, mem in res): bad(i0, "metadata of a known type is never kept")
        if typ in (4, 6):
            if not any(isinstance(w.read(mem, rw.at("c", "n_tile_data"), "i32"), int) and w.read(mem, rw.at("c", "n_tile_data"), "i32") > 0 or any(e[0] == "submit" for e in ev) for ev, v, mem in res): bad(i0, "tile data is never kept")
    js = []
    for nfc in (1, 2):
        for t in range(16):
            if t == 5: continue
            js.append((t, (None,) * 4, True, nfc))
            if t in (0, 8, 9, 15): js += [(t, (), True, nfc), (t, (None,) * 3, False, nfc)]
        for m in list(range(9)) + [31, 32, 100, 127]:
            js.append((5, (m,) + ((None,) * 4 + (0x80,) if m == 1 else (None,) * 24 + (0x80,) if m == 2 else (0xb5, 1, 2, 3, 0x80) if m == 4 else (None,) * 5), True, nfc))
    parallel(ctx, lambda: js, case)
