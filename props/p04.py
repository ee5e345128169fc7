"""P04: PBF output validity and fidelity. Random object streams written by the library, files decoded by an independent strict decoder."""
import os
import vp, model, pbf, cases, server
from p03 import write_job, DEFGEN

TECHNIQUE = "runtime monitoring: ASan+UBSan build, output bytes checked by an independent strict PBF decoder against the model"
NOTE = ("Random object streams and writer settings through the real writer, plus streams aimed at the limits (8000 objects, more than "
        "65535 strings, more than 32 MB in a block); every output byte is decoded by lib/pbf.py. Sampling, not exhaustive.")

def compare(ctx, what, data, ftype, h, gen, objs, o, files):
    files = dict(files)
    if len(data) < 60 * 10**6: files["output.osm.pbf"] = data
    try: d = pbf.decode(data)
    except Exception as e:
        ctx.violation("undecodable:" + type(e).__name__, "%s: output cannot be decoded: %r" % (what, e), files); return False
    V = lambda k, m: (ctx.violation(k, "%s: %s" % (what, m), files), False)[1]
    if d.problems:
        import re
        return V("invalid:" + re.sub(r"\d+|\[.*", "N", d.problems[0]), d.problems[:4])
    if d.features is None: return V("no-header", "no header block")
    want = ["OsmSchema-V0.6"] + (["DenseNodes"] if o["dense"] else []) + (["HistoricalInformation"] if ftype == "osh" else [])
    if sorted(d.features) != sorted(want): return V("features", "required features %s instead of %s" % (d.features, want))
    if d.generator != gen: return V("generator", "writing program %r instead of %r" % (d.generator, gen))
    bb = tuple(v * 100 for v in h.bounds) if h.bounds else None
    if d.bbox != bb: return V("bbox", "bbox %s instead of %s" % (d.bbox, bb))
    for b in d.blocks:
        ctx.count("blocks")
        if b["count"] > 8000: return V("block-count", "%d objects in a block" % b["count"])
        if b["count"] == 0: return V("block-empty", "empty block")
        if len(set(b["stringlist"][1:])) != len(b["stringlist"]) - 1: return V("strings-dup", "duplicate entries in string table")
        u = b["uses"][1:]
        if any(x < y for x, y in zip(u, u[1:])): return V("strings-order", "string table not sorted by how often the strings are used: %s..." % u[:20])
        for kinds, c in b["groups"]:
            if 2 in kinds and not o["dense"]: return V("dense", "dense nodes although switched off")
            if 1 in kinds and o["dense"]: return V("dense", "plain nodes although dense format is on")
    for typ, ds, rs, z in d.blobs:
        if z != bool(o["comp"]): return V("compression", "blob compressed=%s" % z)
    # which order: exactly the input order when each type is one run, else within each type
    runs = [t for i, t in enumerate(x.t for x in objs) if i == 0 or objs[i - 1].t != t]
    if len(runs) == len(set(runs)): pairs = [(objs, d.objs)]
    else: pairs = [([x for x in objs if x.t == t], [x for x in d.objs if x.t == t]) for t in "nwr"]
    for want, got in pairs:
        if len(want) != len(got): return V("count", "%d objects instead of %d" % (len(got), len(want)))
        a = []; b = []
        for w, g in zip(want, got):
            e = w.copy(); e.endtime = 0; e.refpos = None
            e.visible = True; evis = None
            if not o["meta"]:
                e.version = e.changeset = e.ts = 0; e.uid = -1; e.user = ""
                if g.endtime == "info": return V("metadata", "metadata written although switched off")
            else:
                if g.endtime != "info": return V("metadata", "metadata missing on %s" % g.line())
                if ftype != "osm": evis = w.visible; e.visible = w.visible
                if abs(g.ts - e.ts) * 2000 <= o["dgran"]: g.ts = e.ts
            if g.visible_written != evis: return V("visible", "visible=%r instead of %r on %s" % (g.visible_written, evis, g.line()))
            g.endtime = 0; e.visible_written = None
            if e.t == "n":
                for at in ("x", "y"):
                    n = getattr(g, at)
                    if abs(n - getattr(e, at) * 100) * 2 <= o["gran"]: setattr(g, at, getattr(e, at))
            a.append(e.line()); b.append(g.line())
        df = model.diff(a, b)
        if df:
            files["expected.txt"] = "\n".join(a); files["got.txt"] = "\n".join(b)
            ctx.violation(model.diff_key(a, b), "%s: %s" % (what, df), files); return False
    return True

DEF = {"dense": 1, "comp": 1, "meta": 1, "gran": 100, "dgran": 1000}

def special(ctx, rng, kind, ftype="osm"):
    """Streams aimed at limits; returns objects."""
    g = model.Gen(rng, undef_pos=False, maxtags=2, maxrefs=3)
    T = kind.split("/")[0]
    def mk(t, i):
        o = model.Obj(t, i + 1); o.uid = rng.randint(1, 2**31 - 1); o.user = "u%d" % rng.randint(0, 99); o.version = rng.randint(1, 1000)
        o.ts = 1000000000 + rng.randint(0, 10**9); o.changeset = rng.randint(1, 2**31 - 1)
        if ftype != "osm": o.visible = rng.random() < .5
        if t == "n": o.x = rng.randint(-1800000000, 1800000000); o.y = rng.randint(-900000000, 900000000)
        return o
    if "count" in kind:     # block boundaries
        n = rng.choice([7999, 8000, 8001, 15999, 16000, 16001])
        objs = [mk("n" if T == "mixed" else T, i) for i in range(n)]
        if T == "mixed":        # the second and third block hold all types
            objs = objs[:-6] + [mk("nwr"[i // 3], i) for i in range(9)] + [mk(rng.choice("nwr"), i) for i in range(8000)]
        for o in objs:
            if o.t == "w": o.refs = [rng.randint(-2**40, 2**40) for j in range(rng.randint(0, 3))]
            if o.t == "r": o.members = [(rng.choice("nwr"), rng.randint(-2**40, 2**40), rng.choice(["", "outer", "x%d" % o.id])) for j in range(rng.randint(0, 3))]
            if rng.random() < .3: o.tags = [("k%d" % rng.randint(0, 50), "v%d" % rng.randint(0, 5000))]
        return objs
    if "strings" in kind:   # many distinct strings in one block
        per = 10
        n = rng.choice([6600, 7000, 8000])
        objs = []
        for i in range(n):
            o = mk("nwr"[i % 3] if T == "mixed" else T, i)
            o.user = "user%d" % i
            if o.t == "r": o.members = [("n", i, "role%d_%d" % (i, j)) for j in range(3)]
            o.tags = [("k%d" % (j + per * i), "v%d" % (j + per * i)) for j in range(per)]
            objs.append(o)
        objs.sort(key=lambda o: "nwr".index(o.t))
        return objs
    if "size" in kind:      # more than fits into one blob
        objs = []
        for i in range(2000 if "refs" in kind else rng.choice([700, 2000])):
            o = mk(T if T != "mixed" else "nwr"[i * 3 // 2000] , i)
            big = 60000
            if "refs" in kind and o.t == "w": o.refs = [rng.randint(1, 2**60) * (-1)**j for j in range(2000)]
            elif "roles" in kind and o.t == "r": o.members = [("n", j, "%d-%d-" % (i, j) + "r" * 250) for j in range(200)]
            else: o.tags = [("key%d" % i, "%d-" % i + "x" * big)]
            objs.append(o)
        return objs
    if "jump" in kind:      # small objects, then single objects of some MB
        objs = [mk("n", i) for i in range(400)]
        for i, o in enumerate(objs): o.tags = [("key%d" % i, "%d-" % i + "x" * 74000)]
        w = mk("r", 1); w.members = [("w", rng.randint(1, 2**60) * (-1)**j, "") for j in range(300000)]
        return objs + [w, mk("r", 2)]

def check(ctx):
    exe = vp.build("harness/io.cpp")
    rng = ctx.rng
    ctx.rule = ("random object streams x file type x writer settings (dense, compression, metadata, granularities, generator, bounds), "
                "plus streams at the limits: 7999..16001 objects, more than 65535 distinct strings in 8000 objects, blocks over 32 MB "
                "by tag text, node references or roles; strict independent decoding. Non-trivial: at least one object.")
    ctx.assumptions = ["an undefined position is encoded as the coordinate value 214.7483647"]
    N = ctx.n(330, 6000)
    todo = []
    def add(name, ftype, h, objs, gen, o, via_factory):
        if via_factory: opts = None
        else: opts = ",".join("%s=%d" % (k, o[k]) for k in DEF) + ("" if gen is None else ",gen=" + model.esc(gen).replace(",", "%2C"))
        job, p, m = write_job(ctx, name, ftype, "pbf", h, objs, gen, ftype == "osc" or rng.random() < .2, opts)
        todo.append((job, p, m, ftype, h, DEFGEN if gen is None else gen, objs, o))
        ctx.case(name if len(objs) > 5000 else open(m, "rb").read() + repr((ftype, o)).encode(), bool(objs), {"type": ftype, "opts": opts or "factory", "objects": len(objs)})
        ctx.count("objects", len(objs))
    for i in range(N):
        ftype = rng.choice(["osm", "osm", "osh", "osc"])
        g = model.Gen(rng, history=ftype != "osm", meta=rng.choice([0, 0.5, 1, 1]), undef_pos=rng.random() < .2, tsmax=253402300799)
        r = rng.random()
        if r < 0.05: objs = []
        elif r < 0.85: objs = g.objs(rng.randint(1, 30), rng.choice(["sorted", "sorted", "mixed", "reverse", "n", "w", "r"]))
        else: objs = g.objs(rng.randint(30, 300), rng.choice(["sorted", "mixed"]))
        if i in (11, 12, 13): objs = [g.obj("n"), g.huge("nwr"[i - 11])]; ctx.count("objects with more than 65536 parts")
        for x in objs:
            if rng.random() < .03: x.changeset = rng.choice([-1, -2**31, -rng.randint(1, 10**6)])
            if rng.random() < .02: x.ts = -rng.choice([1, 86400, rng.randint(1, 2**31)])
        h = cases.rand_header(rng, ftype, gen=False)
        gen = None if rng.random() < 0.4 else model.text(rng, 80)
        o = dict(DEF); fac = rng.random() < 0.3
        if not fac:
            o["dense"] = rng.randint(0, 1); o["comp"] = rng.randint(0, 1); o["meta"] = int(rng.random() < 0.8)
            if rng.random() < 0.5: o["gran"] = rng.choice([100, 1, 10, 50, 20, 1000, 10000, 7, 25000])
            if rng.random() < 0.5: o["dgran"] = rng.choice([1000, 1, 100, 10, 500, 2000, 60000])
            ctx.count("settings dense=%d comp=%d meta=%d" % (o["dense"], o["comp"], o["meta"]))
        add("c%d.%s.pbf" % (i, ftype), ftype, h, objs, gen, o, fac)
    kinds = ["n/count", "n/count/plain", "w/count", "r/count", "mixed/count/dense", "mixed/count/plain", "n/strings", "mixed/strings", "r/strings", "n/size", "w/size/refs", "r/size/roles", "w/size", "n/jump"]
    for rep in range(ctx.n(1, 6)):
        for k in kinds:
            o = dict(DEF)
            ftype = rng.choice(["osm", "osh"]) if "count" in k else "osm"
            if "plain" in k: o["dense"] = 0
            elif rep or k in ("n/strings", "w/size/refs"): o["dense"] = rng.randint(0, 1); o["comp"] = rng.randint(0, 1)
            add("s%d-%s.%s.pbf" % (rep, k.replace("/", "_"), ftype), ftype, cases.rand_header(rng, ftype, gen=False), special(ctx, rng, k, ftype), None, o, False)
            ctx.count("limit streams " + k)
    # bounding boxes: every coordinate must survive
    for i in range(ctx.n(40, 400)):
        h = model.Header("", None, False)
        while not h.bounds: h = cases.rand_header(rng, "osm", gen=False)
        add("bb%d.osm.pbf" % i, "osm", h, [model.Gen(rng).obj("n")], None, dict(DEF), True)
    # one result at a time, the large ones are big
    res = server.parallel(exe, [t[0] for t in todo], batch=60, timeout=300)
    for (job, p, m, ftype, h, gen, objs, o), r in zip(todo, res):
        files = {"job.txt": job}
        if os.path.getsize(m) < 5 * 10**6: files["model.txt"] = open(m, "rb").read()
        if cases.report(ctx, job, [], r, files, "special:" if "/s" in p else ""):
            data = open(p, "rb").read()
            ctx.count("output bytes", len(data))
            compare(ctx, job, data, ftype, h, gen, objs, o, files)
        os.unlink(m)
        if os.path.exists(p): os.unlink(p)
