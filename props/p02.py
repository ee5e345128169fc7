"""P02: PBF input fidelity. Files from an independent encoder against an oracle trace, under ASan+UBSan."""
import os
import vp, model, pbf, cases, server
from p01 import feeder

TECHNIQUE = "runtime monitoring: ASan+UBSan build, callback trace monitor against an independent PBF encoder"
NOTE = ("Random valid files covering the encoding choices of the format; every callback and field observed is compared with the "
        "encoded data. Trusts lib/pbf.py (hand-written wire encoder). Sampling, not exhaustive.")

def split_groups(rng, objs, maxgroup):
    """consecutive same-typed objects into groups, groups into blocks"""
    groups = []
    for o in objs:
        if groups and groups[-1][0].t == o.t and len(groups[-1]) < maxgroup and rng.random() < 0.93: groups[-1].append(o)
        else: groups.append([o])
    blocks = [[]]
    for g in groups:
        if blocks[-1] and rng.random() < 0.4: blocks.append([])
        blocks[-1].append(g)
    return [b for b in blocks if b]

def rand_opts(rng, history):
    op = pbf.Opts(rng=rng)
    if rng.random() < 0.5:
        op.gran = rng.choice([100, 1, 10, 1000, 50, 10000, 25, 100, 7, 333])
        if rng.random() < 0.5:
            op.lat_off = rng.choice([0, 1, -1, 100, rng.randint(-10**9, 10**9), -90 * 10**9])
            op.lon_off = rng.choice([0, 50, rng.randint(-10**9, 10**9), 180 * 10**9])
    if rng.random() < 0.4: op.dgran = rng.choice([1000, 1, 100, 500, 1500, 2000, 10000, 60000, 999])
    op.dense = rng.random() < 0.6
    op.zlib = rng.random() < 0.7
    op.level = rng.choice([0, 1, 6, 9])
    op.strings_first = rng.random() < 0.8
    op.write_defaults = rng.random() < 0.3
    op.shuffle_strings = rng.random() < 0.4
    op.extra_fields = rng.random() < 0.1
    op.unpacked = rng.random() < 0.1
    op.pad = rng.choice([0, 0, 0, 1, 130, 20000 if rng.random() < 0.1 else 3])
    op.visible = history
    r = rng.random()
    if r < 0.15: op.info = False
    elif r < 0.3 and not op.dense: op.info = lambda o: o.id % 3 != 0
    elif r < 0.45: op.omit = tuple(c for c in ("version", "ts", "changeset", "uid", "user") if rng.random() < .5)     # part of the metadata
    return op

def apply_opts(o, op):
    """Object as the encoding can express it; returns (object, exact nano position or None)."""
    e = o.copy()
    has = op.info(o) if callable(op.info) else op.info
    if not has:
        e.version = e.changeset = e.ts = 0; e.uid = -1; e.user = ""; e.visible = True
    else:
        if not op.visible: e.visible = True
        e.ts = o.ts * 1000 // op.dgran * op.dgran / 1000
        for c in op.omit: setattr(e, c, {"uid": -1, "user": ""}.get(c, 0))
    nano = None
    if o.t == "n":
        nano = (pbf.enc_coord(o.x, op.lon_off, op.gran) * op.gran + op.lon_off, pbf.enc_coord(o.y, op.lat_off, op.gran) * op.gran + op.lat_off)
        e.x, e.y = nano[0] // 100, nano[1] // 100
    return e, nano

def encode_file(rng, h, objs, history, features=(), maxgroup=8000, opts=None, junk=True, optional=()):
    """-> bytes, [(expected obj, nano)] , boundaries of complete blobs"""
    out = b""; exp = []
    zl = rng.random() < 0.7
    hx = pbf.fb(60, b"later extension") if rng.random() < 0.1 else b""
    out += pbf.blob("OSMHeader", pbf.header_block(h, history, rng.random() < 0.9, features, optional, hx), zl,
                    indexdata=b"i" * rng.choice([0, 10, 60000]) if rng.random() < 0.1 else None)
    bounds = [len(out)]
    for groups in split_groups(rng, objs, maxgroup):
        op = opts or rand_opts(rng, history)
        for g in groups:
            for o in g: exp.append(apply_opts(o, op))
        out += pbf.blob("OSMData", pbf.enc_block(groups, op), op.zlib, op.level, raw_size=op.zlib or rng.random() < .3)
        bounds.append(len(out))
        if junk and rng.random() < 0.05:
            out += pbf.blob(rng.choice(["OSMFuture", "x", ""]), os.urandom(0) + bytes(rng.randrange(256) for _ in range(50)), rng.random() < .5)
            bounds.append(len(out))
    return out, exp, bounds

def tolerate(exp, nanos, lines):
    """Accept positions and sub-second timestamps within the library's resolution: rewrite such lines to the expected."""
    out = list(lines)
    for i, l in enumerate(lines):
        if i >= len(exp) or l == exp[i]: continue
        a, b = exp[i].split("\t"), l.split("\t")
        if len(a) != len(b) or a[0] != b[0] or a[0] not in "NWR": continue
        if a[4] != b[4] and float(a[4]) != int(float(a[4])) and abs(float(a[4]) - float(b[4])) < 1: b[4] = a[4]
        if a[4] != b[4] and float(a[4]) == float(b[4]): b[4] = a[4]
        if a[0] == "N" and i in nanos:
            for k, n in ((9, nanos[i][0]), (10, nanos[i][1])):
                if a[k] != b[k] and n % 100 and abs(int(b[k]) * 100 - n) < 100: b[k] = a[k]
        out[i] = "\t".join(b)
    return out

def expected(h, exp):
    tr = model.trace(h, [e for e, _ in exp])
    nanos = {}; k = 0
    for i, l in enumerate(tr):
        if l[:2] in ("N\t", "W\t", "R\t"):
            if exp[k][1]: nanos[i] = exp[k][1]
            k += 1
    return tr, nanos

def check(ctx):
    exe = vp.build("harness/io.cpp")
    rng = ctx.rng
    ctx.rule = ("random valid PBF files (dense/plain nodes, ways, relations, groups and blocks of any size up to 8000 objects, "
                "granularity 1..10000 with offsets, date granularity 1..60000, raw/zlib at several levels, unknown blob types, "
                "unknown fields, unpacked arrays, missing or partial metadata, history visibility), header feature combinations, FIFOs with "
                "short reads; every callback and field compared. Non-trivial: at least one object or a rejected header.")
    N = ctx.n(450, 9000)
    todo = []
    for i in range(N):
        history = rng.random() < 0.4
        ftype = "osh" if history else "osm"
        g = model.Gen(rng, history=history, meta=rng.choice([0.5, 1, 1]), undef_pos=False)
        r = rng.random()
        if r < 0.04: objs = []
        elif r < 0.8: objs = g.objs(rng.randint(1, 30), rng.choice(["sorted", "sorted", "mixed", "reverse", "n", "w", "r"]))
        elif r < 0.99: objs = g.objs(rng.randint(30, 300), rng.choice(["sorted", "mixed"]))
        else:
            g.maxtags = 2; g.maxrefs = 3
            objs = g.objs(rng.choice([7999, 8000, 8001, 9000]), rng.choice(["n", "sorted"]))
        if i in (11, 12, 13): objs = [g.obj("n"), g.huge("nwr"[i - 11])]; ctx.count("objects with more than 65536 parts")
        h = cases.rand_header(rng, ftype)
        data, exp, _ = encode_file(rng, h, objs, history, maxgroup=rng.choice([8000, 5, 1, 100]),
                                   optional=["Sort.Type_then_ID"] if rng.random() < .2 else ())
        p = os.path.join(ctx.tmp, "c%d.%s.pbf" % (i, ftype))
        if rng.random() < 0.15:      # opened as change file: no history check, several versions expected
            h.multi = True
            job = "read osc pbf -1 0 %s" % p
        elif rng.random() < 0.2: job = "read %s pbf -1 0 %s" % (ftype, p)
        else: job = "read - - -1 0 %s" % p
        tr, nanos = expected(h, exp)
        todo.append((job, tr, nanos, p, data, None))
        ctx.case(data, bool(objs), {"type": ftype, "bytes": len(data), "objects": len(objs)})
        ctx.count("objects", len(objs)); ctx.count("files " + ftype)
    # a very large blob
    for k in range(ctx.n(1, 6)):
        g = model.Gen(rng, undef_pos=False); objs = g.objs(20)
        h = cases.rand_header(rng, "osm")
        op = pbf.Opts(rng=rng, zlib=k % 2 == 0, level=1); op.pad = 0
        big = model.Obj("n", 5); big.x = big.y = 0
        big.tags = [("k%d" % j, "v" * 65000) for j in range(rng.choice([300, 490]))]
        objs.insert(0, big)
        data, exp, _ = encode_file(rng, h, objs, False, opts=op)
        tr, nanos = expected(h, exp)
        p = os.path.join(ctx.tmp, "big%d.osm.pbf" % k)
        todo.append(("read - - -1 0 %s" % p, tr, nanos, p, data, None)); ctx.case(data); ctx.count("blobs over 19 MB")
    # headers that must be rejected before anything is delivered
    for k in range(ctx.n(60, 600)):
        history = rng.random() < 0.5
        objs = model.Gen(rng, undef_pos=False, history=history).objs(rng.randint(0, 20))
        h = cases.rand_header(rng, "osm")
        feats = ()
        kind = rng.choice(["feature", "history"])
        if kind == "feature":
            feats = [rng.choice(["LocationsOnWays", "DenseNodes2", "densenodes", "OsmSchema-V0.7", "", "X", "HistoricalInformation2", "Historical", "OsmSchema-V0.6 "])]
            ftype = "osh" if history else "osm"; want = "exc std Required%20feature%20not%20supported"
        else:
            ftype = "osm" if history else "osh"; want = "exc FileTypeOSMExpected" if history else "exc FileTypeHistoryExpected"
        data, exp, _ = encode_file(rng, h, objs, history, feats)
        p = os.path.join(ctx.tmp, "r%d.%s.pbf" % (k, ftype))
        todo.append(("read - - -1 0 %s" % p, [], {}, p, data, want)); ctx.case(data + b"rej"); ctx.count("rejected headers (%s)" % kind)
    for t in todo: cases.write(t[3], t[4])
    res = server.parallel(exe, [t[0] for t in todo], batch=100)
    for (job, tr, nanos, p, data, want), r in zip(todo, res):
        ctx.count("callbacks", len(r.lines))
        files = {"input.osm.pbf": data[:50 * 10**6], "job.txt": job}
        if want is None:
            r.lines = tolerate(tr, nanos, r.lines)
            cases.report(ctx, job, tr, r, files)
        elif r.crash: ctx.violation("reject:crash:" + r.crash, "%s: %s" % (job, r.crash), files)
        elif not (r.end or "").startswith("exc"): ctx.violation("reject:accepted", "%s: header must be rejected (%s), got %s" % (job, want, r.end), files)
        elif r.lines: ctx.violation("reject:events", "%s: callbacks before rejection: %s" % (job, r.lines[:3]), files)
        elif want.startswith("exc FileType") and not r.end.startswith(want): ctx.violation("reject:kind", "%s: wanted %s got %s" % (job, want, r.end), files)
        os.unlink(p)
    for k in range(ctx.n(12, 150)):
        objs = model.Gen(rng, undef_pos=False).objs(rng.randint(1, 40))
        h = cases.rand_header(rng, "osm")
        data, exp, _ = encode_file(rng, h, objs, False)
        p = os.path.join(ctx.tmp, "fifo%d.osm.pbf" % k)
        os.mkfifo(p)
        feeder(p, data, rng.choice([[1, 2, 3], [3, 5], [100, 1], [4096], [2, 1000]]))
        r = server.jobs(exe, ["read - - -1 0 %s" % p], timeout=240, once=True)[0]
        tr, nanos = expected(h, exp)
        r.lines = tolerate(tr, nanos, r.lines)
        cases.report(ctx, "fifo", tr, r, {"input.osm.pbf": data})
        ctx.case(data + b"fifo"); ctx.count("fifo inputs")
        if r.hang: break
