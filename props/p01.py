"""P01: XML input fidelity. Generated documents against an oracle trace, under ASan+UBSan."""
import os, threading
import vp, model, xmlio, cases, server

TECHNIQUE = "runtime monitoring: ASan+UBSan build, callback trace monitor against a generated-document oracle"
NOTE = ("Every callback and every object field observed on randomly generated documents is compared with the generating model; "
        "trusts the generator in lib/xmlio.py (independent of the library) and the sanitizers. Sampling, not exhaustive.")

def big_objs(rng, g):
    """objects that make single elements much larger than the read buffer"""
    r = rng.random()
    if r < 0.4:
        o = g.obj("w"); o.refs = [rng.randint(1, 10**10) for _ in range(rng.choice([1999, 2000, 2001, 3000]))]
        return [o, g.obj("w"), g.obj("w")]
    if r < 0.7:
        o = g.obj("r"); o.members = [(rng.choice("nwr"), rng.randint(1, 10**9), rng.choice(["", "a", "outer"])) for _ in range(rng.randint(400, 1200))]
        return [g.obj("r"), o, g.obj("r")]
    o = g.obj("n"); o.tags = [("k%d" % i, model.text(rng, 255, 100)) for i in range(100)] + [("long", "x" * rng.choice([10239, 10240, 10241, 30000]))]
    return [g.obj("n"), o, g.obj("n")]

def feeder(path, data, sizes):
    """write data into a FIFO in pieces of the given sizes"""
    def w():
        with open(path, "wb", buffering=0) as f:
            i = 0; k = 0
            while i < len(data):
                n = sizes[k % len(sizes)]; k += 1
                try: f.write(data[i:i + n])
                except BrokenPipeError: return
                i += n
    t = threading.Thread(target=w, daemon=True); t.start(); return t

def check(ctx):
    exe = vp.build("harness/io.cpp")
    rng = ctx.rng
    ctx.rule = ("random OSM documents (type osm/osh/osc x encoding xml/gz/bz2 x charset x spelling: attribute order, quotes, "
                "character references, comments, exponent coordinates, sections with explicit visible), objects larger than the "
                "read buffer, one document shifted over the 10240 byte buffer boundary, FIFOs delivering short reads; every "
                "callback and all object fields compared with the generating model. Non-trivial: at least one object.")
    ctx.assumptions = ["absent attributes have the defaults of a default-constructed object",
                       "user names and roles of at most 255 characters (the documented maximum)"]
    N = ctx.n(500, 12000)
    jobs = []; exps = []
    for i in range(N):
        ftype = rng.choice(["osm", "osm", "osh", "osc"])
        enc = rng.choice(["xml", "xml", "xml", "gz", "bz2"])
        cs = rng.choices(["utf-8", "utf-16", "iso-8859-1", "us-ascii"], [8, 1, 1, 1])[0]
        g = model.Gen(rng, history=rng.random() < (0.3 if ftype == "osm" else 0.7), meta=rng.choice([0, 0.5, 1, 1]), bigversions=True)
        r = rng.random()
        if r < 0.06: objs = []
        elif r < 0.75: objs = g.objs(rng.randint(1, 20), rng.choice(["sorted", "sorted", "mixed", "reverse", "n", "w", "r"]))
        elif r < 0.95: objs = g.objs(rng.randint(20, 120), rng.choice(["sorted", "mixed"]))
        else: objs = big_objs(rng, g)
        if i in (11, 12, 13): objs = [g.obj("n"), g.huge("nwr"[i - 11])]; ctx.count("objects with more than 65536 parts")
        h = cases.rand_header(rng, ftype)
        data, exp = xmlio.XmlWriter(rng, rng.choice(["random", "random", "plain"]), cs).document(h, objs, ftype)
        p = os.path.join(ctx.tmp, "c%d.%s%s" % (i, ftype, cases.SUFFIX[enc]))
        cases.write(p, cases.compress(rng, data, enc))
        explicit = rng.random() < 0.3
        if explicit:
            q = os.path.join(ctx.tmp, "x%d" % i); os.rename(p, q); p = q
            jobs.append("read %s %s -1 0 %s" % (ftype, enc, p))
        else: jobs.append("read - - -1 0 %s" % p)
        exps.append((model.trace(h, exp), p, data, "%s/%s/%s" % (ftype, enc, cs)))
        ctx.case(data, bool(objs), {"kind": "%s/%s/%s" % (ftype, enc, cs), "bytes": len(data), "objects": len(objs)})
        ctx.count("objects", len(objs)); ctx.count("type " + ftype); ctx.count("enc " + enc); ctx.count("charset " + cs)
    # one document moved across the buffer boundary
    g = model.Gen(rng)
    objs = g.objs(60, "sorted")
    h = cases.rand_header(rng, "osm", gen=False)
    base, exp = xmlio.XmlWriter(rng, "random", "utf-8").document(h, objs)
    cut = base.index(b">", base.index(b"<osm")) + 1
    tr = model.trace(h, exp)
    for k in range(0, ctx.n(160, 2500)):
        pad = (10240 - cut - 9 - 200 + k * ctx.n(3, 1)) % 10240
        data = base[:cut] + b"<!--" + b"x" * pad + b"-->" + base[cut:]
        # bounds stay first: the comment comes before them
        p = os.path.join(ctx.tmp, "b%d.osm" % k)
        cases.write(p, data)
        jobs.append("read - - -1 0 %s" % p); exps.append((tr, p, data, "boundary"))
        ctx.case(data, True); ctx.count("boundary positions")
    res = server.parallel_locales(ctx, exe, jobs, batch=200)
    for (exp, p, data, kind), r, j in zip(exps, res, jobs):
        ctx.count("callbacks", len(r.lines))
        cases.report(ctx, "%s (%s)" % (kind, j), exp, r, {"input.xml": data, "job.txt": j}, "" )
        os.unlink(p)
    # short reads
    for k in range(ctx.n(16, 200)):
        ftype = rng.choice(["osm", "osc"])
        objs = model.Gen(rng).objs(rng.randint(1, 40))
        h = cases.rand_header(rng, ftype)
        data, exp = xmlio.XmlWriter(rng, "random").document(h, objs, ftype)
        p = os.path.join(ctx.tmp, "fifo%d.%s" % (k, ftype))
        os.mkfifo(p)
        t = feeder(p, data, rng.choice([[1, 2, 3], [7], [100, 1], [10240], [10239, 1], [4096]]))
        r = server.jobs(exe, ["read - - -1 0 %s" % p], timeout=240, once=True)[0]
        cases.report(ctx, "fifo", model.trace(h, exp), r, {"input.xml": data})
        ctx.case(data + b"fifo"); ctx.count("fifo inputs")
        if r.hang: break
