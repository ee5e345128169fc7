"""P16: kept objects. Snapshots at delivery against later content under random retention, objects changed by handlers."""
import os
import vp, model, cases, server
from p05 import first_file, suffix, ENC
from p13 import history, with_end

TECHNIQUE = "runtime monitoring: ASan+UBSan build, snapshots of delivered objects compared again and again while reading goes on, trace against the model"
NOTE = ("Random files of all encodings are read by handlers that keep and release random objects and change the ones nobody keeps, directly and "
        "through store, end-time, coordinate and assembler handlers; every kept object is compared with its snapshot many times and every "
        "delivered one with the model. Sampling.")

def check(ctx):
    exe, plain = vp.build_many([dict(src="harness/h16.cpp"), dict(src="harness/h16.cpp", variant="plain")])
    rng = ctx.rng
    ctx.rule = ("random histories and files x xml, gz, bz2, pbf x keeping 0..100% and releasing 0..90% of the objects x handlers that change objects "
                "after use x direct, const, endtime, store, coordinates, assembler, two files. Non-trivial: an object kept.")
    ctx.assumptions = ["a handler that changes objects only changes objects nobody else keeps"]
    jobs, exps, fs = [], [], []
    for i in range(ctx.n(420, 12000)):
        via = rng.choice(["direct", "direct", "direct", "const", "endtime", "store", "coords", "assembler", "twofiles"])
        hist = via in ("endtime", "store") or rng.random() < .5
        if hist: objs = history(rng, rng.choice([3, 10, 60]), True)
        else:
            g = model.Gen(rng, undef_pos=False, anon_user=rng.random() < .5, plain_text=rng.random() < .5, meta=rng.choice([0, .5, 1]))
            objs = g.objs(rng.choice([1, 30, 200, 1000]))
            for o in objs:
                if o.uid <= 0: o.uid, o.user = -1, ""
            if i in range(11, 17) and via != "coords":
                objs += [g.huge(x) for x in "nwr"]; objs.sort(key=lambda o: "nwr".index(o.t)); ctx.count("objects with more than 65536 parts", 3)
                for o in objs:
                    if o.uid <= 0: o.uid, o.user = -1, ""
            if via == "assembler":
                seen = set(); objs = [o for o in objs if not ((o.t, o.id) in seen or seen.add((o.t, o.id)))]
                have = [(o.t, o.id) for o in objs]
                for o in objs:
                    if o.t == "r": o.members = [rng.choice(have) + (r,) if rng.random() < .8 else (t, f, r) for t, f, r in o.members]
        if hist and via == "assembler": via = "direct"
        if via == "coords":     # ids the sparse table holds
            for o in objs:
                o.id = (o.id % 10**6)
                if o.t == "w": o.refs = [x % 10**6 for x in o.refs]
        enc = rng.choice(ENC); ftype = "osh" if hist else "osm"
        h = cases.rand_header(rng, ftype, gen=False)
        p = os.path.join(ctx.tmp, "k%d%s" % (i, suffix(ftype, enc)))
        objs = list(first_file(rng, p, ftype, enc, h, objs))
        hh = h; e = objs
        if via == "endtime": e = with_end(objs)
        if via == "store": hh = model.Header("", None, False)
        if via == "coords":
            pos = {}; e = []
            for o in objs:
                c = o.copy()
                if o.t == "n": pos[o.id] = (o.x, o.y)
                if o.t == "w": c.refpos = [pos.get(r, (model.UNDEF, model.UNDEF)) for r in o.refs]
                e.append(c)
        exp = model.trace(hh, e)
        if via == "store":
            exp = None      # order and uniqueness are judged by P14; content by the set of lines
            want = {o.line() for o in e}
        pk, pd = rng.choice([0, 5, 30, 80, 100]), rng.choice([0, 10, 50, 90])
        jobs.append("keep %d %d %d %d %s %s:%s:%s" % (ctx.seed * 100000 + i, pk, pd, rng.random() < .7, via, ftype, enc, p))
        exps.append((exp, want if exp is None else None, e)); fs.append(p); ctx.count("via " + via)
    k = len(jobs) // 2
    res = server.parallel(exe, jobs[:k], batch=30, timeout=240) + server.parallel(plain, jobs[k:], batch=100, timeout=240, env=vp.KEEP)
    for j, (exp, want, objs), p, r in zip(jobs, exps, fs, res):
        via = j.split(" ")[5]
        f = {"job.txt": j, "input": open(p, "rb").read(), "got.txt": "\n".join(r.lines)}
        if r.crash: ctx.violation("crash:%s:%s" % (via, r.crash), "%s: %s\n%s" % (j, r.crash, r.run.err[-2500:].decode("utf-8", "replace")), f); continue
        bad = [l for l in r.lines if l.startswith("BAD ")]
        c = [l.split(" ") for l in r.lines if l.startswith("C ")]
        kept = int(c[-1][2]) if c else 0
        ctx.case(" ".join(j.split(" ")[:6]), kept > 0, {"job": " ".join(j.split(" ")[1:6]), "objects": len(objs), "kept": kept})
        if c:
            ctx.count("kept", kept); ctx.count("dropped", int(c[-1][4])); ctx.count("comparisons", int(c[-1][6]))
        for l in bad: ctx.violation("%s:%s" % (via, l.split(" ")[1]), "%s: %s" % (j, l[:600]), f)
        r.lines = [l for l in r.lines if not l.startswith(("BAD ", "C "))]
        if want is not None:
            got = [l for l in r.lines if l[:2] in ("N\t", "W\t", "R\t")]
            ids = len({(o.t, o.id, o.version) for o in objs})
            if not set(got) <= want or len(got) != ids: ctx.violation("store:content", "%s: %d objects fed, %d expected; unknown: %s" % (j, len(got), ids, sorted(set(got) - want)[:1]), f)
            if r.end != "ok": ctx.violation("store:exception", "%s: %s" % (j, r.end), f)
        else: cases.report(ctx, j, exp, r, f, via + ":")
