"""P06: callback bracketing. Logs of handlers of many shapes checked against an automaton-like simulation."""
import os
import vp, model, cases, server
from p05 import first_file, suffix, ENC

TECHNIQUE = "runtime monitoring: ASan+UBSan build, recorded callback logs of chains of handlers checked against a trace specification"
NOTE = ("Files of all formats, also empty ones and ones with interleaved types, are read with handlers of many shapes (subsets of "
        "callbacks, Forward and Sequence nests). For small files StopReading is raised at every single callback in turn. Every log is "
        "compared in full with the trace the specification requires.")

SHAPES = {"all": 1, "nodes": 1, "ways": 1, "relations": 1, "none": 1, "objects": 1, "fwd": 1, "fwd3": 1, "drop": 1, "seq": 2,
          "seqfwd": 2, "tree": 4, "right": 4}
KEEP = {"nodes": "N", "ways": "W", "relations": "R", "none": "", "drop": "NR"}

def simulate(shape, trace, stops):
    """stops: {(leaf, event index): how}"""
    n = SHAPES[shape]
    out = []; count = [0] * n
    keep = KEEP.get(shape, "NWR")
    def deliver(e):
        for leaf in range(n):
            c = count[leaf]; count[leaf] += 1
            out.append("%d %s" % (leaf, e))
            how = stops.get((leaf, c))
            if how: return how
        return 0
    for e in trace[:-1]:
        if e[1:2] == "\t" and e[0] in "NWR" and e[0] not in keep: continue
        if shape == "objects" and e[1:2] != "\t": continue
        if shape == "objects" and e[0] == "I": continue
        how = deliver(e)
        if how == 2: return out, "exc Other"
        if how == 1: break
    if shape != "objects":
        how = deliver(trace[-1])
        if how == 2: return out, "exc Other"
        if how == 1: return out, "exc StopReading"
    return out, "ok"

def check(ctx):
    exe, plain = vp.build_many([dict(src="harness/h06.cpp"), dict(src="harness/h06.cpp", variant="plain")])
    rng = ctx.rng
    ctx.rule = ("random files of all types and encodings (sorted, reversed, interleaved, single type, empty) x handler shapes "
                "(subsets of callbacks, Forward, Sequence, nests); StopReading or another exception at a callback: every callback of "
                "every leaf for small files, random ones for others. Non-trivial: every (file, shape, stop).")
    ctx.assumptions = ["after an exception other than StopReading nothing is required of final (only that nothing else follows)",
                       "PBF groups are not empty"]
    todo = []
    def add(shape, ftype, enc, p, tr, stops, name):
        st = ",".join("%d:%d:%d" % (l, e, h) for (l, e), h in stops.items()) or "-"
        exp, end = simulate(shape, tr, stops)
        todo.append(("run %s %s %s %s %s" % (shape, ftype, enc, st, p), exp, end, p, name))
    for i in range(ctx.n(110, 1500)):
        ftype = rng.choice(["osm", "osm", "osh", "osc"]); enc = rng.choice(ENC)
        if i < 16: ftype, enc = ["osm", "osh", "osc", "osm"][i % 4], ENC[i // 4]
        h = cases.rand_header(rng, ftype)
        g = model.Gen(rng, history=ftype != "osm", meta=.3, maxtags=2, maxrefs=4)
        r = rng.random()
        n = 0 if i < 16 else rng.choice([1, 2, 3, 4, 6]) if r < .7 else rng.randint(10, 80) if r < .96 else 9000 if not ctx.quick or r < .965 else 2000
        objs = g.objs(n, rng.choice(["sorted", "sorted", "reverse", "mixed", "n", "w", "r"]))
        for o in objs:
            if o.uid <= 0: o.uid, o.user = -1, ""
        p = os.path.join(ctx.tmp, "f%d%s" % (i, suffix(ftype, enc)))
        exp = first_file(rng, p, ftype, enc, h, objs)
        tr = model.trace(h, exp)
        ctx.count("files"); ctx.count("files " + enc)
        if not objs: ctx.count("files without objects")
        name = "%s %s %d objects" % (ftype, enc, n)
        for shape in SHAPES:
            if n > 100 and rng.random() < .7: continue
            add(shape, ftype, enc, p, tr, {}, name)
        # stops
        shapes = ["all", "nodes", "ways", "relations", "none", "fwd", "seq", "tree", "right", "seqfwd", "fwd3", "drop"]
        for shape in rng.sample(shapes, ctx.n(3, 6)):
            full, _ = simulate(shape, tr, {})
            leaves = SHAPES[shape]
            per = len(full) // leaves
            pts = [(l, e) for l in range(leaves) for e in range(per)]
            if n > 6: pts = rng.sample(pts, min(len(pts), 6))
            elif ctx.quick and len(pts) > 24: pts = rng.sample(pts, 24)
            for pt in pts:
                stops = {pt: 1 if rng.random() < .85 else 2}
                if rng.random() < .1: stops[(rng.randrange(leaves), rng.randrange(per + 1))] = 1
                add(shape, ftype, enc, p, tr, stops, name)
    ctx.count("stop points", sum(1 for t in todo if " - " not in t[0]))
    rng.shuffle(todo)
    # a part under sanitizers, the others in a plain build
    k = len(todo) // 4
    ctx.count("runs under ASan+UBSan", k)
    res = server.parallel(exe, [t[0] for t in todo[:k]], batch=150) + server.parallel(plain, [t[0] for t in todo[k:]], batch=150, env=vp.KEEP)
    for (job, exp, end, p, name), r in zip(todo, res):
        ctx.case(job.replace(ctx.tmp, ""), True, {"job": job.replace(ctx.tmp + "/", ""), "file": name, "callbacks": len(exp)})
        shape = job.split(" ")[1]
        f = {"input" + os.path.basename(p)[1:]: open(p, "rb").read(), "job.txt": job, "expected.txt": "\n".join(exp), "got.txt": "\n".join(r.lines)}
        ctx.count("callbacks observed", len(r.lines))
        stopped = "stop" if " - " not in job else "full"
        if r.crash: ctx.violation("crash:" + r.crash, "%s (%s): %s\n%s" % (job, name, r.crash, r.run.err[-2000:].decode("utf-8", "replace")), f); continue
        lines = r.lines
        if end == "exc Other" and lines[:-1] == exp and lines[-1].endswith(" F"): lines = exp
        d = model.diff(exp, lines)
        if d: ctx.violation("%s:%s:%s" % (shape if shape in ("all", "none", "objects") or SHAPES[shape] > 1 else "other", stopped, model.diff_key([e[2:] for e in exp], [e[2:] for e in lines])), "%s (%s): %s" % (job, name, d), f)
        elif r.end != end: ctx.violation("end:%s:%s" % (stopped, r.end.split(" ")[1] if " " in r.end else r.end), "%s (%s): ended with %s, expected %s" % (job, name, r.end, end), f)
