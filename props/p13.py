"""P13: history. End times and time ranges of random histories against the definition."""
import os
import vp, model, xmlio, cases, server
from p05 import first_file, suffix, ENC

TECHNIQUE = "runtime monitoring: ASan+UBSan build, trace of versions leaving the end-time and range handlers checked against the intervals"
NOTE = ("Random sorted histories, fed directly and from files of all encodings, through the end-time handler, the range handler and the "
        "example tool; every forwarded version is compared with the intervals computed from the whole history. Sampling.")

def history(rng, n, down, tsmax=1700000000):
    g = model.Gen(rng, history=True, undef_pos=False, anon_user=False, plain_text=True, maxtags=3, neg=False)
    g.users = [(1, "a"), (2, "user b")]
    out = []
    types = [t for t in "nwr" if rng.random() < .75]
    for t in types:
        ids = set()
        b = rng.choice([1, 1, 1000, 2**32 - 3])
        while len(ids) < n:
            ids.add(b + rng.randint(0, 2 * n) if rng.random() < .9 else rng.randint(1, 10**10))
        ids = [i * (-1 if rng.random() < .1 else 1) for i in ids]
        ids.sort(key=lambda i: (abs(i), i))
        ids = [i for k, i in enumerate(ids)]
        if rng.random() < .4:       # 5 and -5 next to each other
            k = rng.randrange(len(ids)); ids.insert(k + 1, -ids[k])
        for i in ids:
            v = 0; step = [1, 1, 1, 2] if rng.random() < .9 else [0]; ts = rng.randint(1, tsmax // 2)
            for _ in range(rng.choice([1, 1, 2, 3, 8])):
                v += rng.choice(step)
                o = g.obj(t, i); o.version = v; o.ts = min(ts, tsmax); o.changeset = rng.randint(1, 10**6)
                if o.uid <= 0: o.uid, o.user = 1, "a"
                out.append(o)
                r = rng.random()
                ts += 0 if r < .15 else 1 if r < .3 else rng.randint(1, 10**6) if r < .9 or not down else -rng.randint(0, min(1000, ts - 1))
    return out

def with_end(objs):
    out = []
    for a, b in zip(objs, objs[1:] + [None]):
        c = a.copy(); c.endtime = b.ts if b is not None and b.t == a.t and b.id == a.id else 0
        out.append(c)
    return out

def in_range(o, f, t):
    end = o.endtime if o.endtime else float("inf")
    return max(o.ts, f) <= min(end, t)

def trace(h, all_, some):
    """callbacks of types present stay even if nothing of the type is forwarded"""
    out = [h.line()]; last = None
    keep = set(map(id, some))
    for o in all_:
        if o.t != last:
            if last: out.append(model.AFTER[last])
            out.append(model.BEFORE[o.t]); last = o.t
        if id(o) in keep: out.append(o.line())
    if last: out.append(model.AFTER[last])
    return out + ["F"]

def check(ctx):
    exe, plain, io, tool = vp.build_many([dict(src="harness/h12.cpp"), dict(src="harness/h12.cpp", variant="plain"), dict(src="harness/io.cpp", variant="plain"), dict(src=vp.REPO + "/examples/osmium_range_from_history.cpp", variant="plain")])
    rng = ctx.rng
    ctx.rule = ("sorted histories of all types with 1..8 versions, equal, consecutive and decreasing timestamps, deleted versions, neighbouring ids "
                "and ids differing only in sign; ranges from, to at, just before and just after timestamps and end times, points in time and "
                "everything; fed directly and from xml/gz/bz2/pbf files. Non-trivial: an object with several versions.")
    ctx.assumptions = ["every version has a timestamp", "timestamps do not decrease within an object where ranges are extracted", "an object is valid from its timestamp to its end time, both included, as documented by the handler"]
    jobs, exps, fs = [], [], []
    tools = []
    for i in range(ctx.n(500, 15000)):
        down = rng.random() < .2
        objs = history(rng, rng.choice([1, 2, 5, 5, 30]), down)
        h = cases.rand_header(rng, "osh", gen=False)
        p = os.path.join(ctx.tmp, "h%d" % i)
        enc = rng.choice([None, None, None, "xml", "gz", "bz2", "pbf"])
        if enc is None:
            cases.write(p, ("\n".join(trace(h, objs, objs)) + "\n").encode()); src = "m:" + p
        else:
            p += suffix("osh", enc)
            objs = first_file(rng, p, "osh", enc, h, objs)
            objs = list(objs); src = "f:osh:%s:%s" % (enc, p)
        e = with_end(objs)
        multi = sum(bool(o.endtime) for o in e)
        jobs.append("endtime " + src); exps.append(trace(h, e, e)); fs.append(p)
        ctx.case(("e%d" % i) + str(len(e)), multi > 0, {"versions": len(e), "superseded": multi, "from": enc or "direct"})
        ctx.count("versions", len(e)); ctx.count("superseded versions", multi); ctx.count("source " + (enc or "direct"))
        times = sorted({o.ts for o in e} | {o.endtime for o in e}) or [5]
        for k in range(0 if down else 3):
            r = rng.random()
            f = max(0, rng.choice(times) + rng.choice([0, 0, 1, -1])) if r < .8 else rng.choice([0, 1, 2**31, 1 << 40])
            t = f if rng.random() < .4 else max(f, rng.choice(times) + rng.choice([0, 0, 1, -1])) if rng.random() < .9 else 1 << 40
            some = [o for o in e if in_range(o, f, t)]
            jobs.append("range %d %d %s" % (f, t, src)); exps.append(trace(h, e, some)); fs.append(p)
            ctx.case("r%d %d %d" % (i, f, t), 0 < len(some) < len(e)); ctx.count("versions forwarded", len(some)); ctx.count("versions left out", len(e) - len(some))
        if enc and len(tools) < ctx.n(25, 200): tools.append((p, enc, h, [o for o in e if o.endtime == 0]))
        if i and rng.random() < .3:     # several streams in turn through the same handlers: each for itself
            q, psrc = prev
            some = lambda x: [o for o in x if in_range(o, f, t)]
            jobs.append("endtime %s|%s" % (psrc, src)); exps.append(trace(q[0], q[1], q[1]) + trace(h, e, e)); fs.append(p)
            ctx.case("two%d" % i, multi > 0); ctx.count("two streams through one handler")
            if not down and not q[2]:
                jobs.append("range %d %d %s|%s|%s" % (f, t, src, psrc, src))
                exps.append(trace(h, e, some(e)) + trace(q[0], q[1], some(q[1])) + trace(h, e, some(e))); fs.append(p)
        prev = ((h, e, down), src)
    k = len(jobs) // 3
    res = server.parallel(exe, jobs[:k], batch=40, timeout=240) + server.parallel(plain, jobs[k:], batch=100, timeout=240, env=vp.KEEP)
    for j, e, p, r in zip(jobs, exps, fs, res):
        cases.report(ctx, j, e, r, {"input": open(p, "rb").read(), "job.txt": j}, j.split(" ")[0] + ":")
    # the example tool extracts what is valid now
    for p, enc, h, last in tools:
        out = os.path.join(ctx.tmp, "out%d.osh" % tools.index((p, enc, h, last)))
        run = vp.run_confirm([tool, p, out], timeout=60, env=vp.KEEP); ctx.count("tool runs")
        if run.rc: ctx.violation("tool:failed", "osmium_range_from_history: exit %s %s" % (run.rc, run.err[-500:]), {"input": open(p, "rb").read()}); continue
        r = server.jobs(io, ["read osh xml 0 0 " + out])[0]
        got = [l for l in r.lines if l[:2] in ("N\t", "W\t", "R\t")]
        exp = [o.line() for o in last]
        d = model.diff(exp, got)
        if d or r.end != "ok": ctx.violation("tool:differs", "osmium_range_from_history: %s %s" % (r.end, d), {"input": open(p, "rb").read(), "output": open(out, "rb").read()})
        ctx.case("tool " + os.path.basename(p), bool(last))
