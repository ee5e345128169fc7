"""P14: object order, object store, merging. Traces fed from the store against a sorted model."""
import os
import vp, model, xmlio, cases, server
from p05 import first_file, suffix, ENC

TECHNIQUE = "runtime monitoring: ASan+UBSan build, comparison laws checked on all triples, traces of the store and of merges checked against a sorted model"
NOTE = ("Comparison laws on all pairs and triples of random object sets; feeding from the store after random sequences of filling, feeding "
        "and clearing; merging of random stores into random sorted streams, directly and from files, also ended by StopReading.")
META = "I\tthe%20meta\t1\t1\t2\t30\t40"
ORD = {"n": 0, "w": 1, "r": 2}

def objset(rng, n, types="nwr", versions=[0, 1, 2, 3, 3, 10, 2**31 - 1]):
    g = model.Gen(rng, history=True, undef_pos=False, anon_user=False, plain_text=True, maxtags=2, maxrefs=4)
    g.users = [(1, "a"), (2, "user b")]
    out = []
    b = rng.choice([0, 0, 0, 2**31 - 4, 2**40])
    for _ in range(n):
        i = b + rng.randint(0, max(3, n // 3)) if rng.random() < .9 else rng.randint(0, 2**60)
        if rng.random() < .4: i = -i
        o = g.obj(rng.choice(types), i)
        o.version = rng.choice(versions)
        if o.uid <= 0: o.uid, o.user = 1, "a"
        out.append(o)
    return out
def uniq(objs):
    seen = set(); out = []
    for o in objs:
        k = (o.t, o.id, o.version)
        if k not in seen: seen.add(k); out.append(o)
    return out
VARIANTS = [lambda o: (abs(o.id), o.id < 0, o.version), lambda o: (abs(o.id), o.id >= 0, o.version),
            lambda o: (abs(o.id), o.version, o.id < 0), lambda o: (abs(o.id), o.version, o.id >= 0)]

def blocks(meta, stream, store, key, always=()):
    out = [meta]
    for t in "nwr":
        a = [o for o in stream if o.t == t]; b = [o for o in store if o.t == t]
        if a or b or t in always:
            out.append(model.BEFORE[t]); out += [o.line() for o in sorted(a + b, key=key)]; out.append(model.AFTER[t])
    return out + ["F"]
def canon(lines):
    """objects with equal id and version may come in either order"""
    out = []; i = 0
    def k(l):
        f = l.split("\t"); return f[:3] if f[0] in "NWR" and len(f) > 3 else None
    while i < len(lines):
        j = i + 1
        if k(lines[i]):
            while j < len(lines) and k(lines[j]) == k(lines[i]): j += 1
        out += sorted(lines[i:j]); i = j
    return out

def check(ctx):
    exe, plain = vp.build_many([dict(src="harness/h12.cpp"), dict(src="harness/h12.cpp", variant="plain")])
    rng = ctx.rng
    ctx.rule = ("sets of objects with dense and sparse ids of both signs, versions incl. 0, 2^31-1 and 2^32-1, repeated objects; order laws on all "
                "pairs and triples; store histories (fill, feed with and without clearing, clear by type); merges of stores and sorted streams, every "
                "subset of types on either side, direct and from xml/gz/bz2/pbf files. Non-trivial: at least two objects.")
    ctx.assumptions = ["streams to be merged are sorted by type and in the order of operator<", "|id| < 2^63"]
    # order
    jobs, info = [], []
    for i in range(ctx.n(60, 1500)):
        objs = objset(rng, rng.choice([5, 20, 60]), versions=rng.choice([[0, 1, 2, 3, 3, 10, 2**31 - 1], [0, 1, 3, 255, 256, 65536, 2**31 - 1, 2**31, 2**31 + 7, 2**32 - 2, 2**32 - 1]]))
        p = os.path.join(ctx.tmp, "o%d" % i); cases.write(p, ("\n".join(o.line() for o in objs) + "\n").encode())
        jobs.append("order m:" + p); info.append(p)
        ctx.case("order %d" % i, True, {"order of": len(objs)})
    for j, p, r in zip(jobs, info, server.parallel(exe, jobs, batch=20, timeout=240)):
        f = {"input": open(p, "rb").read(), "job.txt": j}
        if r.crash or r.end != "ok": ctx.violation("order:crash:%s" % (r.crash or r.end), "%s: %s" % (j, r.crash or r.end), f); continue
        for l in r.lines:
            if l.startswith("BAD "): ctx.violation("order:" + " ".join(l.split(" ")[1:3]), l, f)
            elif l.startswith("C "): w = l.split(" "); ctx.count("pairs compared", int(w[2])); ctx.count("triples compared", int(w[4]))
    if ctx.violations: return
    # which of the admissible orders is it
    p = os.path.join(ctx.tmp, "probe"); pr = [model.Obj("n", i) for i in (5, -5, 5, -5)]
    pr[2].version = pr[3].version = 1
    cases.write(p, ("\n".join(o.line() for o in pr) + "\n").encode())
    r = server.jobs(plain, ["feed 1 - m:" + p])[0]
    key = [v for v in VARIANTS if r.lines[2:6] == [o.line() for o in sorted(pr, key=v)]]
    if not key: ctx.violation("order:probe", "no admissible order: %s" % r.lines, {"input": open(p, "rb").read()}); return
    key = key[0]
    # store histories and merges
    jobs, exps, fs = [], [], []
    def source(name, h, objs, direct, empties=()):
        p = os.path.join(ctx.tmp, name)
        if direct:
            lines = model.trace(h, objs)
            cases.write(p, ("\n".join(lines) + "\n").encode()); return "m:" + p, objs, p
        enc = rng.choice(ENC); p += suffix("osh", enc)
        objs = list(first_file(rng, p, "osh", enc, h, objs))
        return "f:osh:%s:%s" % (enc, p), objs, p
    for i in range(ctx.n(400, 12000)):
        ty = rng.choice(["nwr", "nwr", "n", "w", "r", "nw", "nr", "wr"])
        objs = objset(rng, rng.choice([0, 1, 2, 10, 60]), ty)
        objs.sort(key=lambda o: ORD[o.t])
        direct = rng.random() < .7
        h = cases.rand_header(rng, "osh", gen=False)
        src, objs, p = source("s%d" % i, h, objs, direct)
        if i % 2:
            ops = "".join(rng.choice("nwrcfFss") for _ in range(rng.randint(0, 6))); final = rng.random() < .9
            cur = uniq(objs); exp = []
            allv = ("n", "w", "r")
            for c in ops + ("F" if final else ""):
                if c in "nwr": cur = [o for o in cur if o.t != c]
                elif c == "c": cur = []
                elif c == "s":
                    have = {(o.t, o.id, o.version) for o in cur}; cur = cur + [o for o in uniq(objs) if (o.t, o.id, o.version) not in have]
                else:
                    exp += blocks(META, [], cur, key, allv)
                    if c == "F": cur = []
            jobs.append("feed %d %s %s" % (final, ops or "-", src)); exps.append(exp); fs.append([p])
            ctx.case("feed %d %s" % (i, ops), len(objs) > 1, {"store": len(objs), "ops": ops}); ctx.count("store histories")
        else:
            ty2 = rng.choice(["nwr", "nwr", "n", "w", "r", "nw", "nr", "wr"])
            st = uniq(objset(rng, rng.choice([0, 1, 5, 10, 60]), ty2))
            if rng.random() < .6:       # near the objects of the store
                for o in st:
                    if objs and rng.random() < .5:
                        q = rng.choice(objs); o.id = q.id; o.version = max(0, q.version + rng.choice([-1, 0, 1])) & 0x7fffffff
                st = uniq(st)
            st.sort(key=lambda o: (ORD[o.t],) + tuple(key(o)))
            src2, st, p2 = source("t%d" % i, h, st, rng.random() < .7)
            objs = uniq(objs)
            exp = blocks(META, st, objs, key)
            job = "merge %s %s" % (src, src2)
            if rng.random() < .3 and len(exp) > 2 and src2[0] == "f":
                s = rng.randrange(len(exp) - 1); how = rng.choice([1, 2])
                job += " %d %d" % (s, how); exp = exp[:s + 1] + (["F"] if how == 1 else [])
                ctx.count("merges stopped")
            jobs.append(job); exps.append(exp); fs.append([p, p2])
            ctx.case("merge %d" % i, len(objs) + len(st) > 1, {"store": len(objs), "stream": len(st)}); ctx.count("merges"); ctx.count("merges store %s stream %s" % ("".join(sorted({o.t for o in objs})) or "-", "".join(sorted({o.t for o in st})) or "-"))
        ctx.count("objects", len(objs))
    k = len(jobs) // 2
    res = server.parallel(exe, jobs[:k], batch=40, timeout=240) + server.parallel(plain, jobs[k:], batch=100, timeout=240, env=vp.KEEP)
    for j, e, p, r in zip(jobs, exps, fs, res):
        kind = j.split(" ")[0]
        files = {"job.txt": j}
        for n, q in enumerate(p): files["input%d" % n] = open(q, "rb").read()
        w = j.split(" ")
        if kind == "merge" and len(w) == 5:
            if w[4] == "2" and r.end == "exc Other": r.end = "ok"
            # the order of equal objects at the cut is open: compare only how many and what kind of lines
            if not r.crash and [l[:1] for l in e] != [l[:1] for l in r.lines]:
                ctx.violation("merge:stopped", "%s: %s" % (j, model.diff([l[:1] for l in e], [l[:1] for l in r.lines])), files); continue
            r.lines = e if not r.crash else r.lines
        e, r.lines = canon(e), canon(r.lines)
        cases.report(ctx, j, e, r, files, kind + ":")
