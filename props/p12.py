"""P12: coordinates for ways. Random node and way sequences through the coordinate handler, every way node judged."""
import os
import vp, model, xmlio, cases, server

TECHNIQUE = "runtime monitoring: ASan+UBSan build, trace of ways coming out of the coordinate handler checked against a map of nodes seen"
NOTE = ("Node and way sequences with versions, forward references, missing nodes and ids of both signs go through the handler with all "
        "combinations of stores; every way (delivered and kept to the end) is compared with the model. Sampling, not exhaustive.")

KINDS = ["fixed", "anon", "file", "sparse", "map", "vector"]
TELLS = {"sparse", "vector"}        # stores that can tell that a node was not seen
LIM = {"fixed": 19999, "anon": 1 << 22, "file": 1 << 22, "sparse": 1 << 24, "map": 1 << 60, "vector": 1 << 60}
STATIC = {"SPARSE": ("sparse", "sparse"), "VECTOR": ("vector", "map"), "ANON": ("anon", "sparse")}

def make(rng, pos, neg, direct, huge):
    kp, kn = (STATIC[pos] if pos in STATIC else (pos, neg))
    g = model.Gen(rng, plain_text=True, undef_pos=False, empty_keys=False)
    ids = []
    base = rng.choice([0, 1, 5, 100, 19000])
    for _ in range(rng.choice([1, 4, 30, 200])):
        r = rng.random(); neg_ = rng.random() < .4
        lim = LIM[kn if neg_ else kp]
        v = base + rng.randint(0, 60) if r < .6 else rng.randint(0, 70000) if r < .8 else rng.randint(0, lim)
        if r > .97: v = rng.choice([0, 1, 9999, 10000, 10001, 2**31 - 1, 2**31, 2**32, 2**32 + 1, 2**40])
        v = min(v, lim)
        ids.append(-v if neg_ else v)
    def miss(i):
        return (kn if i < 0 else kp) in TELLS
    seen = {}
    seq = []
    def node(i):
        n = g.obj("n", i); n.visible = rng.random() > .1; seen[i] = (n.x, n.y); seq.append(n)
        if rng.random() < .03: n.x = n.y = model.UNDEF; seen[i] = (model.UNDEF, model.UNDEF)
    def way():
        w = g.obj("w"); w.refs = []; w.refpos = []
        n = rng.choice([0, 1, 2, 2, 5, 30]) if not huge else huge.pop()
        for _ in range(n):
            r = rng.random()
            i = rng.choice(ids) if r < .9 else rng.choice(ids) * rng.choice([1, -1]) + rng.randint(-1, 1)
            if r > .97: i = rng.choice([0, 1, -1, 2**40, -2**40, 2**32, 70001, -70001, 20000, -20000])
            if i not in seen and not miss(i):
                if not seen: continue
                i = rng.choice(list(seen))
            w.refs.append(i); w.refpos.append(seen.get(i, (model.UNDEF, model.UNDEF)))
        if w.refs and rng.random() < .3: w.refs.append(w.refs[0]); w.refpos.append(w.refpos[0])
        seq.append(w)
    order = rng.choice(["nw", "nw", "mixed", "wnw"])
    need_sorted = "vector" in (kp, kn)
    if order == "mixed":
        if need_sorted: ids.sort(key=abs)
        for i in ids:
            node(i)
            while rng.random() < .4: way()
    else:
        if order == "wnw":
            for _ in range(3): way()
        k = list(ids)
        if rng.random() < .5 or need_sorted: k.sort(key=abs)
        for i in k: node(i)
        for _ in range(rng.choice([1, 5, 40])): way()
    return seq, seen

def check(ctx):
    exe, plain = vp.build_many([dict(src="harness/h12.cpp"), dict(src="harness/h12.cpp", variant="plain")])
    rng = ctx.rng
    ctx.rule = ("all 36 combinations of 6 stores for positive and negative ids plus statically typed ones; sequences nodes-then-ways, mixed, "
                "ways first; repeated ids with changing positions, id 0, ids near store limits and up to 2^60 in maps, unset positions, "
                "missing nodes where the store can tell; fed directly and from XML files. Non-trivial: a way with a node.")
    ctx.assumptions = ["mapped, fixed and map stores are not asked for ids never set (documented as unchecked)", "Vector is filled in ascending id order as documented"]
    jobs = []; exps = []; fs = []
    n = ctx.n(600, 20000)
    for i in range(n):
        pos, neg = KINDS[i % 6], KINDS[i // 6 % 6]
        if rng.random() < .15: pos = rng.choice(list(STATIC))
        direct = rng.random() < .6
        huge = [rng.randint(65537, 67000)] if i % 150 == 77 else []; seq, seen = make(rng, pos, neg, direct, huge)
        h = cases.rand_header(rng, "osm", gen=False)
        p = os.path.join(ctx.tmp, "m%d" % i)
        plainway = []
        for o in seq:
            o = o.copy() if not isinstance(o, model.Obj) else o
            c = o.copy(); c.refpos = None
            if o.t == "w" and direct and rng.random() < .3: c.refpos = [(rng.randint(-9, 9), 7) for _ in c.refs]     # positions of before are replaced
            plainway.append(c)
        if direct:
            lines = [h.line()] + [o.line() for o in plainway]
            cases.write(p, ("\n".join(lines) + "\n").encode()); src = "m:" + p
            exp = [h.line()] + [o.line() for o in seq]
        else:
            data, back = xmlio.XmlWriter(rng, "random").document(h, plainway, "osm")
            cases.write(p, data); src = "f:osm:xml:" + p
            for b, o in zip(back, seq): b.refpos = o.refpos
            # positions as written to the file
            exp = model.trace(h, back)
        for o in seq:
            if o.t == "w":
                for r in o.refs: exp.append("G %d %d %d" % ((r,) + seen.get(r, (model.UNDEF, model.UNDEF))))
        jobs.append("coords %s %s %s" % (pos, neg, src)); exps.append(exp); fs.append(p)
        ctx.case(jobs[-1] .replace(ctx.tmp, "")+ str(len(seq)), any(o.t == "w" and o.refs for o in seq), {"stores": [pos, neg], "objects": len(seq)})
        ctx.count("way nodes", sum(len(o.refs) for o in seq if o.t == "w")); ctx.count("nodes", sum(o.t == "n" for o in seq))
        ctx.count("way nodes without node", sum(p == (model.UNDEF, model.UNDEF) for o in seq if o.t == "w" for p in o.refpos))
        ctx.count("pair %s" % pos)
    k = len(jobs) // 2
    res = server.parallel(exe, jobs[:k], batch=40, timeout=240) + server.parallel(plain, jobs[k:], batch=100, timeout=240)
    for j, e, p, r in zip(jobs, exps, fs, res):
        w = j.split(" ")
        cases.report(ctx, " ".join(w[:3]), e, r, {"input": open(p, "rb").read(), "job.txt": j}, "%s:" % w[1])
