"""P29: directed and undirected segments."""
import vp, cases, server

TECHNIQUE = "runtime monitoring: ASan+UBSan build, every comparison, sorted sequence and set of segments checked against tuples"
NOTE = "Random families of segments with shared, equal, reversed and degenerate members over few and over extreme coordinates. Sampling."
U = 2147483647

def family(rng):
    m = rng.choice([1, 2, 5, 1800000000, U - 1]); X, Y = (U - 1, U - 1) if m == U - 1 else (1800000000, 900000000); n = rng.choice([0, 1, 2, 3, 5, 8, 20])
    def c(lim): return rng.choice([lim, -lim, 0, 1, -1]) if m > 5 and rng.random() < .3 else rng.randint(-min(m, lim), min(m, lim))
    pool = [(c(X), c(Y)) for _ in range(rng.choice([1, 2, 4, 40]))]
    def p(): return rng.choice(pool) if rng.random() < .8 else (rng.choice(pool)[0], c(Y)) if rng.random() < .5 else (c(X), c(Y))
    r = []
    for _ in range(n):
        q = rng.random()
        if r and q < .2: r.append(rng.choice(r))
        elif r and q < .4: r.append(rng.choice(r)[::-1])
        elif q < .5: x = p(); r.append((x, x))
        else: r.append((p(), p()))
    return r

def check(ctx):
    exe, = vp.build_many([dict(src="harness/h29.cpp")])
    rng = ctx.rng; jobs, want = [], []
    ctx.rule = "families of 0..20 segments between few or many, small or extreme positions, with equal, reversed and degenerate ones. Non-trivial: two segments with the same ends."
    ctx.assumptions = ["all positions are defined (their order is not specified otherwise)"]
    f = lambda s: "%d:%d:%d:%d" % (s[0] + s[1]); show = lambda n, l: n + "".join(" " + f(s) for s in l)
    for i in range(ctx.n(20000, 600000)):
        d = family(rng); u = [tuple(sorted(s)) for s in d]; s = sorted(u)
        e = "".join(str((a == b) + 2 * (a != b) + 4 * (x == y)) for a, x in zip(d, u) for b, y in zip(d, u))
        l = "".join("%d%d" % ((x < y) + 2 * (x > y) + 4 * (x <= y), x >= y) for x in u for y in u)
        jobs.append("seg" + (" " + ",".join(map(f, d)) if d else "")); want.append([show("D", d), show("U", u), "E " + e, "L " + l, show("S", s), show("G", s[::-1]), show("T", sorted(set(u))), "N" + "".join(" %d" % u.count(x) for x in u)])
        ctx.case(jobs[-1], len(set(u)) < len(u), {"segments": d} if i < 3 else None); ctx.count("families"); ctx.count("comparisons", len(d) ** 2); ctx.count("reversed pairs", sum(a == b[::-1] and a != b for n, a in enumerate(d) for b in d[:n])); ctx.count("degenerate segments", sum(a == b for a, b in d))
    for j, w, r in zip(jobs, want, server.parallel(exe, jobs, batch=3000, timeout=240)):
        if r.crash or r.end != "ok": cases.report(ctx, j[:300], [], r, {"job.txt": j}, "segments:"); continue
        if r.lines != w:
            k = next((k for k, (a, b) in enumerate(zip(r.lines, w)) if a != b), min(len(r.lines), len(w)))
            ctx.violation({0: "ends", 1: "undirected-ends", 2: "equality", 3: "order", 4: "sort", 5: "sort-descending", 6: "set", 7: "multiset"}.get(k, "copy"), "%s: %s instead of %s" % (j[:300], r.lines[k:k + 1], w[k:k + 1]), {"job.txt": j, "got.txt": "\n".join(r.lines)})
