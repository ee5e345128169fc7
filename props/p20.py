"""P20: haversine distances against a quad-precision great circle."""
import math
import vp, cases, server

TECHNIQUE = "runtime monitoring: UBSan+ASan build, distances checked online against a quad-precision vector formula and the metric laws"
NOTE = "Random and extreme position pairs (equal, 1e-7 apart, poles, date line, antipodes and near-antipodes) and node lists. Sampling."
R = 6372797.560856

def pair(rng):
    def c(m): return rng.choice([0, 1, -1, m, -m, m - 1, 1 - m, m // 2, -m // 2]) if rng.random() < .3 else rng.randint(-m, m)
    x, y = c(1800000000), c(900000000)
    r = rng.random()
    if r < .1: return x, y, x, y
    if r < .3: return x, y, max(-1800000000, min(1800000000, x + rng.randint(-3, 3))), max(-900000000, min(900000000, y + rng.randint(-3, 3)))
    if r < .4: d = 10 ** rng.randint(1, 8); return x, y, max(-1800000000, min(1800000000, x + rng.randint(-d, d))), max(-900000000, min(900000000, y + rng.randint(-d, d)))
    if r < .7:
        d = rng.choice([0, 0, 1, 2, 10, 1000, 10**6])
        ax = x - 1800000000 if x > 0 else x + 1800000000
        return x, y, max(-1800000000, min(1800000000, ax + rng.randint(-d, d))), max(-900000000, min(900000000, -y + rng.randint(-d, d)))
    if r < .75: return 1800000000, y, -1800000000, y
    if r < .8: return x, rng.choice([1, -1]) * 900000000, c(1800000000), rng.choice([1, -1]) * 900000000
    return x, y, c(1800000000), c(900000000)

def tol(d):
    """numerical precision of the distance: the formula is ill-conditioned near the antipode"""
    s = math.cos(min(math.pi / 2, d / R / 2))
    return 1e-6 + 1e-9 * d + R * min(1e-14 / max(s, 1e-300), 3e-7)

def spec(): return dict(src="harness/h20.cpp", libs=["-lquadmath"])

def check(ctx):
    exe, = vp.build_many([spec()])
    rng = ctx.rng
    ctx.rule = "pairs of valid positions incl. equal, neighbouring, polar, date line, (near-)antipodal ones; node lists of 0..300 nodes with distinct, equal, zero and negative ids. Non-trivial: two different positions."
    ctx.assumptions = ["the earth is a sphere of the documented radius 6372797.560856 m"]
    jobs = []
    for i in range(ctx.n(60000, 1500000)):
        p = pair(rng); jobs.append("dist %d %d %d %d" % p)
    for i in range(ctx.n(4000, 100000)):
        n = rng.choice([0, 1, 2, 2, 3, 5, 10]) if rng.random() < .97 else 300
        if i in (50, 51): n = rng.randint(65537, 67000)
        pts = []
        for _ in range(n):
            if pts and rng.random() < .3: pts.append(pts[-1])
            else: a = pair(rng); pts.append(rng.choice([a[:2], a[2:]]))
        jobs.append("len %s %d" % (",".join("%d:%d" % p for p in pts) or "-", rng.choice([0, 0, 1, 2, 3, 3, 4])))
    worst = 0
    for i, (j, r) in enumerate(zip(jobs, server.parallel(exe, jobs, batch=2000, timeout=240))):
        a = j.split(" ")
        ctx.case(j, (a[0] == "dist" and a[1:3] != a[3:5]) or (a[0] == "len" and "," in a[1]), {"job": j, "got": r.lines} if i < 4 else None)
        ctx.count(a[0])
        if r.crash or r.end != "ok" or len(r.lines) != 1: cases.report(ctx, j[:300], [], r, {"job.txt": j}, a[0] + ":"); continue
        v = [float.fromhex(x) if x not in ("nan", "-nan", "inf", "-inf") else float("nan") for x in r.lines[0].split(" ")[1:]]
        e = None
        if any(x != x for x in v): e = "not a number"
        elif a[0] == "dist":
            d, b, c, z, ref = v
            if z != 0 or (a[1:3] == a[3:5] and d != 0): e = "distance to itself"
            elif abs(d - b) > 1e-9 + 1e-12 * d: e = "not symmetric"
            elif abs(d - c) > 1e-9 + 1e-12 * d: e = "position and coordinate versions differ"
            elif d < 0 or d > math.pi * R * (1 + 1e-12): e = "more than half the circumference"
            elif abs(d - ref) > tol(ref): e = "not the great circle distance %.9f" % ref
            else: worst = max(worst, abs(d - ref) / tol(ref))
            if d > 2e7: ctx.count("near-antipodal pairs")
            elif 0 < d < 1: ctx.count("pairs less than 1 m apart")
        else:
            d, ref = v; n = 0 if a[1] == "-" else a[1].count(",") + 1
            if n < 2 and d != 0: e = "length of less than two nodes"
            elif abs(d - ref) > tolsum(a[1]): e = "not the sum of the distances %.9f" % ref
        if e: ctx.violation(e.split(" 1")[0][:30], "%s: %s: %s" % (j[:200], e, r.lines[0]), {"job.txt": j, "got.txt": r.lines[0]})
    ctx.count("largest deviation in percent of tolerance", int(worst * 100))

def tolsum(s):
    if s == "-": return 0
    p = [tuple(int(c) / 1e7 for c in x.split(":")) for x in s.split(",")]
    t = 0
    for (x1, y1), (x2, y2) in zip(p, p[1:]):
        # rough distance, only for the tolerance
        u = [math.cos(math.radians(y1)) * math.cos(math.radians(x1)), math.cos(math.radians(y1)) * math.sin(math.radians(x1)), math.sin(math.radians(y1))]
        v = [math.cos(math.radians(y2)) * math.cos(math.radians(x2)), math.cos(math.radians(y2)) * math.sin(math.radians(x2)), math.sin(math.radians(y2))]
        t += 2 * tol(R * math.acos(max(-1, min(1, sum(a * b for a, b in zip(u, v))))))
    return t
