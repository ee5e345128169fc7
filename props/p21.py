"""P21: fixed-point positions, bounding boxes."""
import os, re
from decimal import Decimal
import vp, model, cases, server, p20
from p05 import first_file, suffix, ENC

TECHNIQUE = "runtime monitoring: ASan+UBSan build, positions and boxes checked against exact decimal arithmetic; find_bbox tool output against its input"
NOTE = "Random and extreme coordinates (7 decimals, many decimals, next to ties), sequences of positions incl. undefined ones, files for the bounding box handler and tool. Sampling."
U = 2147483647
INT = lambda c: int(c.to_integral_value(rounding="ROUND_HALF_UP"))

def fixed(f):
    """allowed fixed-point values of a double"""
    d = Decimal(f) * 10000000
    lo = int(d.to_integral_value(rounding="ROUND_FLOOR")); fr = d - lo
    if abs(fr - Decimal("0.5")) < Decimal("1e-6"): return {lo, lo + 1}
    return {lo if fr < Decimal("0.5") else lo + 1}

def c7(rng, m):
    r = rng.random()
    if r < .2: return rng.choice([0, 1, -1, m, -m, m - 1, 1 - m, 10000000, 9999999, 10000001, 5, -5, m // 10])
    if r < .4: return rng.randint(-20, 20) * 10 ** rng.randint(0, 7)
    return rng.randint(-m, m)

def value(rng, m):
    """(hex double, allowed fixed point values)"""
    x = c7(rng, m); r = rng.random()
    if r < .6:      # at most seven decimals
        f = float(model_dec(x)); return f, {x}
    if r < .7:      # just above and below the middle between two values
        k = rng.choice([-1, 1]) * rng.randint(2, 500000) / 10**7 + .5 if rng.random() < .7 else .5 + rng.choice([-1, 1]) * 10**-rng.randint(1, 5)
        f = (min(max(x, -m + 1), m - 1) + k) / 1e7; return f, fixed(f)
    if r < .8: x10 = x * 1000 + rng.choice([1, -1, 499, -499, 250, 123, -321]); f = float(Decimal(x10) / 10**10); return f, fixed(f)
    f = rng.uniform(-m / 1e7, m / 1e7); return f, fixed(f)
def model_dec(x): return "%s%d.%07d" % ("-" if x < 0 else "", abs(x) // 10**7, abs(x) % 10**7)

def judge_pos(job, vx, vy, lines):
    L = {}
    for l in lines: f = l.split(" "); L[f[0]] = (int(f[1]), int(f[2]), int(f[3]), float.fromhex(f[4]), float.fromhex(f[5]))
    if L["U"][:3] != (U, U, 0): return "unset position: %s" % (L["U"],)
    x, y = L["A"][:2]
    if x not in vx or y not in vy: return "position (%d,%d), allowed %s %s" % (x, y, vx, vy)
    if L["X"][:3] != (x, U, 0): return "position with only longitude set: %s" % (L["X"],)
    for k in "ABCDE":
        if L[k][:3] != (x, y, 1): return "%s: %s" % (k, L[k])
        for g, w in zip(L[k][3:], (x, y)):
            if abs(Decimal(g) * 10000000 - w) > Decimal("0.00001"): return "reads back as %r" % g

def sequence(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 20]); pu = rng.choice([0, 0, .1, .5, 1])
    small = rng.random() < .3
    return ["u" if rng.random() < pu else (rng.randint(-2, 2), rng.randint(-2, 2)) if small else (c7(rng, 1800000000), c7(rng, 900000000)) for _ in range(n)]

def box(ps):
    p = [q for q in ps if q != "u"]
    if not p: return None
    return min(q[0] for q in p), min(q[1] for q in p), max(q[0] for q in p), max(q[1] for q in p)

def check(ctx):
    exe, lib, tool, toolp = vp.build_many([p20.spec(), dict(src="harness/hbbox.cpp", variant="plain"), dict(src=vp.REPO + "/examples/osmium_find_bbox.cpp"), dict(src=vp.REPO + "/examples/osmium_find_bbox.cpp", variant="plain")])
    rng = ctx.rng
    ctx.rule = ("coordinates with at most seven and with more decimals, pairs of positions, sequences of positions with undefined ones in any place, files of all "
                "encodings. Non-trivial: a value needing all decimals, a sequence with at least two different defined positions.")
    ctx.assumptions = ["ties between two 1e-7 steps (to within the precision of a double) may go either way", "positions with one coordinate at the mark for undefined are not compared by order"]
    jobs, meta = [], []
    for i in range(ctx.n(20000, 600000)):
        (a, va), (b, vb) = value(rng, 1800000000), value(rng, 900000000)
        jobs.append("pos %s %s" % (a.hex(), b.hex())); meta.append(("pos", va, vb)); ctx.case(jobs[-1], True, {"lon": a, "lat": b} if i < 2 else None); ctx.count("positions")
    for i in range(ctx.n(8000, 200000)):
        p, q = (c7(rng, 1800000000), c7(rng, 900000000)), (c7(rng, 1800000000), c7(rng, 900000000))
        if rng.random() < .4: q = (p[0], q[1])
        if rng.random() < .2: q = p
        jobs.append("cmp %d %d %d %d" % (p + q)); meta.append(("cmp", "C %d %d %d %d %d %d" % (p == q, p != q, p < q, p > q, p <= q, p >= q))); ctx.count("comparisons"); ctx.case(jobs[-1], p != q)
    for i in range(ctx.n(15000, 400000)):
        s = sequence(rng); t = lambda n, b: n + (" undefined" if b is None else " %d %d %d %d" % b)
        e = [t("B0", None)] + ([t("M", box(s[:len(s) // 2]))] if len(s) > 1 else []) + [t("B", box(s)), t("H", box(s))]
        jobs.append("bounds " + (",".join("u" if p == "u" else "%d:%d" % p for p in s) or "-")); meta.append(("bounds", e))
        ctx.case(jobs[-1], len(set(s) - {"u"}) > 1, {"sequence": s, "box": box(s)} if i < 2 else None)
        ctx.count("sequences"); ctx.count("sequences with undefined positions", "u" in s)
    for j, m, r in zip(jobs, meta, server.parallel(exe, jobs, batch=2000, timeout=240)):
        if r.crash or r.end != "ok": cases.report(ctx, j[:300], [], r, {"job.txt": j}, m[0] + ":"); continue
        if m[0] == "pos": e = judge_pos(j, m[1], m[2], r.lines)
        elif m[0] == "cmp": e = None if r.lines == [m[1]] else "expected %s" % m[1]
        else: e = None if r.lines == m[1] else "expected %s" % m[1]
        if e: ctx.violation(m[0], "%s: %s: %s" % (j[:200], e, r.lines), {"job.txt": j, "got.txt": "\n".join(r.lines)})
    # files
    for i in range(ctx.n(60, 1000)):
        p = os.path.join(ctx.tmp, "b%d" % i); enc = rng.choice(ENC); p += suffix("osm", enc)
        g = model.Gen(rng, meta=rng.choice([0, 1]))
        objs = first_file(rng, p, "osm", enc, cases.rand_header(rng, "osm"), g.objs(rng.choice([0, 3, 20, 200])))
        want = box(["u" if o.x == U or o.y == U else (o.x, o.y) for o in objs if o.t == "n"])
        r = vp.run_confirm([tool if i % 4 == 0 else toolp, p], timeout=120, env=vp.KEEP); ctx.count("find_bbox runs"); ctx.case("f%d%s" % (i, want), want is not None)
        if r.crashed or r.timed_out or r.rc != 0: ctx.violation("find_bbox:" + r.crash_key(), "find_bbox %s: rc %s %s" % (p, r.rc, r.err[-500:]), {os.path.basename(p): open(p, "rb").read()}); continue
        r2 = vp.run_confirm([lib, p], timeout=120, env=vp.KEEP); ctx.count("boxes of files found by the library")
        w2 = b"undefined\n" if want is None else ("%d %d %d %d\n" % tuple(want)).encode()
        if r2.rc != 0 or r2.out != w2: ctx.violation("findbox-library", "FindBbox on %s gives %s %s, the nodes are in %s" % (p, r2.rc, r2.out, want), {os.path.basename(p): open(p, "rb").read()})
        if want is None: continue       # there is no box, what is printed then is not specified
        m = re.fullmatch(rb"minlon=(\S+) minlat=(\S+) maxlon=(\S+) maxlat=(\S+)\s*", r.out)
        got = tuple(Decimal(x.decode()) * 10000000 for x in m.groups()) if m else None
        if not m or any(abs(a - b) >= Decimal("0.5") for a, b in zip(got, want)):
            # six significant digits only: known finding, anything else is not
            six = b"minlon=%s minlat=%s maxlon=%s maxlat=%s" % tuple(("%g" % (x / 1e7)).encode() for x in want)
            ctx.violation("find_bbox-tool-six-digits" if r.out.strip() == six else "find_bbox", "find_bbox prints %s, the nodes are in %s" % (r.out, want), {os.path.basename(p): open(p, "rb").read()})
