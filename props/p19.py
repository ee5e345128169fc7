"""P19: geometries against independent WKT/WKB parsers and the coordinates they were made from."""
import re, struct
from decimal import Decimal
import vp, model, cases, server

TECHNIQUE = "runtime monitoring: ASan+UBSan build, WKT/WKB/hex/OGR/GEOS geometries parsed back and compared with the positions they were made from"
NOTE = ("Random positions and way node lists (incl. extreme, tiny, equal, undefined positions, empty and one-node ways, long ways), all formats, reversal, SRID, "
        "stream states. GEOS objects through a stand-in for its old C++ interface. Sampling.")

def unesc(s): return re.sub(rb"%([0-9A-F]{2})", lambda x: bytes([int(x.group(1), 16)]), s.encode("latin-1"))

def parse_wkt(s):
    srid = None
    if s.startswith("SRID="): srid, s = s[5:].split(";", 1); srid = int(srid)
    m = re.fullmatch(r"(POINT|LINESTRING|POLYGON) ?(?:EMPTY|(\(.*\)))", s)
    if not m: raise ValueError("not WKT")
    t, body = m.groups(); t = {"POINT": 1, "LINESTRING": 2, "POLYGON": 3}[t]
    if body is None: return srid, t, []
    b = body[1:-1]
    if t == 3:
        if not (b.startswith("(") and b.endswith(")")): raise ValueError("ring expected")
        b = b[1:-1]
    if not b: return srid, t, []
    pts = []
    for p in b.split(","):
        xy = p.split(" ")
        if len(xy) != 2 or not all(re.fullmatch(r"[+-]?\d+(\.\d*)?([eE][+-]?\d+)?", c) for c in xy): raise ValueError("bad point %r" % p)
        pts.append(tuple(Decimal(c) for c in xy))
    return srid, t, pts

def parse_wkb(b):
    if len(b) < 5: raise ValueError("too short")
    e = {0: ">", 1: "<"}[b[0]]; p = 1
    def u32():
        nonlocal p
        v, = struct.unpack_from(e + "I", b, p); p += 4; return v
    def pts(n):
        nonlocal p
        o = []
        if n * 16 > len(b) - p: raise ValueError("too short")
        for _ in range(n): o.append(struct.unpack_from(e + "dd", b, p)); p += 16
        return o
    t = u32(); srid = None
    if t & 0x20000000: srid = u32(); t &= ~0x20000000
    if t == 1: r = pts(1)
    elif t == 2: r = pts(u32())
    elif t == 3:
        n = u32()
        if n != 1: raise ValueError("%d rings" % n)
        r = pts(u32())
    else: raise ValueError("type %d" % t)
    if p != len(b): raise ValueError("%d bytes left" % (len(b) - p))
    return srid, t, r

def near(got, want):
    """got points equal to the fixed-point positions, to less than half a unit"""
    if len(got) != len(want): return "%d points instead of %d" % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        for a, b in zip(g, w):
            d = abs((a if isinstance(a, Decimal) else Decimal(a)) * 10000000 - b)
            if not d < (Decimal("0.5") if isinstance(a, Decimal) else Decimal("0.001")): return "point %d is %s instead of %s e-7" % (i, g, w)
    return None

EDGE = [0, 1, -1, 9, 10, 99, 12345678, 1800000000, -1800000000, 900000000, -900000000, 1799999999, 1234567, 100000000, 999999999, 1000000001, -1000000001, 2147483647, -2147483648, 10000000, -9999999, 100000, 123456]
def coord(rng):
    r = rng.random()
    if r < .35: return rng.choice(EDGE)
    if r < .5: return rng.randint(-180, 180) * 10000000 + rng.randint(-3, 3)
    if r < .6: return rng.randint(-1000, 1000)
    return rng.randint(-1800000000, 1800000000)

def judge(ctx, job, lines):
    k, rev, srid, id_, f, pos = job.split(" ")[1:]
    P = [] if pos == "-" else [tuple(int(x) for x in p.split(":")) for p in pos.split(",")]
    want = [p[:2] for p in P]
    if rev == "1" and "point" not in k: want = want[::-1]
    if k == "null": return None if [x for x in lines if not x.startswith("WKT2")] == ["WKT ", "WKB ", "HEX ", "ID 0"] and all(x in ("WKT2 ;0.123457", "WKT ", "WKB ", "HEX ", "ID 0") for x in lines) else "no geometry writes %r" % lines
    T = {"p": 1, "l": 2}[k[0]] if not k.startswith("poly") else 3
    closed = bool(P) and P[0][2] == P[-1][2]
    L = {}
    for l in lines: a, _, b = l.partition(" "); L.setdefault(a, []).append(b)
    if T != 1:
        if L.pop("CLOSED", None) != ["%d %d" % (closed, closed)]: return "closed flag: %s" % lines[-1]
    if T == 3 and not closed:
        return None if set(L) == {"RingNotClosed"} else "way is not closed, but got %s" % ";".join(lines)[:300]
    if T == 1 and L.pop("POS", None) != ["%d %d" % want[0]]: return "wrong position"
    if L.pop("ID", None) != [id_]: return "wrong id"
    wsrid = 4326 if srid == "1" else None
    try:
        wkt = unesc(L.pop("WKT")[0]).decode(); s, t, pts = parse_wkt(wkt)
        if (s, t) != (wsrid, T): return "WKT type or SRID: %s" % wkt[:200]
        e = near(pts, want)
        if e: return "WKT %s: %s" % (e, wkt[:300])
        if f == "twice":
            two = unesc(L.pop("WKT2")[0]).decode()
            if not two.startswith(wkt + ";" + wkt): return "second WKT on the same stream differs: %s" % two[:300]
        wkb = unesc(L.pop("WKB")[0]); s, t, pts = parse_wkb(wkb)
        if (s, t) != (wsrid, T): return "WKB type or SRID: %s" % wkb[:20].hex()
        e = near(pts, want)
        if e: return "WKB " + e
        hx = unesc(L.pop("HEX")[0])
        if bytes.fromhex(hx.decode()) != wkb: return "hex WKB does not encode the WKB"
    except (ValueError, KeyError, struct.error) as ex: return "unreadable: %r" % ex
    for lib in ("OGR", "GEOS"):
        if lib not in L:
            if lib == "GEOS": continue
            return "no OGR geometry"
        v = L.pop(lib)[0].split(" ")
        if int(v[0]) != T: return "%s type %s" % (lib, v[0])
        v = v[1:]
        if T == 3 and v.pop() != "0": return lib + " polygon has inner rings"
        c = [float.fromhex(x) for x in v]
        e = near(list(zip(c[::2], c[1::2])), want)
        if e: return "%s %s" % (lib, e)
    return "unexpected output: %s" % L if L else None

def spec():
    cf, lf = vp.gdal_flags()
    return dict(src="harness/h19.cpp", flags=["-I" + vp.VERIF + "/harness/geosold"] + cf, libs=lf + ["-lgeos_c"])

def check(ctx):
    exe, = vp.build_many([spec()])
    rng = ctx.rng
    ctx.rule = ("points, linestrings, polygons from positions, nodes, node lists, ways x 0..2000 nodes x reversal x SRID x stream states, every output format. "
                "Non-trivial: a geometry with at least one coordinate that needs all 7 decimals.")
    jobs = []
    for i in range(ctx.n(5000, 120000)):
        k = rng.choice(["point", "pointnode", "line", "lineway", "poly", "polyway"] + ["null"] * (i % 50 == 7))
        n = 1 if k.startswith("point") else rng.choice([0, 1, 2, 3, 4, 5, 7, 12, 40]) if rng.random() < .98 else rng.choice([200, 2000])
        if i in (50, 51, 52, 53): k = ["line", "lineway", "poly", "polyway"][i - 50]; n = rng.randint(65537, 67000)
        refs = [rng.choice([1, 2, 3, -1, 10**12, rng.randint(-2**62, 2**62)]) if rng.random() < .3 else j + 1 for j in range(n)]
        P = [(coord(rng), coord(rng)) for _ in range(n)]
        if n > 1 and rng.random() < .3: j = rng.randrange(1, n); P[j] = P[j - 1]
        if k.startswith("poly") and n and rng.random() < .85: refs[-1] = refs[0]; P[-1] = P[0] if rng.random() < .9 else P[-1]
        f = rng.choice(["-", "-", "fixed", "sci", "prec", "hex", "twice"])
        jobs.append("geom %s %d %d %d %s %s" % (k, rng.random() < .5, rng.random() < .5, rng.choice([0, 1, -1, 2**40, -2**62, i]), f, ",".join("%d:%d:%d" % (p + (r,)) for p, r in zip(P, refs)) or "-"))
        ctx.case(jobs[-1], any(c % 10 for p in P for c in p), {"job": jobs[-1][:200]} if i < 6 else None)
        ctx.count("geometries " + k)
    for j, r in zip(jobs, server.parallel(exe, jobs, batch=400, timeout=240)):
        if r.crash or r.end != "ok": cases.report(ctx, j[:300], [], r, {"job.txt": j}, j.split(" ")[1] + ":"); continue
        e = judge(ctx, j, r.lines)
        if "RingNotClosed" in r.lines: ctx.count("polygons refused")
        if e: ctx.violation(re.sub(r"[0-9.e-]+|\(.*", "N", e)[:40] + "@" + j.split(" ")[1], "%s: %s" % (j[:300], e), {"job.txt": j, "got.txt": "\n".join(r.lines)})
