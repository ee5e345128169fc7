"""P31: the programs which come with the library, from file to output."""
import os, re, struct, zlib
import vp, model, cases, p25, p27, p18
from concurrent.futures import ThreadPoolExecutor
from collections import Counter
from p05 import first_file, suffix

TECHNIQUE = "runtime monitoring: the example programs built with ASan+UBSan run on random files; what they print, draw, export or send to a recording stand-in for a data source is compared with the file"
NOTE = ("osmium_time, nodedensity (PNG decoded), osmium_toshape (shapefiles parsed), osmium_toogr, osmium_toogr2, osmium_to_postgis (stand-in for the data source classes of old OGR, everything they "
        "are given is recorded) and osmium_mpdump on random files of all encodings. Sampling.")

def read_png(b):
    """(width, height, rows of gray values)"""
    if b[:8] != b"\x89PNG\r\n\x1a\n": raise ValueError("signature")
    p = 8; ch = []
    while p < len(b):
        n, = struct.unpack(">I", b[p:p + 4]); t, d = b[p + 4:p + 8], b[p + 8:p + 8 + n]
        if struct.unpack(">I", b[p + 8 + n:p + 12 + n])[0] != zlib.crc32(t + d): raise ValueError("checksum")
        ch.append((t, d)); p += 12 + n
    w, h, depth, color, _, _, lace = struct.unpack(">IIBBBBB", ch[0][1])
    if color != 3 or lace: raise ValueError("colour type %d" % color)
    pal = next(d for t, d in ch if t == b"PLTE"); raw = zlib.decompress(b"".join(d for t, d in ch if t == b"IDAT")); st = (w * depth + 7) // 8; prev = bytearray(st); rows = []
    for y in range(h):
        f = raw[y * (st + 1)]; l = bytearray(raw[y * (st + 1) + 1:(y + 1) * (st + 1)])
        for i in range(st):
            a, u, c = l[i - 1] if i else 0, prev[i], prev[i - 1] if i else 0
            if f == 1: l[i] = l[i] + a & 255
            elif f == 2: l[i] = l[i] + u & 255
            elif f == 3: l[i] = l[i] + (a + u) // 2 & 255
            elif f == 4: q = a + u - c; k = min((abs(q - a), 0, a), (abs(q - u), 1, u), (abs(q - c), 2, c))[2]; l[i] = l[i] + k & 255
        prev = l; ix = list(l) if depth == 8 else [l[x * depth // 8] >> (8 - depth - x * depth % 8) & (1 << depth) - 1 for x in range(w)]
        rows.append([pal[3 * i] if pal[3 * i] == pal[3 * i + 1] == pal[3 * i + 2] else -1 for i in ix])
    return w, h, rows

def world(rng, neg=True):
    """nodes with positions, ways over them"""
    g = model.Gen(rng, meta=1, undef_pos=False); ids = rng.sample(range(1, 60), rng.choice([0, 1, 5, 20, 40])); ids = [i * (rng.choice([1, 1, 2**20]) if i < 50 else 1) * (rng.choice([1, 1, -1]) if neg else 1) for i in ids]
    nodes, pos = [], {}
    for i in sorted(ids, key=lambda i: (abs(i), i)):
        o = g.obj("n", i); pos[i] = (o.x, o.y) = (p25.c(rng), p25.c(rng) // 2); o.visible = True; nodes.append(o)
        if rng.random() < .2 and nodes: k = rng.choice(nodes); pos[i] = (o.x, o.y) = (k.x + rng.choice([0, 0, 1]) if k.x < 10**9 else k.x, k.y)
    ways = []
    for i in range(rng.choice([0, 1, 5, 15]) if ids else 0):
        o = g.obj("w", i + 1); o.visible = True; o.refs = [rng.choice(ids) for _ in range(rng.choice([0, 1, 2, 3, 5, 30]))]
        if o.refs and rng.random() < .2: o.refs[1:] = [o.refs[0]] * rng.choice([1, 3])
        ways.append(o)
    rels = []
    for i in range(rng.choice([0, 0, 3])): o = g.obj("r", i + 1); o.visible = True; rels.append(o)
    for o in nodes + ways + rels:
        d = dict(o.tags)
        for k, v, q in (("amenity", ["post_box", "post_box", "post_boxx", "Post_box", "cafe", ""], .5), ("operator", ["Royal Mail", "ÄÖÜ" * 12, "x" * 40, "a b=%\"\\'\n,", "€" * 11], .4), ("highway", ["primary", "", "ß" * 20, "road"], .6), ("created_by", ["JOSM"], .2), ("odbl", ["clean"], .2), ("odbl:note", ["x"], .1)):
            if rng.random() < q: d[k] = rng.choice(v)
            else: d.pop(k, None)
        o.tags = rng.sample(list(d.items()), len(d))
        if rng.random() < .1: o.tags = []
    return nodes, ways, rels, pos

def put(ctx, rng, name, objs, files):
    enc = rng.choice(["xml", "xml", "gz", "bz2", "xml", "gz", "bz2", "pbf"]); p = os.path.join(ctx.tmp, name + suffix("osm", enc))
    objs = first_file(rng, p, "osm", enc, cases.rand_header(rng, "osm"), objs); files[os.path.basename(p)] = open(p, "rb").read(); return p, objs

def esc(s): return "".join("%%%02x" % b if b <= 32 or b in b"%=" or b == 127 else chr(b) for b in s.encode()).encode("latin-1")
def pts(l): return b"".join(b" %.17g,%.17g" % (x / 1e7, y / 1e7) for x, y in l)
def tag(o, k): return next((v for a, v in o.tags if a == k), None)
def first_diff(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b))); return "line %d is %r instead of %r" % (k, a[k:k + 1], b[k:k + 1])

def t_time(ctx, rng, run, i, files):
    nodes, ways, rels, pos = world(rng); p, objs = put(ctx, rng, "t%d" % i, nodes + ways + rels, files)
    r = run("osmium_time", [p]); c = Counter(o.t for o in objs); ctx.count("objects counted", len(objs))
    if not re.match(rb"nodes: %d  ways: %d  relations: %d\n" % (c["n"], c["w"], c["r"]), r.out): return "counts", "prints %r for %s" % (r.out[:100], dict(c))

def t_density(ctx, rng, run, i, files):
    """size, minimum and maximum; sizes are multiples of 180 (the scale is in whole pixels per degree)"""
    g = model.Gen(rng, meta=1, undef_pos=False); n = rng.choice([1, 2, 10, 300, 3000]); near = [(p25.c(rng), p25.c(rng) // 2) for _ in range(rng.choice([1, 3, 20]))]; nodes = []
    for k in range(n):
        o = g.obj("n", k + 1); o.visible = True; o.tags = []; o.x, o.y = rng.choice(near) if rng.random() < .8 else (p25.c(rng), p25.c(rng) // 2)
        if rng.random() < .1: o.x, o.y = rng.choice([(1800000000, o.y), (-1800000000, o.y), (o.x, 900000000), (o.x, -900000000)])
        nodes.append(o)
    p, objs = put(ctx, rng, "d%d" % i, nodes + world(rng)[1], files); size = rng.choice([180, 180, 360, 720]); lo = rng.choice([0, 0, 0, 1, 5, 100]); hi = lo + rng.choice([1, 2, 10, 255, 1000, 99999])
    r = run("nodedensity", [p, str(size), str(lo), str(hi)])
    try: w, h, rows = read_png(r.out)
    except (ValueError, struct.error, zlib.error, StopIteration, IndexError) as ex: return "image", repr(ex)
    if (w, h) != (2 * size, size): return "image", "%d x %d" % (w, h)
    c = Counter(); f = size // 180; edge = set()
    for o in objs:
        if o.t != "n": continue
        # exactly at the border of two pixels rounding decides
        X, Y = (1800000000 + o.x) * f, (900000000 - o.y) * f; k = lambda v, m: min(m - 1, v // 10**7)
        c[k(X, w), k(Y, h)] += 1
        if min(X % 10**7, -X % 10**7) < 2 or min(Y % 10**7, -Y % 10**7) < 2: edge |= {(min(w - 1, max(0, k(X, w) + a)), min(h - 1, max(0, k(Y, h) + b))) for a in (-1, 0, 1) for b in (-1, 0, 1)}
    ctx.count("pixels compared", w * h); val = lambda n: (min(max(n, lo), hi) - lo) * 255 // (hi - lo)
    for y in range(h):
        for x in range(w):
            if rows[y][x] != val(c[x, y]) and (x, y) not in edge: return "pixel", "pixel %d,%d is %d, there are %d nodes" % (x, y, rows[y][x], c[x, y])
    m = re.search(rb"max_count=(\d+)", r.err)
    if not edge and (not m or int(m.group(1)) != max(c.values())): return "max", "%r instead of %d" % (m and m.group(0), max(c.values()))

def features(objs, pos, every=False):
    pt = [o for o in objs if o.t == "n" and tag(o, "amenity") == "post_box"]; ln = []
    for o in objs:
        if o.t == "w" and tag(o, "highway") is not None:
            q = [pos[r] for r in o.refs] if every else p25.wayshape([(r, pos[r]) for r in o.refs], False)     # OGR lines have all nodes
            if q or every: ln.append((o, q))
    return pt, ln

def t_shape(ctx, rng, run, i, files):
    nodes, ways, rels, pos = world(rng); p, objs = put(ctx, rng, "s%d" % i, nodes + ways + rels, files); d = os.path.join(ctx.tmp, "sd%d" % i); os.mkdir(d)
    pt, ln = features(objs, pos); run("osmium_toshape", [p], cwd=d); ctx.count("features expected", len(pt) + len(ln))
    num = lambda v: ("num", v, 0); txt = lambda s: None if s is None else ("raw", p25.cut(s, 30))
    for name, kind, field, shapes in (("postboxes", "p", "operator", [([[(o.x, o.y)]], [num(o.id), txt(tag(o, "operator"))]) for o in pt]), ("roads", "l", "type", [([q], [num(o.id), txt(tag(o, "highway"))]) for o, q in ln])):
        e = p25.judge(ctx, os.path.join(d, name), kind, [("id", "double", 12, 0), (field, "string", 30, 0)], shapes, [], [])
        if e: return "shapefile", "%s: %s" % (name, e)

def t_ogr(ctx, rng, run, i, files):
    nodes, ways, rels, pos = world(rng); p, objs = put(ctx, rng, "o%d" % i, nodes + ways + rels, files); out = os.path.join(ctx.tmp, "oo%d" % i); pt, ln = features(objs, pos, True); ctx.count("features expected", len(pt) + len(ln))
    run("osmium_toogr", [p, "x"], VP_OGR_OUT=out); got = open(out, "rb").read().split(b"\n"); files["features.txt"] = b"\n".join(got)
    want = [b"layer 0 postboxes Point geographic", b"field 0 id Real 10", b"field 0 operator String 30", b"layer 1 roads Line%20String geographic".replace(b"%20", b" "), b"field 1 id Real 10", b"field 1 type String 30"]
    S = lambda o, k: b"" if tag(o, k) is None else esc(tag(o, k))
    F = {o.id: b"feature 0 id=%d operator=%s POINT%s" % (o.id, S(o, "operator"), pts([(o.x, o.y)])) for o in pt}
    want += [F[o.id] for o in objs if o.t == "n" and o.id in F] + [b"feature 1 id=%d type=%s LINESTRING%s" % (o.id, S(o, "highway"), pts(q)) for o, q in ln] + [b"closed", b""]
    got = [re.sub(rb"operator- ", b"operator= ", l) for l in got]
    if got != want: return "features", first_diff(got, want)

def t_postgis(ctx, rng, run, i, files):
    nodes, ways, rels, pos = world(rng); p, objs = put(ctx, rng, "p%d" % i, nodes + ways + rels, files); out = os.path.join(ctx.tmp, "po%d" % i)
    run("osmium_to_postgis", [p, "db"], VP_OGR_OUT=out); got = [l for l in open(out, "rb").read().split(b"\n") if not l.startswith(b"sql ")]; files["features.txt"] = b"\n".join(got); want = []
    for o in objs:
        t = [(k, v) for k, v in o.tags if k not in ("created_by", "odbl")]
        if o.t == "n" and t: want.append((o, t))
    ctx.count("features expected", len(want)); f = [l for l in got if l.startswith(b"feature ")]
    k = got.index(b"commit 0") if b"commit 0" in got else -1
    if any(o.t == "n" for o in objs) and (got[:1] != [b"begin 0"] or k < 0 or any(l.startswith(b"feature") for l in got[k:])): return "transaction", "%r" % [l[:20] for l in got]
    if len(f) != len(want): return "features", "%d features instead of %d" % (len(f), len(want))
    for l, (o, t) in zip(f, want):
        m = re.fullmatch(rb"feature 0 id=(-?\d+) tags=(\S*) POINT (\S+)", l)
        if not m or int(m.group(1)) != o.id or b" " + m.group(3) != pts([(o.x, o.y)]): return "features", "%r for %s" % (l[:300], o.line()[:300])
        s = re.sub(rb"%([0-9a-f]{2})", lambda q: bytes([int(q.group(1), 16)]), m.group(2))
        try: h = [(a.decode("utf-8", "surrogateescape"), b.decode("utf-8", "surrogateescape")) for a, b in p18.parse_hstore(s)]
        except ValueError as ex: return "hstore", "%r: %r" % (ex, s[:300])
        if h != t: return "hstore", "%r instead of %r" % (h, t)

def areas(ctx, rng, i, files):
    while True:
        w, X, st = p27.build(rng, True, "cxml")
        if not st["defect"] and X.areas and not X.optional and not any(a["rings"] is None for a in X.areas): break
    p = p27.write(rng, w, os.path.join(ctx.tmp, "a%d" % i), "c" + rng.choice(["xml", "gz", "bz2", "xml", "pbf"])); files[os.path.basename(p)] = open(p, "rb").read(); ctx.count("areas expected", len(X.areas)); return p, X

def same_rings(a, G):
    """None or what is wrong with a geometry"""
    if any(r[0] != r[-1] for p in G for r in p): return "ring not closed"
    if sorted((p27.norm(p[0])[0], sorted(p27.norm(r)[0] for r in p[1:])) for p in G if p) != a["rings"]: return "other rings"
    if a["dir"] and any(p27.norm(r)[1] != bool(j) for p in G for j, r in enumerate(p)): return "direction of rings"
    if not a["dir"] and a.get("pts") and G[0][0] != a["pts"]: return "order of points"

def t_mpdump(ctx, rng, run, i, files):
    p, X = areas(ctx, rng, i, files); r = run("osmium_mpdump", [p]); t = r.out.decode("utf-8", "surrogateescape"); want = {}
    for a in X.areas: want.setdefault(a["head"][0][0], []).append(a)
    got = re.findall(r"Area from (way|relation) id=(-?\d+) \(orig_id=(-?\d+)\) version=(\d+) timestamp=(\d+) uid=(-?\d+) user=(.*?)\n  (MULTIPOLYGON[^\n]*)\n(.*?)\n(?=Area from |Warning! Some member|\Z)", t, re.S)
    if t.count("Area from ") != len(got): return "output", "%d areas understood of %d" % (len(got), t.count("Area from "))
    c = Counter(int(g[1]) for g in got); n = {k: len(v) for k, v in want.items()}
    if c != Counter(n): return "areas", "areas %s instead of %s" % (sorted(c.items()), sorted(n.items()))
    for g in got:
        cand = want[int(g[1])]; err = []; i = int(g[1])
        for a in cand:
            h, alts = a["head"][0], a.get("tags") or [a["head"][1]]; e = None
            try: e = same_rings(a, p27.wkt(g[7]))
            except ValueError as ex: e = repr(ex)
            if not e and (g[0] == "way") != (i % 2 == 0) or int(g[2]) != int(i / 2): e = e or "origin %s %s" % (g[0], g[2])
            # id, version, changeset?, timestamp, uid, visible, user
            if not e and [int(g[3]), int(g[4]), int(g[5]), model.esc(g[6])] != [HEAD(h, k) for k in ("version", "ts", "uid", "user")]: e = "fields %s instead of %s" % (g[3:7], h)
            if not e and g[8] not in ["".join("  %s=%s\n" % kv for kv in ts) for ts in alts]: e = "tags %r instead of %s" % (g[8], alts)
            if not e: break
            err.append(e)
        else: return "area", "area %d: %s" % (i, err)
def HEAD(h, k): return h[{"version": 1, "ts": 3, "uid": 4, "user": 6}[k]]

def t_ogr2(ctx, rng, run, i, files):
    p, X = areas(ctx, rng, i, files); out = os.path.join(ctx.tmp, "ao%d" % i); run("osmium_toogr2", [p], VP_OGR_OUT=out); got = open(out, "rb").read().decode().split("\n"); files["features.txt"] = "\n".join(got)
    if got[:2] != ["layer 0 areas Multi Polygon geographic", "field 0 id Integer 10"] or got[-2:] != ["closed", ""]: return "layers", "%r" % (got[:3] + got[-2:])
    i32 = lambda v: (v + 2**31) % 2**32 - 2**31; c = Counter(); table = {}
    for a in X.areas:
        alts = a.get("tags") or [a["head"][1]]; b = {any(k == "building" for k, v in t) for t in alts}
        if len(b) == 1 and b.pop(): table.setdefault(i32(a["head"][0][0]), []).append(a)
        elif len(alts) > 1: table.setdefault(i32(a["head"][0][0]), [])
    ctx.count("features expected", sum(map(len, table.values())))
    for l in got[2:-2]:
        m = re.fullmatch(r"feature 0 id=(-?\d+) MULTIPOLYGON(.*)", l)
        if not m or int(m.group(1)) not in table: return "features", "unexpected %r" % l[:300]
        G = [[[tuple(round(float(v) * 1e7) for v in q.split(",")) for q in r.split()] for r in q2.split(" R")[1:]] for q2 in m.group(2).split(" P")[1:]]; v = int(m.group(1)); c[v] += 1
        if table[v] and all(same_rings(a, G) for a in table[v]): return "area", "area %d: %s" % (v, [same_rings(a, G) for a in table[v]])
    if any(c[k] != len(v) for k, v in table.items() if v): return "areas", "features for %s, expected %s" % (dict(c), {k: len(v) for k, v in table.items()})

TOOLS = {"osmium_time": t_time, "nodedensity": t_density, "osmium_toshape": t_shape, "osmium_toogr": t_ogr, "osmium_to_postgis": t_postgis, "osmium_mpdump": t_mpdump, "osmium_toogr2": t_ogr2}

def check(ctx):
    rng = ctx.rng; cf, lf = vp.gdal_flags(); fl = ["-DOSMIUM_WITH_DEBUG", "-I" + vp.VERIF + "/harness/geosold"] + cf; lb = lf + ["-lgeos_c", "-lshp", "-lgd"]; names = list(TOOLS)
    old = ["-include", vp.VERIF + "/harness/ogrold/ogr_old.hpp"]
    exe = dict(zip(names, vp.build_many([dict(src=vp.REPO + "/examples/%s.cpp" % n, flags=fl + (old if "to" in n and n != "osmium_toshape" and n != "osmium_time" else []), libs=lb) for n in names])))
    ctx.rule = "random files (nodes, ways over them, relations; ring systems cut into ways) of all encodings for seven programs. Non-trivial: at least one feature, area or object expected."
    ctx.assumptions = ["all nodes of ways are in the file, no key twice, ids below 2^53", "sizes of density images are multiples of 180", "the interface OGR and GEOS had in 2012 is given by stand-ins on top of the installed libraries"]
    todo = [(t, i, rng.randrange(2**62)) for t in names for i in range(ctx.n(30 if t != "nodedensity" else 14, 700 if t != "nodedensity" else 250))]
    import random
    def work(j):
        t, i, seed = j; files = {}; last = []
        def run(name, args, cwd=None, **env):
            r = vp.run_confirm([exe[name]] + args, timeout=180, env=dict(env), cwd=cwd or ctx.tmp); last.append((r, args))
            if r.crashed or r.timed_out or r.rc: raise RuntimeError
            return r
        try: e = TOOLS[t](ctx, random.Random(seed), run, i, files)
        except RuntimeError:
            r, args = last[-1]; e = (r.crash_key() if r.crashed or r.timed_out else "exit:%d" % r.rc, r.err[-2500:].decode("utf-8", "replace"))
        return t, i, files, last, e
    with ThreadPoolExecutor(8) as ex:
        for t, i, files, last, e in ex.map(work, todo):
            ctx.count("runs of " + t); ctx.case("%s %d %s" % (t, i, sorted(files.items())[0][1][:3000]), True, {"program": t, "args": last[-1][1], "output": last[-1][0].out[:200].decode("latin-1")} if i == 0 else None)
            if e: ctx.violation("%s:%s" % (t, e[0]), "%s %s: %s" % (t, " ".join(last[-1][1]), e[1][:2500]), dict(files, **{"stdout.txt": last[-1][0].out, "stderr.txt": last[-1][0].err}))
