"""P25: shapefiles. Files written are parsed independently; with a recording stand-in for shapelib also splitting and failing writes."""
import os, struct
import vp, model, cases, server

TECHNIQUE = "runtime monitoring: ASan+UBSan+LSan build, shapefiles parsed by an independent reader; trace of shapelib calls checked for files beyond 2 GB and failing writes"
NOTE = ("Random field definitions, geometries (points, ways with repeated nodes, reversed, multipolygons) and attribute values incl. multi-byte text at "
        "the cut, written with the real shapelib and parsed by a reader of our own. Splitting at 2 GB and write errors are observed with a stand-in for shapelib.")
LIMIT = 2**31 - 1
KT = {"p": 1, "l": 3, "a": 5}
CH = ["a", "Z", "1", "é", "ß", "Ж", "€", "漢", "字", "😀", "𝄞", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff", "~", "x"]

def fmt_field(rng):
    t = rng.choice(["string", "string", "string", "integer", "double", "bool"])
    w = {"string": rng.choice([1, 2, 3, 4, 5, 8, 30, 254, 255, rng.randint(1, 255)]), "integer": rng.choice([1, 3, 6, 10, 11]), "double": rng.choice([6, 12, 16, 20]), "bool": 1}[t]
    d = rng.choice([0, 0, 1, 3, 7]) if t == "double" else 0
    if d >= w - 2: d = 0
    n = rng.choice(["id", "name", "ref_1", "abcdefghijk", "x", "0", "highway"])[:11]
    return [n, t, w, d]

def text(rng, w):
    n = rng.choice([0, 1, w // 2, w - 1, w, w + 1, w + 3, 2 * w, rng.randint(0, w + 5)])
    pool = rng.choice([CH, CH, ["€"], ["é"], ["😀"], ["a"], ["a", "€"], ["a", "é", "漢", "😀"]])
    s = ""
    while len(s.encode()) < n: s += rng.choice(pool)
    if rng.random() < .5: s = "b" * rng.randint(0, 3) + s
    return s

def cut(s, w):
    b = s.encode()
    if len(b) <= w: return b
    b = b[:w]
    return b.decode("utf-8", "ignore").encode()

def c(rng):
    r = rng.random()
    if r < .1: return rng.choice([0, 1, -1, 1800000000, -1800000000])
    return rng.randint(-1800000000, 1800000000)

def way(rng, closed):
    n = rng.choice([0, 1, 2, 2, 3, 4, 5, 10, 40]) if rng.random() < .9992 else rng.randint(65537, 66000)
    pos = {}
    ids = [rng.randint(1, max(1, n)) for _ in range(n)] if rng.random() < .5 else list(range(1, n + 1))
    if closed and n > 1: ids[-1] = ids[0]
    for i in set(ids): pos[i] = (c(rng), c(rng) // 2)
    if rng.random() < .35 and pos:       # neighbours: equal or nearly equal in one or both coordinates
        x, y = c(rng), c(rng) // 2; D = rng.choice([[0, 1], [0, 0, 1, -1, 9], [0, 3, 10, -10, 50], [0, 10, 100, 1000, -1000]])
        for i in sorted(pos): pos[i] = (x, y) = (max(-1800000000, min(1800000000, x + rng.choice(D))), max(-900000000, min(900000000, y + rng.choice(D))))
    if rng.random() < .2:
        ks = list(pos)
        for i in ks: pos[i] = pos[rng.choice(ks)]       # different nodes at one place
    return [(i, pos[i]) for i in ids]

def wayshape(nodes, rev):
    """expected list of points or None"""
    if len(nodes) < 2: return None
    pts = [nodes[0][1]]
    for a, b in zip(nodes, nodes[1:]):
        if a[0] == b[0] or a[1] == b[1]: continue
        pts.append(b[1])
    if len(pts) < 2: return None
    return pts[::-1] if rev else pts

def ringpts(rng):
    x, y = rng.randint(-10**9, 10**9), rng.randint(-8 * 10**8, 8 * 10**8); s = rng.randint(1, 10**6)
    pts = [(x, y), (x + s, y), (x + s, y + s), (x, y + s)][:rng.choice([3, 4])]
    return pts + [pts[0]]

def geom(rng, kind):
    """op, parts or None (refused) with parts = list of lists of points"""
    r = rng.random()
    if r < .04: return "N", None, "null"
    if r < .10: k = rng.choice([x for x in "pla" if x != kind])      # type does not fit
    else: k = kind
    g = rng.choice(["", "", "G"])
    if k == "p":
        x, y = c(rng), c(rng) // 2
        return "P:%d:%d" % (x, y), [[(x, y)]] if k == kind else None, "point"
    if k == "a" and rng.random() < .5:
        polys = [[ringpts(rng) for _ in range(rng.choice([1, 1, 2, 4]))] for _ in range(rng.choice([1, 1, 2, 5]))]
        return g + "M:" + ":".join(";".join(",".join("%d,%d" % p for p in q) for q in poly) for poly in polys), [q for poly in polys for q in poly] if k == kind else None, "multipolygon"
    nodes = way(rng, k == "a"); rev = rng.random() < .4
    pts = wayshape(nodes, rev)
    if k == "a" and (not nodes or nodes[0][0] != nodes[-1][0]): pts = None
    return g + "%s:%d" % ("A" if k == "a" else "L", rev) + "".join(":%d:%d:%d" % (i, x, y) for i, (x, y) in nodes), [pts] if pts and k == kind else None, "way"

def read_shp(b, x):
    """-> type, list of (parts)"""
    def head(d):
        if len(d) < 100: raise ValueError("short header")
        if struct.unpack(">i", d[:4])[0] != 9994 or struct.unpack("<i", d[28:32])[0] != 1000: raise ValueError("header")
        if struct.unpack(">i", d[24:28])[0] * 2 != len(d): raise ValueError("file length")
        return struct.unpack("<i4d", d[32:68])
    H, HX = head(b), head(x)
    if H != HX: raise ValueError("headers differ")
    recs = []; p = 100; idx = []
    while p < len(b):
        n, l = struct.unpack(">ii", b[p:p + 8])
        if n != len(recs) + 1: raise ValueError("record number %d" % n)
        d = b[p + 8:p + 8 + 2 * l]
        if len(d) != 2 * l: raise ValueError("record cut off")
        idx.append((p // 2, l)); p += 8 + 2 * l
        t, = struct.unpack("<i", d[:4])
        if t != H[0]: raise ValueError("record of type %d in file of type %d" % (t, H[0]))
        if t == 1: parts = [[struct.unpack("<dd", d[4:20])]]; used = 20; box = parts[0][0] * 2
        else:
            box = struct.unpack("<4d", d[4:36]); np, nv = struct.unpack("<ii", d[36:44])
            st = list(struct.unpack("<%di" % np, d[44:44 + 4 * np])) + [nv]; v = struct.unpack("<%dd" % (2 * nv), d[44 + 4 * np:44 + 4 * np + 16 * nv]); used = 44 + 4 * np + 16 * nv
            pts = list(zip(v[::2], v[1::2])); parts = [pts[st[i]:st[i + 1]] for i in range(np)]
            if np and st[0] != 0: raise ValueError("first part")
        if used != len(d): raise ValueError("record length")
        a = [q for r in parts for q in r]
        if a and tuple(box) != (min(q[0] for q in a), min(q[1] for q in a), max(q[0] for q in a), max(q[1] for q in a)): raise ValueError("record box")
        recs.append(parts)
    if [struct.unpack(">ii", x[100 + 8 * i:108 + 8 * i]) for i in range((len(x) - 100) // 8)] != idx: raise ValueError("index")
    a = [q for r in recs for s in r for q in s]
    if a and H[1:] != (min(q[0] for q in a), min(q[1] for q in a), max(q[0] for q in a), max(q[1] for q in a)): raise ValueError("file box")
    return H[0], recs

def read_dbf(b):
    nrec, hl, rl = struct.unpack("<IHH", b[4:12])
    fields = []; p = 32
    while b[p:p + 1] != b"\r":
        fields.append((b[p:p + 11].split(b"\0")[0].decode(), chr(b[p + 11]), b[p + 16], b[p + 17])); p += 32
        if p > hl: raise ValueError("header")
    if p + 1 != hl: raise ValueError("header length")
    if rl != 1 + sum(f[2] for f in fields): raise ValueError("record length %d" % rl)
    rows = []
    for i in range(nrec):
        r = b[hl + i * rl:hl + (i + 1) * rl]
        if len(r) != rl or r[:1] != b" ": raise ValueError("row %d" % i)
        q = 1; row = []
        for f in fields: row.append(r[q:q + f[2]]); q += f[2]
        rows.append(row)
    if b[hl + nrec * rl:] not in (b"", b"\x1a"): raise ValueError("data after the last row")
    return fields, rows

def make(rng, ctx, base):
    kind = rng.choice("pla"); ops = []; exp = []; fields = []; shapes = []
    nf = rng.choice([0, 1, 2, 3, 5, 12]) if rng.random() < .98 else 300
    for _ in range(nf):
        n, t, w, d = fmt_field(rng); api = rng.choice("ffF")
        if rng.random() < .05:
            bad = rng.choice(["name", "long", "width", "type"])
            ops.append("f:%s:%s:%d:%d" % ({"name": "", "long": "abcdefghijkl"}.get(bad, n), "strange" if bad == "type" else t if bad != "width" else "string", 256 if bad == "width" else w, d))
            exp.append("exc"); ctx.count("fields refused"); continue
        if 1 + sum(f[2] for f in fields) + w > 60000: continue
        # decimals of other types are ignored
        ops.append("%s:%s:%s:%d:%d" % (api, n, t, rng.choice([w, 5]) if t == "bool" and api == "f" else w, d if t == "double" or api == "F" else rng.choice([0, 0, 3])))
        if ops[-1].startswith("F") and t == "bool": ops[-1] = "F:%s:bool:1:0" % n
        exp.append("ok"); fields.append((n, t, w, d))
    for _ in range(rng.choice([0, 1, 2, 5, 12])):
        op, parts, what = geom(rng, kind); ops.append(op); ctx.count("geometries " + (what if parts else "refused"))
        if parts is None: exp.append("exc"); continue
        exp.append("ok"); row = [None] * len(fields); shapes.append((parts, row))
        order = [i for i in range(len(fields)) if rng.random() < .8]
        if rng.random() < .3: rng.shuffle(order)
        for i in order:
            n, t, w, d = fields[i]; r = rng.random()
            if r < .08: ops.append("@n:%d" % i); exp.append("ok"); row[i] = ("null",); ctx.count("values null"); continue
            if t == "bool": v = rng.random() < .5; ops.append("@b:%d:%d" % (i, v)); exp.append("ok"); row[i] = ("raw", b"T" if v else b"F")
            elif t == "integer":
                v = rng.choice([0, 1, -1, 10**rng.randint(0, 9) - 1, -10**rng.randint(0, 8), 2**31 - 1, -2**31, rng.randint(-10**6, 10**6)])
                ops.append("@i:%d:%d" % (i, v)); fits = len(str(v)) <= w; exp.append("ok" if fits else "exc"); row[i] = ("num", v, 0) if fits else ("any",)
            elif t == "double":
                v = round(rng.choice([0, 1, -1, rng.uniform(-180, 180), rng.uniform(-10**6, 10**6), rng.randint(-2**40, 2**40)]), d)
                fits = len("%*.*f" % (w, d, v)) <= w
                ops.append("@d:%d:%r" % (i, v)); exp.append("ok" if fits else "exc"); row[i] = ("num", v, d) if fits else ("any",)
            else:
                s = text(rng, w); k = rng.choice("ttusc")
                if k in "sc":
                    fits = len(s.encode()) <= w; exp.append("ok" if fits else "exc"); row[i] = ("raw", s.encode()) if fits else ("any",)
                else:
                    exp.append("ok"); row[i] = ("raw", cut(s, w)); ctx.count("texts cut", len(s.encode()) > w); ctx.count("texts cut inside a character", len(s.encode()) > w and len(cut(s, w)) < w)
                ops.append("@%s:%d:%s" % (k, i, model.esc(s)))
    if rng.random() < .1: ops.append("close"); exp.append("ok")
    return kind, fields, shapes, ops, exp

def judge(ctx, base, kind, fields, shapes, exp, lines):
    got = [l.split(" ")[0] for l in lines if l]
    if got != exp: 
        i = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), -1)
        return "operation %d gives %r, not %s" % (i, lines[i:i + 1], exp[i:i + 1])
    data = {}
    for s in ("shp", "shx", "dbf", "prj", "cpg"):
        try: data[s] = open(base + "." + s, "rb").read()
        except OSError: return "no file ." + s
    if data["cpg"].strip() != b"UTF-8": return "code page"
    if b"GCS_WGS_1984" not in data["prj"]: return "projection"
    try: t, recs = read_shp(data["shp"], data["shx"])
    except (ValueError, struct.error) as ex: return "shp: %s" % ex
    if t != KT[kind]: return "type %d" % t
    if len(recs) != len(shapes): return "%d shapes, not %d" % (len(recs), len(shapes))
    for i, (r, (parts, _)) in enumerate(zip(recs, shapes)):
        if [len(p) for p in r] != [len(p) for p in parts]: return "shape %d has parts of %r points, not %r" % (i, [len(p) for p in r], [len(p) for p in parts])
        for p, q in zip(r, parts):
            for a, b in zip(p, q):
                if abs(a[0] - b[0] / 1e7) > 1e-9 or abs(a[1] - b[1] / 1e7) > 1e-9: return "shape %d has point %r, not %r" % (i, a, b)
    try: fs, rows = read_dbf(data["dbf"])
    except (ValueError, struct.error, IndexError) as ex: return "dbf: %s" % ex
    if len(fs) != len(fields): 
        return "%d fields" % len(fs)
    for f, (n, t, w, d) in zip(fs, fields):
        if f[0] not in (n[:10], n[:11]) or f[1] not in {"string": "C", "integer": "N", "double": "NF", "bool": "L"}[t] or f[2] != w or f[3] != d: return "field %r, not %r" % (f, (n, t, w, d))
    if not fields: return None
    if len(rows) != len(shapes): return "%d rows for %d shapes" % (len(rows), len(shapes))
    for i, (row, (_, want)) in enumerate(zip(rows, shapes)):
        for g, x, f in zip(row, want, fields):
            if x == ("null",) and f[1] == "bool":       # an empty value means the same as null in the other types only
                if g != b"?": return "row %d field %r is %r, not null" % (i, f, g)
            elif x is None or x == ("null",):
                if g.strip(b" ") and g.strip(b"*") and not (f[1] == "bool" and g == b"?"): return "row %d field %r is %r, not empty" % (i, f, g)
            elif x[0] == "raw":
                if g.rstrip(b" ") != x[1].rstrip(b" "): return "row %d field %r is %r, not %r" % (i, f, g, x[1])
            elif x[0] == "num":
                try: v = float(g)
                except ValueError: return "row %d field %r is %r" % (i, f, g)
                if abs(v - x[1]) > .50001 * 10.0**-x[2] * (x[2] > 0) + abs(x[1]) * 1e-14: return "row %d field %r is %r, not %r" % (i, f, g, x[1])
    return None

def size(kind, nv, np):
    """bytes of a record, from the description of the format"""
    t = KT.get(kind) or int(kind); d = t // 10 if t != 31 else 1        # 0: plane, 1: with z (and measure), 2: with measure
    if t % 10 == 1 and t != 31: return 8 + 4 + 8 * (2, 4, 3)[d]
    n = 8 + 4 + 32 + 4 + 16 * nv + (0, 2 * (16 + 8 * nv), 16 + 8 * nv)[d]
    return n if t % 10 == 8 else n + 4 + (8 if t == 31 else 4) * np

def big(rng, ctx):
    """sequence for the stand-in: shapes so large that files have to be split, some writes fail"""
    kind = rng.choice("plaaa"); ops = []; fields = []
    if rng.random() < .25: kind = rng.choice(["8", "11", "13", "15", "18", "21", "23", "25", "28", "31"])
    broken = (rng.choice([0, 0, 1, 2, 2, 3]), rng.choice([0, 0, 1, 2, 3])) if rng.random() < .3 else (0, 0)      # creating the nth file fails
    point = kind in ("p", "11", "21"); wide = point or rng.random() < .3
    for i in range(rng.choice([200, 255]) if wide else rng.choice([0, 1, 5])):
        w = 255 if wide else rng.randint(1, 255); fields.append(w); ops.append("F:f%d:string:%d:0" % (i, w))
    shapes = []; n = rng.randint(1, 40) if not wide else rng.randint(33000, 90000); failed = 0
    per = rng.choice([200000, 4000000, 60000000, 130000000]); fs = 100
    for k in range(n):
        fail = rng.random() < (.1 if not wide else .0001)
        if fail: ops.append("Z:1")
        nv, np = (1, 0) if point else (rng.choice([2, rng.randint(2, per), per, 134217724 if rng.random() < .1 else 5]), 0 if kind in ("8", "18", "28") else rng.choice([1, 1, 3]) if kind in ("a", "15", "25", "31") else 1)
        if wide and not point: nv = rng.randint(2, 2000)
        elif not point:
            if np > 1 and rng.random() < .3: np = rng.choice([10, 100000, 3000000]); nv = max(nv, 2 * np)
            if rng.random() < .4:       # just fits into the file, or is just too large
                q = rng.randint(1, 9) if np == 1 and size(kind, 0, 2) != size(kind, 0, 1) else np
                rem = LIMIT - fs - size(kind, 0, q); z = (size(kind, 1000, q) - size(kind, 0, q)) // 1000
                if rem > 2 * z and rem // z < 134217000: nv, np = rem // z + rng.choice([0, 0, 1]), q; ctx.count("shapes at the limit of the file size")
            sz = size(kind, nv, np); fs = 100 + sz if fs + sz > LIMIT else fs + sz
        ops.append("B:%d:%d:%d" % (KT.get(kind) or int(kind), nv, np)); shapes.append((nv, np, fail))
        if fields and rng.random() < .9:
            v = "v%d" % k; ops.append("@s:%d:%s" % (rng.randrange(len(fields)), v))
    if any(broken): ops.insert(0, "Q:%d:%d" % broken)
    return kind, fields, shapes, ops

def judge_big(ctx, kind, fields, shapes, ops, lines, res):
    """follow the trace of calls: every shape once, in order, row and values with it; no file beyond the limit; split only if needed"""
    rl = 1 + sum(fields); dh = 33 + 32 * len(fields)
    files = []; cur = None; it = iter(lines); si = -1; pend = None; refused = False; opi = 0; slack_s = slack_d = 0
    state = {"rows": 0}
    target = None; broken = exc = 0; unreported = False
    for l in lines:
        f = l.split(" ")
        if broken and f[0] == "exc": exc += 1
        if f[0] == "exc": unreported = False
        elif unreported: return "failed write of shape %d was not reported" % si
        if broken and f[0] in ("CREATE", "DBF", "SHAPE", "ROW", "ATTR"): return "%s although there is no file" % f[0]
        if f[0] in ("NOCREATE", "NODBF"):
            broken = 1; ctx.count("files that could not be created")
            if cur is not None and not cur["closed"] and f[0] == "NOCREATE": return "new file before the old one is closed"
            k = si + 1
            if k < len(shapes) and len(files) - (f[0] == "NODBF") > 0:
                p = files[-1 - (f[0] == "NODBF")]; sz = size(kind, *shapes[k][:2])
                if p["fs"] + sz <= LIMIT and p["fd"] + rl <= LIMIT: return "split although shape and row fit"
        elif f[0] == "CREATE":
            if cur is not None and not cur["closed"]: return "new file before the old one is closed"
            cur = {"name": f[1], "s": 100, "d": dh, "n": 0, "rows": 0, "fields": 0, "closed": False, "fs": 100, "fd": dh}; files.append(cur)
        elif f[0] == "CLOSE":
            if int(f[1]) != cur["n"]: return "records"
            cur["closed"] = True
        elif f[0] == "DBFCLOSE":
            if fields and int(f[1]) != cur["n"]: return "%s rows for %d shapes" % (f[1], cur["n"])
        elif f[0] == "DBF":
            if f[1] != cur["name"]: return "attribute table %s for %s" % (f[1], cur["name"])
        elif f[0] == "FIELD":
            if int(f[3]) != fields[cur["fields"]] or f[1] != "f%d" % cur["fields"]: return "field %r" % l
            cur["fields"] += 1
        elif f[0] in ("SHAPE", "FAIL"):
            nv, np = int(f[-2]), int(f[-1]); si += 1
            if si >= len(shapes) or (nv, np) != shapes[si][:2] or (f[0] == "FAIL") != shapes[si][2]: return "shape %d is %r, not %r" % (si, l, shapes[si:si + 1])
            if cur["closed"]: return "shape written to closed file"
            if cur["fields"] != len(fields): return "file %d has %d fields, not %d" % (len(files), cur["fields"], len(fields))
            sz = size(kind, nv, np)
            if cur["n"] == 0 and cur["fs"] == 100 and len(files) > 1:        # just split: was it needed?
                p = files[-2]
                if p["fs"] + sz <= LIMIT and p["fd"] + rl <= LIMIT: return "split although shape and row fit"
                ctx.count("files split")
            cur["fs"] += sz; cur["fd"] += rl
            if f[0] == "SHAPE":
                cur["s"] += sz; cur["d"] += rl; cur["n"] += 1
                if cur["n"] > 1 and (cur["s"] > LIMIT or cur["d"] > LIMIT): return "file larger than 2 GB: %d %d" % (cur["s"], cur["d"])
                target = cur["n"] - 1
            else: target = None; unreported = True; ctx.count("writes failed")
        elif f[0] == "ROW":
            if int(f[1]) != cur["rows"]: return "row"
            cur["rows"] += 1
        elif f[0] == "ATTR" and f[1] != "refused":
            if target is None: return "attribute written although the shape was not"
            if int(f[1]) != target: return "attribute for shape %d written to row %s" % (target, f[1])
            ctx.count("attributes followed")
        elif f[0] == "BADINDEX": return l
        elif f[0] == "ALIVE":
            if f[1] != "0": return "%s shape objects or files not released" % f[1]
        elif f[0] == "OPEN": return "descriptors left open"
    if broken:
        if files and any(not x["closed"] for x in files): return "a file is not closed"
        if "constructor" not in res and exc != len(shapes) - si - 1: return "%d operations refused after a file could not be created with %d shapes left" % (exc, len(shapes) - si - 1)
        return None
    if si != len(shapes) - 1: return "%d of %d shapes written" % (si + 1, len(shapes))
    for i, x in enumerate(files):
        if x["name"] != "base" + ("_%d" % i if i else ""): return "file %d is named %s" % (i, x["name"])
        if not x["closed"]: return "file %d not closed" % i
    return None

def check(ctx):
    fl = ["-I" + vp.VERIF + "/harness/geosold"]
    real, fake = vp.build_many([dict(src="harness/h25.cpp", flags=fl, libs=["-lshp", "-lgeos_c"]), dict(src="harness/h25.cpp", variant="asan", flags=fl + ["-DFAKE"], libs=["-lgeos_c"])])
    rng = ctx.rng
    ctx.rule = ("0..300 fields of all types (some refused) x 0..12 geometries (some refused) x values (text of 1..4 byte characters around the width); with the "
                "recording stand-in: sequences of shapes adding up to several times 2 GB, failing writes. Non-trivial: at least one shape written.")
    ctx.assumptions = ["fields are added before the first geometry", "text is valid UTF-8", "all nodes of a way have positions", "shapelib and its data structures"]
    jobs, meta = [], []
    for i in range(ctx.n(3000, 60000)):
        base = os.path.join(ctx.tmp, "s%d" % i); kind, fields, shapes, ops, exp = make(rng, ctx, base)
        jobs.append(" ".join(["shp", kind, base] + ops)); meta.append((base, kind, fields, shapes, exp))
        ctx.case(jobs[-1], bool(shapes), {"job": jobs[-1][:500]} if i < 3 else None)
    env = {"ASAN_OPTIONS": vp.BASE_ENV["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")}
    cwd = ctx.tmp
    for k in range(0, len(jobs), 4000):
        for j, (base, kind, fields, shapes, exp), r in zip(jobs[k:k + 4000], meta[k:k + 4000], server.parallel(real, jobs[k:k + 4000], batch=250, timeout=240, env=env)):
            files = {"job.txt": j}
            if r.crash: ctx.violation("shapefile:" + r.crash, "%s\n%s" % (j[:500], r.run.err.decode("utf8", "replace")[-1200:]), files)
            if r.end != "ok": 
                if not r.crash: ctx.violation("shapefile:end", "%s: %s" % (j[:500], r.end), files)
            else:
                e = judge(ctx, base, kind, fields, shapes, exp, r.lines)
                if e: ctx.violation("shapefile:" + " ".join(x for x in e.split()[:5] if not any(ch.isdigit() for ch in x)), "%s\n%s" % (e, j[:1200]), files)
            for s in ("shp", "shx", "dbf", "prj", "cpg"):
                try: os.unlink(base + "." + s)
                except OSError: pass
    # files that cannot be created
    jobs, base = [], []
    for i in range(ctx.n(60, 600)):
        b = os.path.join(ctx.tmp, "x%d" % i); kind, fields, shapes, ops, exp = make(rng, ctx, b); what = rng.choice(["shp", "shx", "dbf", "prj", "cpg", "dir"])
        if what == "dir": b = os.path.join(ctx.tmp, "none", "x%d" % i)
        else: os.makedirs(b + "." + what + "/full")      # (shapelib would remove an empty one)
        jobs.append(" ".join(["shp", kind, b] + ops)); base.append(what); ctx.case("%s %s" % (what, jobs[-1]), True); ctx.count("cannot be created: " + what)
    for j, what, r in zip(jobs, base, server.parallel(real, jobs, batch=20, timeout=240, env=env)):
        files = {"job.txt": j}
        if r.crash: ctx.violation("create:" + r.crash, "%s: %s\n%s" % (what, j[:300], r.run.err.decode("utf8", "replace")[-1200:]), files)
        elif not r.end.startswith("exc Can't open shapefile"): ctx.violation("create:%s" % what, "%s: shapefile whose .%s cannot be created ends with %r" % (j[:300], what, r.end), files)
        elif any(l.startswith("OPEN") for l in r.lines): ctx.violation("create:released:%s" % what, "%s: .%s cannot be created: %s" % (j[:300], what, r.lines[-1]), files)
    jobs, meta = [], []
    for i in range(ctx.n(80, 900)):
        kind, fields, shapes, ops = big(rng, ctx)
        jobs.append(" ".join(["shp", kind, "base"] + ops)); meta.append((kind, fields, shapes, ops)); ctx.case(jobs[-1], True)
    # the stand-in still leaves .prj and .cpg files
    for k in range(0, len(jobs), 60):
        for j, m, r in zip(jobs[k:k + 60], meta[k:k + 60], server.parallel(fake, jobs[k:k + 60], batch=20, timeout=300, cwd=cwd)):
            files = {"job.txt": j[:2000000], "trace.txt": "\n".join(r.lines)[:2000000]}
            if r.crash: ctx.violation("split:" + r.crash, "%s\n%s" % (j[:300], r.run.err.decode("utf8", "replace")[-1200:]), files); continue
            bad = m[3][0][0] == "Q" and r.end.startswith("exc Can't open shapefile")      # already the first file
            e = judge_big(ctx, *m, r.lines, "constructor" if bad else "") if r.end == "ok" or bad else "ends with %s" % r.end
            if e: ctx.violation("split:" + " ".join(x for x in e.split()[:5] if not any(ch.isdigit() for ch in x)), "%s\n%s" % (e, j[:600]), files)
