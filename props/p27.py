"""P27: multipolygons. Random systems of rings, cut into ways, assembled to areas and compared with the intended areas."""
import os, re, struct
from collections import Counter
import vp, model, cases, server
from p05 import first_file, suffix

TECHNIQUE = "runtime monitoring: ASan+UBSan+LSan build with assertions, areas emitted by the assembler (WKT, WKB, OGR, copies) compared with the ring systems they were made from"
NOTE = ("Random nested and disjoint ring systems in random splittings, orders and directions, several relations sharing ways, defective variants in both repair modes; geometries "
        "parsed back from all formats and compared ring by ring. GEOS through a stand-in for its old C++ interface on the installed library. Sampling.")
IGN = {"type", "created_by", "source", "note"}

# ---------------------------------------------------------------- ring systems
class Ring:
    def __init__(self, pts, depth): self.pts, self.depth, self.kids, self.parent, self.ids, self.ways, self.node_pos = pts, depth, [], None, None, [], None

def box(rng, x0, y0, x1, y1, fine=True):
    """a jagged rectangle, all points within a tenth of the border"""
    mx, my = max(1, (x1 - x0) // 10), max(1, (y1 - y0) // 10)
    def side(a, b, n): return sorted(rng.sample(range(a, b), min(n, b - a)))
    n = lambda: rng.choice([0, 0, 1, 2, 5] + ([20] if rng.random() < .1 else []))
    c = lambda xs, ys: (rng.randint(*xs), rng.randint(*ys))
    L, R, B, T = (x0, x0 + mx), (x1 - mx, x1), (y0, y0 + my), (y1 - my, y1)
    p = [c(L, B)] + [(x, rng.randint(*B)) for x in side(x0 + mx + 1, x1 - mx, n())] + [c(R, B)] + [(rng.randint(*R), y) for y in side(y0 + my + 1, y1 - my, n())]
    p += [c(R, T)] + [(x, rng.randint(*T)) for x in reversed(side(x0 + mx + 1, x1 - mx, n()))] + [c(L, T)] + [(rng.randint(*L), y) for y in reversed(side(y0 + my + 1, y1 - my, n()))]
    return p

def triangle(rng, r):
    """sometimes leave only three points of a ring which contains nothing"""
    if rng.random() < .8: return
    for _ in range(5):
        a, b, c = p = [r.pts[i] for i in sorted(rng.sample(range(len(r.pts)), 3))]
        if abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])) > 100: r.pts = p; return

def cells(rng, x0, y0, x1, y1, n):
    """n disjoint boxes"""
    out = [(x0, y0, x1, y1)]
    while len(out) < n:
        i = max(range(len(out)), key=lambda i: (out[i][2] - out[i][0]) * (out[i][3] - out[i][1])); a = out.pop(i)
        w, h = a[2] - a[0], a[3] - a[1]
        if w > h: m = a[0] + w * rng.randint(3, 7) // 10; out += [(a[0], a[1], m - max(1, w // 50), a[3]), (m, a[1], a[2], a[3])]
        else: m = a[1] + h * rng.randint(3, 7) // 10; out += [(a[0], a[1], a[2], m - max(1, h // 50)), (a[0], m, a[2], a[3])]
    return out

def nest(rng, b, depth, maxdepth, out, parent=None):
    x0, y0, x1, y1 = b
    if min(x1 - x0, y1 - y0) < 60: return
    r = Ring(box(rng, *b), depth); r.parent = parent; out.append(r)
    if parent: parent.kids.append(r)
    if depth >= maxdepth: triangle(rng, r); return
    mx, my = (x1 - x0) // 8, (y1 - y0) // 8
    for c in cells(rng, x0 + mx, y0 + my, x1 - mx, y1 - my, rng.choice([1, 1, 1, 2, 3])):
        if rng.random() < .85: nest(rng, c, depth + 1, maxdepth, out, r)
    if not r.kids: triangle(rng, r)

def system(rng, b):
    out = []
    for c in cells(rng, *b, rng.choice([1, 1, 1, 2, 3, 5])): nest(rng, c, 0, rng.choice([0, 0, 1, 1, 1, 2, 3, 4, 5]), out)
    return out

# ---------------------------------------------------------------- data
class World:
    def __init__(self, rng):
        self.rng, self.nodes, self.ways, self.rels, self.nid = rng, [], [], [], rng.choice([0, 0, 10**10])
        self.g = model.Gen(rng, undef_pos=False, anon_user=False, plain_text=rng.random() < .5, maxtags=3, maxrefs=2); self.wid = rng.choice([0, 0, 2**31 - 3]); self.rid = 0
        self.pos = {}
    def _id(self): return -1 if self.rng.random() < .1 else 1
    def common(self, t, i):
        o = self.g.obj(t, i)
        if o.uid <= 0: o.uid, o.user = 1, "a"
        o.tags = []; o.visible = True
        return o
    def node(self, p):
        self.nid += self.rng.choice([1, 1, 1, 7]); i = self.nid * self._id(); n = self.common("n", i); n.x, n.y = p; self.nodes.append(n); self.pos[i] = p; return i
    def tags(self, p=.6):
        rng = self.rng; t = {}
        if rng.random() < p:
            for _ in range(rng.choice([1, 1, 2, 3])): t[rng.choice(["landuse", "natural", "name", "building", "a b", "ä"])] = rng.choice(["yes", "forest", "water", "1", "ö <&>"])
        if rng.random() < .15: t[rng.choice(["source", "note", "created_by"])] = rng.choice(["x", "y"])
        t = list(t.items()); rng.shuffle(t); return t
    def way(self, refs, tags):
        self.wid += self.rng.choice([1, 1, 1, 5]); w = self.common("w", self.wid * self._id()); w.refs = list(refs); w.tags = list(tags); self.ways.append(w); return w
    def relation(self, members, tags, type_="multipolygon"):
        self.rid += self.rng.choice([1, 1, 3, 2**20]); r = self.common("r", self.rid * self._id()); r.members = members; r.tags = list(tags)
        if type_: r.tags.insert(self.rng.randint(0, len(r.tags)), ("type", type_))
        self.rels.append(r); return r
    def split(self, ring, tagpool, single=False):
        """cut the ring into ways"""
        rng = self.rng; ids = ring.ids = [self.node(p) for p in ring.pts]; n = len(ids)
        k = 1 if single or rng.random() < .45 else rng.choice([2, 2, 3, 4, n]); k = min(k, n)
        s = sorted(rng.sample(range(n), k)); ring.ways = []
        for a, b in zip(s, s[1:] + [s[0] + n]):
            seg = [ids[i % n] for i in range(a, b + 1)]
            if rng.random() < .5: seg.reverse()
            if rng.random() < .08: j = rng.randrange(len(seg)); seg.insert(j, seg[j])                                  # a node twice in a row
            if rng.random() < .05: j = rng.randrange(1, len(seg)); seg.insert(j, self.node(self.pos[seg[j]]))          # two nodes at the same place
            ring.ways.append(self.way(seg, rng.choice(tagpool)))
        return ring

def reg(t): return {k: v for k, v in t if k not in IGN}

class Expect:
    """expected areas: list of dicts; 'optional' ones may be missing; 'free' are relations of which nothing but validity is known"""
    def __init__(self): self.areas, self.optional, self.free, self.inner_free, self.incomplete = [], [], set(), set(), set()

def area_head(o, id_, ts, tags):
    f = [o.id if id_ is None else id_, o.version, o.changeset, ts, o.uid, 1 if o.visible else 0, model.esc(o.user), o.endtime]
    return f, tags

def norm(r):
    """a ring as sequence starting at its least point, in counterclockwise direction; and its original direction"""
    p = [x for i, x in enumerate(r) if x != r[i - 1]]
    a = sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1] for i in range(len(p)))
    if a < 0: p = p[::-1]
    k = p.index(min(p)); return tuple(p[k:] + p[:k]), a > 0

def union(rings):
    """union of rings which share segments: edges belonging to one of them"""
    e = Counter(frozenset((r[i - 1], r[i])) for r in rings for i in range(len(r)))
    nb = {}
    for s, n in e.items():
        if n == 1:
            for a in s: nb.setdefault(a, []).append(next(iter(s - {a})))
    p = [min(nb)]; prev = None
    while True:
        nx = [x for x in nb[p[-1]] if x != prev][0]
        if nx == p[0]: break
        prev = p[-1]; p.append(nx)
    return p

def build(rng, dup_ok, via="d"):
    w = World(rng); X = Expect()
    if via != "d": w.nid = 0         # the table for node positions gets slow with large ids
    if rng.random() < .5: x, y, s = rng.randint(-1700, 1000) * 10**6, rng.randint(-800, 300) * 10**6, rng.choice([10**4, 10**6, 10**7, 5 * 10**8])
    else: s = rng.choice([700, 5000, 10**6, 10**8]); x, y = -s // rng.choice([2, 3]), -s // rng.choice([2, 4])
    areas = cells(rng, x, y, x + s, y + s, rng.choice([1, 1, 2, 4]))
    used = set(); stats = Counter()
    for b in areas:
        kind = rng.choices(["system", "touching", "sharing", "closed", "defect", "none"], [8, 1.5, 1.5, 2, 4, .5])[0]
        stats[kind] += 1
        if kind == "system":
            rings = system(rng, b)
            if rings: relation(w, X, rings, used, dup_ok, stats)
        elif kind == "touching":
            # inner rings side by side, sharing border segments
            o = Ring(box(rng, *b), 0); mx, my = (b[2] - b[0]) // 4, (b[3] - b[1]) // 4
            if min(mx, my) < 40: continue
            n = rng.choice([2, 2, 3, 4]); xs = [b[0] + mx + 2 * mx * i // n for i in range(n + 1)]
            lines = [[(q, b[1] + my)] + [(q + rng.randint(-mx // 10, mx // 10), yy) for yy in sorted(rng.sample(range(b[1] + my + 1, b[3] - my), rng.choice([0, 1, 3])))] + [(q, b[3] - my)] for q in xs]
            kids = [Ring(l + r[::-1], 1) for l, r in zip(lines, lines[1:])]
            for k in kids: k.parent = o; o.kids.append(k)
            o.hole = union([k.pts for k in kids]); at = {}
            relation(w, X, [o] + kids, used, dup_ok, stats, single=kids, at=at)
        elif kind == "sharing":
            # two areas sharing a border
            W, H = b[2] - b[0], b[3] - b[1]
            if min(W, H) < 60: continue
            c = lambda fx, fy: (b[0] + W * fx // 10 + rng.randint(0, W // 10), b[1] + H * fy // 10 + rng.randint(0, H // 10))
            p = [c(4, 0), c(9, 0), c(9, 9), c(4, 9), c(0, 9), c(0, 0)]
            tp = [w.tags(), []]; ids = [w.node(q) for q in p]; i, j = 0, 3
            ws = {"r": [w.way(ids[:4], rng.choice(tp))], "l": [w.way(ids[3:] + ids[:1], rng.choice(tp))]}
            mids = ids[:1] + [w.node(c(4, q)) for q in (2, 4, 6)] + [ids[3]]; k = rng.choice([1, 2, 3])
            ws["m"] = [w.way(mids[:k + 1], rng.choice(tp)), w.way(mids[k:], rng.choice(tp))]
            if rng.random() < .5: ws["m"][0].refs.reverse()
            for side, pts in (("r", [w.pos[q] for q in ids[:3] + mids[:0:-1]]), ("l", [w.pos[q] for q in mids[:-1] + ids[3:]])):
                R = Ring(pts, 0); R.ways = ws[side] + ws["m"]; relation(w, X, [R], used, False, stats, have=True)
            if rng.random() < .5: R = Ring(p, 0); R.ways = ws["l"] + ws["r"]; relation(w, X, [R], used, False, stats, have=True)
        elif kind == "closed":
            R = Ring(box(rng, *b), 0); triangle(rng, R); w.split(R, [w.tags(), []], single=rng.random() < .7)
            if rng.random() < .5: w.relation([("w", q.id, rng.choice(["", "outer"])) for q in R.ways], w.tags(), rng.choice(["route", None, "multipolygon ", "Multipolygon", "multi"]))
            if rng.random() < .3: w.way([R.ids[0], R.ids[1], R.ids[0]], w.tags())
        elif kind == "defect": defect(w, X, b, used)
    # ways which are in no multipolygon relation
    for q in w.ways:
        if q.id in used: continue
        if q.refs and q.refs[0] == q.refs[-1] and len(q.refs) >= 4:
            pts = [w.pos[r] for r in q.refs]
            ok = len({*pts}) == len(pts) - 1
            X.areas.append(dict(head=area_head(q, q.id * 2, q.ts, q.tags), rings=[(norm(pts)[0], [])] if ok else None, dir=None, way=True))
            stats["area from way"] += 1
    return w, X, stats

def relation(w, X, rings, used, dup_ok, stats, single=(), have=False, at=None):
    rng = w.rng
    tp = [w.tags(1), w.tags(1), []]; rel_tags = rng.choice([w.tags(1), w.tags(1), tp[0], [], [], [("source", "x")]])
    if rng.random() < .4: tp = [[]]
    elif rng.random() < .3: tp = [tp[0]]
    if not have:
        shared = {}
        for r in rings:
            keep = w.node
            if at is not None:
                def node(p, keep=keep):
                    if p not in shared: shared[p] = keep(p)
                    return shared[p]
                w.node = node
            w.split(r, tp, single=r in single); w.node = keep
    members = [q for r in rings for q in r.ways]
    for q in members: used.add(q.id)
    rng.shuffle(members)
    m = [("w", q.id, rng.choice(["", "outer", "inner", "inner", "x"])) for q in members]
    for _ in range(rng.choice([0, 0, 0, 1, 3])): m.insert(rng.randint(0, len(m)), (rng.choice("nr"), rng.choice([1, 2, w.nid or 1, -1, 4711]), rng.choice(["label", "", "outer"])))
    dup = dup_ok and rng.random() < .15
    if dup: m.insert(rng.randint(0, len(m)), rng.choice([x for x in m if x[0] == "w"]))
    missing = rng.random() < .06
    if missing: m.insert(rng.randint(0, len(m)), ("w", 10**12 + rng.randint(0, 9), ""))
    r = w.relation(m, rel_tags, rng.choice(["multipolygon", "multipolygon", "boundary"]))
    stats["relations"] += 1; stats["rings"] += len(rings); stats["ways"] += len(members); stats["depth %d" % max(q.depth for q in rings)] += 1
    if missing: stats["incomplete"] += 1; X.incomplete.add(r.id); return
    # geometry
    polys = []
    for o in rings:
        if o.depth % 2: continue
        holes = [o.hole] if at is not None else [k.pts for k in o.kids]
        polys.append((norm(o.pts)[0], sorted(norm(h)[0] for h in holes)))
    outers = [o for o in rings if o.depth % 2 == 0]; oways = [q for o in outers for q in o.ways if reg(q.tags)]
    base = list(r.tags); ts = max([r.ts] + [q.ts for q in members])
    if reg(base):
        alts = [base]
        if len(outers) == 1 and len(outers[0].ways) == 1:
            have_k = set(reg(base)); alts.append(base + [(k, v) for k, v in outers[0].ways[0].tags if k not in IGN and k not in have_k])
    else: alts = [base + [(k, v) for k, v in q.tags if k not in IGN] for q in oways] or [base]
    X.areas.append(dict(head=area_head(r, r.id * 2 + (1 if r.id > 0 else -1), ts, None), tags=alts, rings=sorted(polys), dir=True, way=False))
    for k in rings:
        if k.depth % 2 == 0 or len(k.ways) != 1: continue
        q = k.ways[0]; t = reg(q.tags)
        if not t or t == reg(base): continue
        if len(k.parent.ways) == 1:
            if t == reg(k.parent.ways[0].tags): continue
            dest = X.areas
        else: dest = X.optional if all(reg(z.tags) == t for z in k.parent.ways) else X.areas
        dest.append(dict(head=area_head(q, q.id * 2, q.ts, q.tags), rings=[(norm(k.pts)[0], [])], dir=True, way=True)); stats["area from inner way"] += dest is X.areas

def defect(w, X, b, used):
    rng = w.rng; kind = rng.choice(["dangling", "bow", "dup", "overlap", "tiny", "soup", "missingpos", "touch", "empty", "gap", "crossing rings"])
    ways = []
    def R(bb=b): r = w.split(Ring(box(rng, *bb), 0), [w.tags(), []]); return r.ways
    half = lambda f: (b[0] + (b[2] - b[0]) // f, b[1] + (b[3] - b[1]) // f, b[2] + (b[2] - b[0]) // f, b[3])
    if kind == "dangling": ways = R() + [w.way([w.node((b[0], b[1])), w.node((b[2], b[3]))], w.tags())]
    elif kind == "bow":
        p = box(rng, *b); i, j = sorted(rng.sample(range(len(p)), 2)); p[i], p[j] = p[j], p[i]; ways = w.split(Ring(p, 0), [w.tags(), []]).ways
        if rng.random() < .3: ways += R(half(3))
    elif kind == "dup":
        ways = R(); q = rng.choice(ways); ways.append(q if rng.random() < .5 else w.way(q.refs, q.tags))
    elif kind == "overlap": ways = R() + R(half(2))
    elif kind == "tiny":
        a, c, d = [w.node((b[0] + rng.randint(0, 50), b[1] + rng.randint(0, 50))) for _ in range(3)]
        ways = [w.way(refs, w.tags()) for refs in rng.sample([[a], [a, a], [a, c], [a, c, a], [a, c, d], [c, a], [a, a, a, a], [a, c, d, a], [d, c], []], rng.choice([1, 2, 3]))]
        if rng.random() < .5: ways += R()
    elif kind == "soup":
        ns = [w.node((rng.randint(b[0], b[2]), rng.randint(b[1], b[3]))) for _ in range(rng.choice([2, 4, 6]))]
        ways = [w.way([rng.choice(ns) for _ in range(rng.choice([0, 1, 2, 3, 5]))], w.tags()) for _ in range(rng.randint(1, 7))]
    elif kind == "missingpos":
        ways = R(); q = rng.choice(ways)
        for r in rng.sample(q.refs, rng.choice([1, len(q.refs)])): w.pos[r] = None
        if rng.random() < .3:
            for q in ways:
                for r in q.refs: w.pos[r] = None
    elif kind == "touch":
        r = w.split(Ring(box(rng, *b), 0), [w.tags(), []]); ways = list(r.ways); i = rng.choice(r.ids)
        c = w.node((b[2] + (b[2] - b[0]) // 3, b[3])); d = w.node((b[2] + (b[2] - b[0]) // 3, b[1])); ways.append(w.way([i, c, d, i], w.tags()))
    elif kind == "empty": ways = rng.choice([[], [w.way([], [])], R() + [w.way([], w.tags())]])
    elif kind == "gap":
        ways = R()
        q = rng.choice(ways); q.refs = q.refs[rng.choice([0, 1]):rng.choice([len(q.refs), -1])]
        if rng.random() < .5: ways += R(half(3))
    else: ways = R() + R(half(4)) + R()
    if rng.random() < .15:
        # as ways of their own
        for q in ways: X.inner_free.add(q.id)
        if kind == "missingpos" or True:
            for q in ways: used.add(q.id); 
        return
    rng.shuffle(ways); r = w.relation([("w", q.id, rng.choice(["outer", "inner", ""])) for q in ways], w.tags())
    for q in ways: used.add(q.id); X.inner_free.add(q.id)
    X.free.add(r.id)

# ---------------------------------------------------------------- reading geometries
def wkt(s):
    if s == "MULTIPOLYGON EMPTY": return []
    m = re.fullmatch(r"MULTIPOLYGON ?\((.*)\)", s)
    if not m: raise ValueError("WKT %s" % s[:100])
    out = []
    body = m.group(1)
    for p in re.findall(r"\((\([^()]*\)(?:, ?\([^()]*\))*)\)", body):
        out.append([[tuple(round(float(c) * 1e7) for c in q.split()) for q in r.split(",")] for r in re.findall(r"\(([^()]*)\)", p)])
    if re.sub(r"[^()]", "", body) != "".join("(" + "()" * len(p) + ")" for p in out): raise ValueError("brackets in WKT %s" % s[:100])
    for c in re.findall(r"-?[\d.]+(?:[eE][-+]?\d+)?", body):
        v = float(c) * 1e7
        if abs(v - round(v)) > .02: raise ValueError("inexact coordinate %s" % c)
    return out
def wkb(h):
    b = bytes.fromhex(h); p = 0; srid = None
    def u32(e):
        nonlocal p
        p += 4; return struct.unpack_from(e + "I", b, p - 4)[0]
    def geomhead(want):
        nonlocal p, srid
        e = {0: ">", 1: "<"}[b[p]]; p += 1; t = u32(e)
        if t & 0x20000000:
            s = u32(e); t &= ~0x20000000
            if srid not in (None, s): raise ValueError("SRIDs differ")
            srid = s
        if t != want: raise ValueError("type %d" % t)
        return e
    e = geomhead(6); out = []
    for _ in range(u32(e)):
        e = geomhead(3); poly = []
        for _ in range(u32(e)):
            n = u32(e)
            if n * 16 > len(b): raise ValueError("length")
            poly.append([tuple(round(c * 1e7) for c in struct.unpack_from(e + "dd", b, p + 16 * i)) for i in range(n)]); p += 16 * n
        out.append(poly)
    if p != len(b): raise ValueError("%d bytes left" % (len(b) - p))
    return srid, out

def judge(X, lines, strict_mode, kept):
    """list of (key, text)"""
    bad = []; got = []
    it = iter([l for l in lines if l])
    for l in it:
        if l.startswith("PROBLEM"): bad.append(("order", l)); continue
        if not l.startswith("A\t"): bad.append(("output", l[:200])); continue
        g = next(it, ""); f = l.split("\t"); k = int(f[12])
        tags = list(zip(f[13::2], f[14::2]))
        if len(tags) != k: bad.append(("tags", l[:300]))
        got.append((int(f[1]), f[1:9], f[9:12], tags, g))
    E = lambda t: [(model.esc(a), model.esc(b)) for a, b in t]
    want = Counter(); table = {}
    for a in X.areas: want[a["head"][0][0]] += 1; table.setdefault(a["head"][0][0], []).append(a)
    for a in X.optional: table.setdefault(a["head"][0][0], []).append(a)
    seen = Counter(g[0] for g in got)
    free = {2 * i + (1 if i > 0 else -1) for i in X.free} | {2 * i for i in X.inner_free}
    for i, n in want.items():
        if seen[i] < n: bad.append(("missing", "area %d (%s %d) is missing" % (i, "way" if i % 2 == 0 else "relation", int(i / 2))))
    for i, n in seen.items():
        if n > len(table.get(i, [])) and i not in free: bad.append(("unexpected", "area %d came %d times, expected %d" % (i, n, len(table.get(i, [])))))
    for i, head, form, tags, g in got:
        way = i % 2 == 0
        if form != [str(int(way)), str(int(i / 2)), "1"]: bad.append(("id", "from way, original id, type of %d: %s" % (i, form)))
        for m in re.findall(r"PROBLEM[^;|]*", g): bad.append(("copy", "area %d: %s" % (i, m)))
        a = table.get(i, [None])[0]
        m = re.fullmatch(r"(valid|invalid) ([^;|]*)((?:;PROBLEM[^;|]*)*)\|(\w+)\|(\w+)\|([^;|]*)((?:;PROBLEM[^;|]*)*)", g)
        if not m:
            if i in free and way: continue
            bad.append(("geometry", "area %d: %s" % (i, g[:200]))); continue
        try:
            G = wkt(m.group(2)); s0, G0 = wkb(m.group(4)); s1, G1 = wkb(m.group(5))
        except (ValueError, KeyError, IndexError, struct.error) as ex: bad.append(("format", "area %d: %r in %s" % (i, ex, g[:300]))); continue
        O = [[[tuple(int(c) for c in q.split(",")) for q in r.split(" ")[1:]] for r in p.split("R")[1:]] for p in m.group(6).split("P")[1:]]
        if not (G == G0 == G1): bad.append(("format", "area %d: WKT and WKB differ: %s" % (i, g[:300])))
        if O != G: bad.append(("ogr", "area %d: OGR geometry differs: %s" % (i, g[:500])))
        if s0 is not None or s1 != 4326: bad.append(("srid", "area %d: SRID %s without, %s with SRID" % (i, s0, s1)))
        if a is None:
            if not way and m.group(1) != "valid": bad.append(("invalid", "area %d from a defective relation is not valid: %s" % (i, g[:300])))
            continue
        if a["rings"] is None: pass
        else:
            if m.group(1) != "valid": bad.append(("invalid", "area %d is not valid: %s" % (i, g[:300])))
            got_rings = sorted((norm(p[0])[0], sorted(norm(r)[0] for r in p[1:])) for p in G if p)
            if any(r[0] != r[-1] for p in G for r in p): bad.append(("rings", "area %d: ring not closed" % i))
            if got_rings != a["rings"]: bad.append(("rings", "area %d: %d polygons with %s holes instead of %d with %s, or other points\ngot %s\nexpected %s" % (i, len(got_rings), [len(p[1]) for p in got_rings], len(a["rings"]), [len(p[1]) for p in a["rings"]], got_rings, a["rings"])))
            if a["dir"]:
                if any(norm(r)[1] != bool(j) for p in G for j, r in enumerate(p)): bad.append(("direction", "area %d: direction of rings: %s" % (i, g[:300])))
        h = [str(x) for x in a["head"][0]]
        if head != h: bad.append(("fields", "area %d: fields %s instead of %s" % (i, head, h)))
        alts = a.get("tags") or [a["head"][1]]
        if tags not in [E(t) for t in alts]: bad.append(("tags", "area %d: tags %s instead of %s" % (i, tags, " or ".join(map(repr, alts)))))
    return bad, got

def write(rng, w, p, via):
    if via == "d":
        for q in w.ways: q.refpos = [w.pos[r] for r in q.refs]
        order = list(w.ways); rng.shuffle(order); rels = list(w.rels)
        if rng.random() < .3: rng.shuffle(rels)
        ls = ["BR"] + [r.line() for r in rels] + ["AR"]
        out = ["I\t\t0"] + (["BN"] + [n.line() for n in w.nodes[:3]] + ["AN"] if w.nodes else []) + ["BW"] + [q.line() for q in order] + ["AW"] + ls + ["F"]
        cases.write(p, ("\n".join(out) + "\n").encode("utf-8", "surrogateescape")); return p
    e = via[1:]; p += suffix("osm", e)
    for n in w.nodes:
        if w.pos[n.id] is None: n.x = n.y = None
    k = lambda o: (abs(o.id), o.id)
    nodes = sorted((n for n in w.nodes if n.x is not None), key=k); ways = sorted(w.ways, key=k); rels = sorted(w.rels, key=k)
    first_file(rng, p, "osm", e, cases.rand_header(rng, "osm"), nodes + ways + rels); return p

def check(ctx):
    cf, lf = vp.gdal_flags()
    exe, = vp.build_many([dict(src="harness/h27.cpp", flags=["-DOSMIUM_WITH_DEBUG", "-I" + vp.VERIF + "/harness/geosold"] + cf, libs=lf + ["-lgeos_c"])])
    rng = ctx.rng; env = {"ASAN_OPTIONS": vp.BASE_ENV["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")}
    ctx.rule = ("random ring systems (up to depth 5, several outer rings, inner rings side by side, relations sharing ways) cut into ways in random order and direction, closed ways outside of "
                "relations, incomplete and defective relations, in both repair modes, fed directly and from files. Non-trivial: at least one expected area.")
    ctx.assumptions = ["tags have no empty values and no key twice", "rings of one relation have no common points, except inner rings side by side which share a border"]
    jobs, info = [], []
    for i in range(ctx.n(1500, 40000)):
        rep = rng.random() < .5
        via = "d" if rng.random() < .8 else "c" + rng.choice(["xml", "xml", "gz", "bz2"] if rng.random() < .9 else ["pbf"])
        w, X, st = build(rng, rep, via)
        if any(v is None and k < 0 for k, v in w.pos.items()): via = "d"      # the storage for negative ids used here only knows ids which are there
        p = write(rng, w, os.path.join(ctx.tmp, "m%d" % i), via)
        jobs.append("mp %d %s %s" % (rep + rng.choice([0, 0, 0, 2]), via[0], p)); info.append((p, w, X))
        if rng.random() < .25: jobs[-1] += " %s:%d" % (rng.choice("ixpvm"), rng.choice([1, 1, 1, 2, 3])); ctx.count("failing geometry operations planned")
        ctx.case("%d %s" % (i, sorted(st.items())), bool(X.areas), dict(st) if i < 4 else None)
        for k, v in st.items(): ctx.count(k, v)
        ctx.count("areas expected", len(X.areas)); ctx.count("via " + via); ctx.count("defective relations", len(X.free))
    for j, (p, w, X), r in zip(jobs, info, server.parallel(exe, jobs, batch=60, timeout=300, env=env)):
        files = {os.path.basename(p): open(p, "rb").read(), "job.txt": j}
        if r.crash or r.end != "ok":
            ctx.violation("mp:%s" % (r.crash or r.end), "%s: %s\n%s" % (j, r.crash or r.end, r.run.err.decode("utf-8", "replace")[-3000:] if r.run else ""), files)
        else:
            fired = 0; dbg = []; ls = []
            for l in r.lines:
                if l.startswith("FIRED"): fired = int(l.split()[1]); ctx.count("geometry operation failed: " + j.split()[-1][0], fired)
                elif int(j.split()[1]) & 2 and l.startswith(("MultiPolygon from ", "Ignored non-way member ", "Warning! ")): dbg.append(l)
                else: ls.append(l)
            r.lines[:] = ls
            if int(j.split()[1]) & 2:
                ctx.count("lines of debugging output", len(dbg)); inc = {int(q) for l in dbg if l.startswith("Warning") for q in l.split(":")[1].split()}
                if X.incomplete - inc or inc - X.incomplete - X.free: ctx.violation("mp:incomplete", "%s: said to be incomplete: %s, are incomplete: %s" % (j, sorted(inc), sorted(X.incomplete)), dict(files, **{"debug.txt": "\n".join(dbg)}))
            bad, got = judge(X, r.lines, True, None)
            if fired:
                # one relation may be missing
                m = [b for b in bad if b[0] == "missing"]
                if len(m) == 1 and "(relation" in m[0][1]: bad.remove(m[0])
            ctx.count("areas judged", len(got)); ctx.count("areas from defective relations", sum(1 for g in got if int(g[0] / 2) in X.free and g[0] % 2))
            for k, t in bad: ctx.violation("mp:" + k, "%s: %s" % (j, t[:3000]), dict(files, **{"got.txt": "\n".join(r.lines)}))
        os.unlink(p)

