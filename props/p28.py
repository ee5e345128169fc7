"""P28: osmjs. Generated scripts run in the real V8 print what they see; compared with the data they were given."""
import json, math, os, re, struct, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import vp, model, cases, xmlio, p25, p27
from p05 import first_file, suffix

TECHNIQUE = "runtime monitoring: osmjs under ASan+UBSan in a real JavaScript engine, traces printed by generated scripts (with collections forced anywhere) compared with the data"
NOTE = ("Generated scripts (any set of callbacks, any order of accesses, garbage collections in between) over random files and multipolygons; printed traces, CSV files and "
        "shapefiles compared with the data. osmjs runs in the V8 of node through a stand-in for the interface V8 had in 2012; exceptions thrown by misused functions are out of scope. Sampling.")

FLAGS = ["-shared", "-Wl,-Bsymbolic", "-fvisibility=hidden", "-fPIC", "-std=gnu++17", "-DUCHAR_TYPE=uint16_t"]
LIBS = ["-licuuc", "-lshp", "-lgeos_c", "-lgeos"]
NODE = "/usr/bin/node"
M53 = 2**53 - 1

# ---------------------------------------------------------------- scripts
LIB = """
function P() { print(JSON.stringify(Array.prototype.slice.call(arguments))); }
function F(o) { return [o.id, o.version, o.timestamp, o.uid, o.user, o.changeset, o.visible]; }
function T(o) { var a = []; for (var k in o.tags) { a.push([k, o.tags[k]]); } return a; }
function T2(o) { var t = o.tags, a = [], k; for (k in t) { a.push(k); } G(); return a.map(function(k) { return [k, t[k]]; }); }
function N(o) { var a = []; for (var i=0; i < o.nodes.length; i++) { a.push(o.nodes[i]); } return a; }
function N2(o) { var a = [], n = o.nodes; for (var i in n) { if (i !== 'length') { a.push(n[i]); } } return a; }
function N3(o) { var a = [], n = o.nodes, i = 0; G(); while (n[i] !== undefined) { a.push(n[i++]); } return a; }
function M(o) { var a = []; for (var i=0; i < o.members.length; i++) { var m = o.members[i]; a.push([m.type, m.ref, m.role]); } return a; }
function M2(o) { var a = [], l = []; for (var i in o.members) { if (i !== 'length') { l.push(o.members[i]); } } G(); l.forEach(function(m) { a.push([m.type, m.ref, m.role]); }); return a; }
function B(s) { var a = ''; for (var i=0; i < s.length; i++) { a += ('0' + s.charCodeAt(i).toString(16)).slice(-2); } return a; }
"""
GC = {"none": "function G() {}", "garbage": "function G() { var a = []; for (var i=0; i < 300; i++) { a.push({x: 'y' + i}); } return a.length; }",
      "gc": "function G() { if (Math.random() < .3) { gc(); } }"}

def js(s): return json.dumps(s)

def iso(ts): return xmlio.iso(ts) if ts else ""
def fields(o): return [o.id, o.version, iso(o.ts), o.uid, o.user, o.changeset, o.visible]
def tagdict(o):
    d = {}
    for k, v in o.tags: d.setdefault(k, v)
    return d
def is_index(k): return re.fullmatch("0|[1-9][0-9]{0,9}", k) is not None
def same_tags(got, o):
    """all keys once, in the order of the object (keys which are numbers anywhere), with the first value"""
    d = tagdict(o); k = [g[0] for g in got]
    return dict(map(tuple, got)) == d and len(k) == len(d) and [x for x in k if not is_index(x)] == [x for x in d if not is_index(x)]

def num(x): return x / 1e7
def pt(p): return [num(p[0]), num(p[1])]

def wkb(kind, pts, srid):
    b = struct.pack("<BI", 1, kind | (0x20000000 if srid else 0)) + (struct.pack("<I", 4326) if srid else b"")
    if kind == 3: b += struct.pack("<I", 1)
    if kind != 1: b += struct.pack("<I", len(pts))
    return b + b"".join(struct.pack("<dd", *pt(p)) for p in pts)
def wkt_ok(s, kind, pts, srid):
    if srid:
        if not s.startswith("SRID=4326;"): return False
        s = s[10:]
    a, b = {1: ("POINT(", ")"), 2: ("LINESTRING(", ")"), 3: ("POLYGON((", "))")}[kind]
    if not (s.startswith(a) and s.endswith(b)): return False
    got = [q.split(" ") for q in s[len(a):len(s) - len(b)].split(",")]
    return len(got) == len(pts) and all(len(g) == 2 and abs(float(g[0]) * 1e7 - p[0]) < .02 and abs(float(g[1]) * 1e7 - p[1]) < .02 for g, p in zip(got, pts))

TRUE, FALSE = ["true", "1", "'x'"], ["", "false", "0", "''", "undefined"]

def snippets(rng, t, store, keys):
    """statements for a callback: list of (JavaScript, judge(values printed, object, positions) -> bool)"""
    out = []
    def P(code, f): out.append((code, f))
    for k in rng.choices("ftakgxi", k=rng.choice([0, 1, 2, 4])) if t != "a" else rng.choices("ft", k=rng.choice([1, 2])):
        if k == "f": P("F(this)", lambda v, o, pos: v == fields(o))
        elif k == "t": P(rng.choice(["T(this)", "T2(this)"]), lambda v, o, pos: same_tags(v, o))
        elif k == "k":
            key = rng.choice(keys); P("this.tags[%s]" % js(key), lambda v, o, pos, key=key: v == tagdict(o).get(key))
        elif k == "a" and t == "n": P("[this.lon, this.lat]", lambda v, o, pos: v == pt((o.x, o.y)))
        elif k in "ai" and t == "w":
            f = rng.choice(["N(this)", "N2(this)", "N3(this)"]); P(f, lambda v, o, pos: v == o.refs)
            if k == "i": i = rng.choice([0, 1, 2, 5, 10**6, 2**31 - 1, 2**31]); P("[this.nodes.length, this.nodes[%d], this.nodes[this.nodes.length], this.nodes[this.nodes.length-1]]" % i,
                lambda v, o, pos, i=i: v == [len(o.refs), o.refs[i] if i < len(o.refs) else None, None, o.refs[-1] if o.refs else None])
        elif k in "ai" and t == "r":
            f = rng.choice(["M(this)", "M2(this)"]); P(f, lambda v, o, pos: v == [list(m) for m in o.members])
            if k == "i": P("[this.members.length, typeof this.members[this.members.length], typeof this.members[4000000000]]", lambda v, o, pos: v == [len(o.members), "undefined", "undefined"])
        elif k in "gx" and t in "nw":
            srid = rng.random() < .5; a = rng.choice(TRUE if srid else FALSE); form = rng.choice(["toWKT", "toHexWKB", "toWKB", "toArray"] + (["lon"] if t == "n" else []))
            gs = {"n": ["geom"], "w": ["geom", "reverse_geom", "polygon_geom"]}[t]; g = rng.choice(gs); other = rng.choice(gs)
            def f(v, o, pos, srid=srid, form=form, g=g, t=t):
                if t == "n": kind, pts = 1, [(o.x, o.y)]
                else:
                    kind, pts = 2, [pos[r] for r in o.refs] if store else []
                    if g == "polygon_geom": kind = 3; pts = pts if o.refs and o.refs[0] == o.refs[-1] else []
                    if g == "reverse_geom": pts = pts[::-1]
                if not pts: return v is None
                if v is None: return False
                if form == "toWKT": return wkt_ok(v, kind, pts, srid)
                if form == "lon": return v == pt(pts[0])
                if form == "toArray": r = [pt(p) for p in pts]; return v == (r[0] if kind == 1 else r if kind == 2 else [r])
                return (bytes.fromhex(v)) == wkb(kind, pts, srid)
            if form == "lon": P("[this.geom.lon, this.geom.lat]", f)
            else:
                e = "g.%s(%s)" % (form, a if form != "toArray" else "")
                if form == "toWKB": e = "(function(s) { return s === undefined ? null : B(s); })(%s)" % e
                pre = "var g = this.%s, h = this.%s; " % (g, other) if rng.random() < .5 else "var g = this.%s; " % g
                if rng.random() < .4: pre += "G(); "
                P(("PRE", pre, e), f)
    if t == "a":
        srid = rng.random() < .5
        P("[this.from, this.geom.toArray(), this.geom.toWKT(%s), this.geom.toHexWKB(), this.geom.toHexWKB(true), B(this.geom.toWKB(%s))]" % ("true" if srid else "", "true" if srid else ""), srid)
    return out

NAMES = {"I": "init", "BN": "before_nodes", "n": "node", "AN": "after_nodes", "BW": "before_ways", "w": "way", "AW": "after_ways", "BR": "before_relations", "r": "relation", "AR": "after_relations", "a": "area", "F": "end"}

def script(rng, store, keys, want_area=False, gc="none", extra=None):
    """source text, {callback: [judges]}"""
    cb = {}; s = []
    p = rng.choice([1, 1, .7, .3])
    names = list(NAMES); rng.shuffle(names)
    for c in names:
        if rng.random() > p and not (c == "a" and want_area): continue
        body = []; cb[c] = []
        if c in "nwra":
            for k, (code, f) in enumerate(snippets(rng, c, store, keys)):
                if isinstance(code, tuple): pre, e = code[1].replace("g =", "g%d =" % k, 1), code[2].replace("g.", "g%d." % k, 1)
                else: pre, e = "", code
                body.append("%sP(%s, %s, %s);" % (pre, js(c), k, e)); cb[c].append(f)
                if rng.random() < .15: body.append("G();")
            if not body: body.append("P(%s);" % js(c))
        else: body = ["P(%s);" % js(c)]
        fn = "function() { %s }" % " ".join(body)
        if rng.random() < .1: s.append("function cb_%s() { %s } Osmium.Callbacks.%s = cb_%s;" % (NAMES[c], " ".join(body), NAMES[c], NAMES[c]))
        else: s.append("Osmium.Callbacks%s = %s;" % ("." + NAMES[c] if rng.random() < .8 else "[%s]" % js(NAMES[c]), fn))
    for c in NAMES:
        if c not in cb and rng.random() < .05: s.append("Osmium.Callbacks.%s = %s;" % (NAMES[c], rng.choice(["undefined", "null", "17", "'x'", "{}"])))
    return "\n".join(s) + "\n", cb

def judge_trace(lines, cb, events, pos):
    """events: list of (callback, object or None). Returns text or None, and the printed lines of areas apart."""
    exp = []
    for c, o in events:
        if c not in cb: continue
        if not cb[c]: exp.append((c, None, o, None))
        for k, f in enumerate(cb[c]): exp.append((c, k, o, f))
    if len(lines) != len(exp): 
        n = next((i for i, (l, e) in enumerate(zip(lines, exp)) if l[0] != e[0] or l[1:2] != ([] if e[1] is None else [e[1]])), min(len(lines), len(exp)))
        return "calls", "%d lines instead of %d; first difference at %d: %r instead of %r" % (len(lines), len(exp), n, lines[n:n + 1], [e[:2] + (e[2] and e[2].line(),) for e in exp[n:n + 1]])
    for n, (l, (c, k, o, f)) in enumerate(zip(lines, exp)):
        if l[0] != c or l[1:2] != ([] if k is None else [k]): return "calls", "line %d is %r instead of %s %s" % (n, l, NAMES[c], o and o.line())
        if f is not None and (len(l) != 3 or not f(l[2], o, pos)): return NAMES[c], "line %d is %r for %s" % (n, l, o.line())
    return None

# ---------------------------------------------------------------- data
def world(rng, store):
    """sorted file; with a store all nodes of ways are there"""
    n = rng.choice([0, 1, 3, 10, 25]); g = model.Gen(rng, history=rng.random() < .3, undef_pos=False, anon_user=rng.random() < .5, plain_text=rng.random() < .3)
    cut = lambda i: (abs(i) & M53) * (1 if i >= 0 else -1)
    objs = g.objs(n)
    for o in objs:
        o.id = cut(o.id) or 1; o.refs = [cut(r) or 1 for r in o.refs]; o.members = [(t, cut(r) or 1, x) for t, r, x in o.members]
        if rng.random() < .25: o.tags += [(rng.choice(["1", "0", "42", "007", "4294967294", "4294967295", "-1", "1.5", "length", "toString", "__proto__", "constructor", "hasOwnProperty", ""]), rng.choice(["v", "0", "ä😀"])) for _ in range(rng.choice([1, 1, 3]))]
    if store:
        lim = rng.choice([50, 5000, 2**20])
        nodes = [o for o in objs if o.t == "n"]
        ids = rng.sample(range(1, max(lim, 2 * len(nodes))), len(nodes)); ids = sorted(i if rng.random() < .85 else -i for i in ids); ids.sort(key=lambda i: (abs(i), i))
        for o, i in zip(nodes, ids): o.id = i
        for o in objs:
            if o.t != "w": continue
            o.refs = [rng.choice(ids) for _ in o.refs] if ids else []
            if len(o.refs) > 1 and rng.random() < .5: o.refs[-1] = o.refs[0]
    else:
        for o in objs:
            if o.t == "w" and len(o.refs) > 1 and rng.random() < .3: o.refs[-1] = o.refs[0]
    return objs

def events(objs):
    ev = [("I", None)]; last = None
    for o in objs:
        if o.t != last:
            if last: ev.append(("A" + last.upper(), None))
            ev.append(("B" + o.t.upper(), None)); last = o.t
        ev.append((o.t, o))
    if last: ev.append(("A" + last.upper(), None))
    return ev + [("F", None)]

class Job:
    def __init__(self, ctx, i, kind): self.dir = os.path.join(ctx.tmp, "j%d" % i); os.mkdir(self.dir); self.kind = kind; self.args = []; self.nodeflags = []; self.files = {}; self.judge = None; self.rc = 0; self.timeout = 120; self.variant = "asan"
    def write(self, name, data):
        if isinstance(data, str): data = data.encode("utf-8", "surrogateescape")
        p = os.path.join(self.dir, name); cases.write(p, data); self.files[name] = data; return p

def store_args(rng, store): return [] if store is None and rng.random() < .8 else rng.choice([["-l", store or "none"], ["--location-store=" + (store or "none")], ["-l" + (store or "none")]])

def assemble(rng, job, src, gc, osm, store, more=(), extra_argv=()):
    """command line, library in the script, an included file or include()"""
    lib = LIB + GC[gc] + "\n"; way = rng.choice(["top", "top", "include", "func", "two"]); a = []
    if way == "top": src = lib + src
    elif way == "include":
        n = rng.choice(["lib.js", "lib", "my lib.js"]); job.write(n if "." in n else n + ".js", lib); n = rng.choice([n, job.dir + "/" + n, "./" + n])
        a += rng.choice([["-i", n], ["--include=" + n]])
    elif way == "func": job.write("lib.js", lib); src = "include(%s);\n" % js(rng.choice(["lib.js", job.dir + "/lib.js"])) + src
    else: job.write("a.js", "var early = 1;\n" + lib); job.write("b.js", "if (early != 1) { throw 'order'; }\n" + GC[gc]); a += ["-i", "a.js", "--include=b.js"]
    job.write("s.js", src); a += rng.choice([["-j", "s.js"], ["--javascript=s.js"], ["-js.js"]])
    a += store_args(rng, store) + list(more); rng.random() < .5 and a.append(a.pop(0)) if False else None
    job.args = a + [osm] + list(extra_argv)
    if gc == "gc": job.nodeflags = ["--expose-gc"]
    elif gc == "garbage": job.nodeflags = rng.choice([[], ["--gc-interval=53"], ["--gc-interval=7"], ["--stress-compaction"]])

def trace_job(ctx, rng, job):
    store = rng.choice([None, None, "vector", "sparsetable", "array", "disk"]); objs = world(rng, store)
    ftype = rng.choice(["osm", "osh"]) if any(not o.visible for o in objs) else "osm"
    if ftype == "osm":
        for o in objs: o.visible = True
    enc = rng.choice(["xml", "xml", "gz", "bz2", "pbf", "pbf"])
    order = {"n": 0, "w": 1, "r": 2}
    name = "in" + suffix(ftype, enc); p = os.path.join(job.dir, name)
    objs = first_file(rng, p, ftype, enc, cases.rand_header(rng, ftype), objs); job.files[name] = open(p, "rb").read()
    keys = ["name", "highway", "1", "0", "nothing", "toString", "length", "__proto__", "x" * 255] + [k for o in objs for k, _ in o.tags]
    gc = rng.choice(["none", "garbage", "gc"]); src, cb = script(rng, store, keys, gc=gc)
    argv = [rng.choice(["a", "ä b", "", "😀", "x=1"]) for _ in range(rng.choice([0, 0, 1, 3]))]; debug = rng.random() < .2 and ["-d"] or []
    src += "P('T', argv, Osmium.debug);\n"
    pre = GC[gc]; assemble(rng, job, src, gc, name, store, debug, argv)
    pos = {o.id: (o.x, o.y) for o in objs if o.t == "n"}
    def judge(r):
        lines = r
        inc = [x for x in job.args if x.startswith("--include") or x == "-i"]
        if debug: lines = [l for l in lines if not l.startswith("include javascript file")]
        try: lines = [json.loads(l) for l in lines]
        except ValueError: return "output", "not JSON: %r" % lines[:5]
        if lines[:1] != [["T", argv, bool(debug)]]: return "argv", "%r instead of %r" % (lines[:1], [["T", argv, bool(debug)]])
        ctx.count("lines judged", len(lines))
        return judge_trace(lines[1:], cb, events(objs), pos)
    job.judge = judge
    for c in cb: ctx.count("callback " + NAMES[c])
    ctx.count("store %s" % store); ctx.count("garbage " + gc); ctx.count("objects", len(objs))
    return objs

def area_line(o, l, srid):
    """the line harness/h27.cpp would print for an area, from what the script printed"""
    f, tags, g = l
    frm, arr, wkt, hx, hxs, b = g
    problems = ""
    if (wkt[:10] == "SRID=4326;") != srid: problems += ";PROBLEM SRID in WKT"
    if srid: wkt = wkt[10:]
    if b.upper() != (hxs if srid else hx).upper(): problems += ";PROBLEM toWKB and toHexWKB differ"
    orig = int(f[0] / 2)
    head = [f[0], f[1], f[5], xmlio.parse_iso(f[2]) if f[2] else 0, f[3], 1 if f[6] else 0, model.esc(f[4]), 0]
    A = ["A"] + head + [int(frm == "way"), orig, 1, len(tags)] + [model.esc(x) for t in tags for x in t]
    ogr = "".join("P" + "".join("R" + "".join(" %d,%d" % (round(x * 1e7), round(y * 1e7)) for x, y in r) for r in p) for p in arr)
    return "\t".join(map(str, A)), "valid %s%s|%s|%s|%s" % (wkt, problems, hx, hxs, ogr)

def area_job(ctx, rng, job):
    store = rng.choice(["vector", "sparsetable", "array", "disk"])
    while True:
        w, X, st = p27.build(rng, False, "cxml")
        if not st["defect"] and X.areas and not any(a["rings"] is None for a in X.areas): break
    enc = rng.choice(["xml", "xml", "gz", "bz2", "pbf"])
    p = p27.write(rng, w, os.path.join(job.dir, "in"), "c" + enc); name = os.path.basename(p); job.files[name] = open(p, "rb").read()
    gc = rng.choice(["none", "garbage", "gc"]); src, cb = script(rng, store, ["name", "landuse"], gc=gc)
    src = "\n".join(l for l in src.split("\n") if "Callbacks.area" not in l and '"area"' not in l); cb.pop("a", None)
    srid = rng.random() < .5; q = "true" if srid else ""
    shp = rng.random() < .5
    body = "P('a', F(this), T(this), [this.from, this.geom.toArray(), this.geom.toWKT(%s), this.geom.toHexWKB(), this.geom.toHexWKB(true), B(this.geom.toWKB(%s))]);" % (q, q)
    if shp:
        src = "var shp = Osmium.Output.Shapefile.open('areas', 'polygon'); shp.add_field('id', 'string', 20); shp.add_field('name', 'string', 30);\n" + src
        body += " shp.add(this.geom, { id: this.id, name: this.tags.landuse });"
        m = re.search(r"(Osmium\.Callbacks(?:\.end|\[\"end\"\]) = function\(\) \{|function cb_end\(\) \{)", src)
        if m: src = src[:m.end()] + " shp.close();" + src[m.end():]
        else: src += "Osmium.Callbacks.end = function() { shp.close(); };\n"
    src += "Osmium.Callbacks.area = function() { %s };\n" % body
    assemble(rng, job, src, gc, name, store, rng.choice([["-m"], ["-2", "-m"], ["-2m"], ["--multipolygon"], ["--2pass", "--multipolygon"]]) + rng.choice([[], ["-r"], ["--no-repair"]]))
    k = lambda o: (abs(o.id), o.id)
    objs = sorted((n for n in w.nodes if n.x is not None), key=k) + sorted(w.ways, key=k) + sorted(w.rels, key=k)
    def judge(r):
        try: lines = [json.loads(l) for l in r]
        except ValueError: return "output", "not JSON: %r" % r[:5]
        al = [l[1:] for l in lines if l[0] == "a"]; ctx.count("lines judged", len(lines)); ctx.count("areas judged", len(al))
        e = judge_trace([l for l in lines if l[0] != "a"], cb, events(objs), w.pos)
        if e: return e
        ix = [i for i, l in enumerate(lines) if l[0] == "a"]
        for c, before in (("BW", True), ("AW", False), ("F", False), ("AN", True), ("I", True)):
            q = [i for i, l in enumerate(lines) if l[0] == c]
            if q and ix and (ix[0] < q[0] if before else ix[-1] > q[0]): return "order", "area callback %s %s" % ("before" if before else "after", NAMES[c])
        for i, l in enumerate(al):
            if any(round(x * 1e7) / 1e7 != x for p in l[2][1] for q in p for c in q for x in c): return "area", "inexact coordinate in %r" % l[2][1]
        bad, got = p27.judge(X, [x for l in al for x in area_line(None, l, srid)], True, None)
        if bad: return "area-" + bad[0][0], bad[0][1][:2000]
        if shp:
            b = os.path.join(job.dir, "areas"); rd = lambda s: open(b + "." + s, "rb").read()
            try: t, recs = p25.read_shp(rd("shp"), rd("shx")); fs, rows = p25.read_dbf(rd("dbf"))
            except (OSError, ValueError, struct.error) as ex: return "shapefile", repr(ex)
            ctx.count("shapes read back", len(recs))
            if t != 5 or len(recs) != len(al) or len(rows) != len(al): return "shapefile", "%d shapes, %d rows for %d areas" % (len(recs), len(rows), len(al))
            for rec, row, l in zip(recs, rows, al):
                if [[list(c) for c in q] for q in rec] != [q for p in l[2][1] for q in p]: return "shapefile", "shape %r for %r" % (rec, l[2][1])
                if row[0].strip() != str(l[0][0]).encode() or row[1].rstrip(b" ") != p25.cut(dict(map(tuple, l[1])).get("landuse", ""), 30).rstrip(b" "): return "shapefile", "row %r for %r" % (row, l[:2])
        return None
    job.judge = judge
    ctx.count("areas expected", len(X.areas)); ctx.count("store %s" % store)
    return X.areas

BOOL = [("true", b"T"), ("false", b"F"), ("1", b"T"), ("0", b"F"), ("'yes'", b"T"), ("'no'", b"F"), ("'True'", b"T"), ("'f'", b"F"), ("null", None), ("undefined", None), ("'maybe'", None), ("''", None), ("'1'", b"T")]

def long_text(rng, w):
    s = p25.text(rng, w).replace("\0", "")
    if rng.random() < .15: s = "a" * rng.choice([0, 1, 254, 255]) + "😀" * rng.choice([1, 2, 127, 254])
    return s

def export_job(ctx, rng, job):
    """shapefiles and CSV files written by a script"""
    store = rng.choice(["vector", "sparsetable", "disk"]); objs = world(rng, store)
    for o in objs: o.visible = True
    p = os.path.join(job.dir, "in.osm"); objs = first_file(rng, p, "osm", "xml", cases.rand_header(rng, "osm"), objs); job.files["in.osm"] = open(p, "rb").read()
    pos = {o.id: (o.x, o.y) for o in objs if o.t == "n"}
    src = []; body = {c: [] for c in "nwrFI"}; shps = []; csvs = []
    for s in range(rng.choice([0, 1, 1, 2])):
        kind = rng.choice("pla"); name = "out%d" % s; var = "shp%d" % s; fs = []; rows = []; shapes = []
        for j in range(rng.randint(1, 5)):
            t = rng.choice(["string", "string", "integer", "bool"]); w = {"string": rng.choice([1, 2, 3, 5, 10, 255, 254, rng.randint(1, 255)]), "integer": 11, "bool": 1}[t]; fs.append(("f%d" % j, t, w, 0))
            if rng.random() < .15: t, w = "double", rng.choice([10, 20]); fs[-1] = ("f%d" % j, t, w, rng.randint(0, 8))     # values other than null are not implemented
        opn = "Osmium.Output.Shapefile.open(%s, %s);" % (js(name), js({"p": "point", "l": "line", "a": "polygon"}[kind])) 
        add = " ".join("%s.add_field(%s, %s, %d%s);" % (var, js(n), js(t), w, ", %d" % d if d else rng.choice(["", ", 0"])) for n, t, w, d in fs)
        if rng.random() < .5: src.append("var %s = %s %s" % (var, opn, add))
        else: src.append("var %s;" % var); body["I"].append("%s = %s %s" % (var, opn, add))
        src.append("var v%d = {" % s); c = "n" if kind == "p" else "w"; g = {"p": "geom", "l": rng.choice(["geom", "reverse_geom"]), "a": "polygon_geom"}[kind]; seen = set()
        for n, o in enumerate(x for x in objs if x.t == c):
            if rng.random() < .2: continue
            if kind == "p": parts = [[(o.x, o.y)]]
            else:
                nodes = [(r, pos[r]) for r in o.refs]; pts = p25.wayshape(nodes, g == "reverse_geom") if nodes else None
                if kind == "a" and (not o.refs or o.refs[0] != o.refs[-1]): pts = None
                parts = [pts] if pts else None
            row = []; vals = []
            for fn, t, w, d in fs:
                if t == "double" or rng.random() < .1: row.append(("null",)); rng.random() < .5 and vals.append("%s: %s" % (fn, rng.choice(["null", "undefined"]))); continue
                if t == "string":
                    if rng.random() < .2: v = rng.choice([o.id, 17, 0, -1]); vals.append("%s: %d" % (fn, v)); v = str(v)
                    else: v = long_text(rng, w); vals.append("%s: %s" % (fn, js(v)))
                    row.append(("raw", p25.cut(v, w)))
                elif t == "integer":
                    v = rng.choice([0, 1, -1, 2**31 - 1, -2**31, rng.randint(-10**6, 10**6)]); vals.append("%s: %s" % (fn, rng.choice(["%d", "'%d'"]) % v)); row.append(("num", v, 0))
                else: v, x = rng.choice(BOOL); vals.append("%s: %s" % (fn, v)); row.append(("raw", x) if x else ("null",))
            if rng.random() < .3: vals.append("other: 5")
            src.append("  %d: {%s}," % (n, ", ".join(vals)))
            if parts: shapes.append((parts, row))
        src.append("}, c%d = 0;" % s)
        body[c].append("if (v%d[c%d]) { %s.add(this.%s, v%d[c%d]); } c%d++; G();" % (s, s, var, g, s, s, s)); body["F"].append("%s.close();" % var)
        shps.append((name, kind, fs, shapes))
    for s in range(rng.choice([0, 1, 2])):
        name = "out%d.%s" % (s, rng.choice(["csv", "txt", "ä"])); var = "csv%d" % s; src.append("var %s = Osmium.Output.CSV.open(%s);" % (var, js(name))); exp = []
        cols = rng.choices(["this.id", "this.user", "this.tags.name", "this.timestamp", "'x'", "5", "null", "this.tags.highway || ''"], k=rng.choice([0, 1, 2, 4])); c = rng.choice("nwr")
        V = {"this.id": lambda o: o.id, "this.user": lambda o: o.user, "this.tags.name": lambda o: tagdict(o).get("name", "undefined"), "this.timestamp": lambda o: iso(o.ts), "'x'": lambda o: "x", "5": lambda o: 5, "null": lambda o: "null",
             "this.tags.highway || ''": lambda o: tagdict(o).get("highway", "")}
        src.append("%s.print('first', 2);" % var); body[c].append("%s.print(%s);" % (var, ", ".join(cols)))
        text = "first\t2\n" + "".join("\t".join(str(V[q](o)) for q in cols) + "\n" for o in objs if o.t == c)
        if rng.random() < .7: body["F"].append("%s.close();" % var)
        csvs.append((name, text))
    for c, n in (("n", "node"), ("w", "way"), ("r", "relation"), ("F", "end"), ("I", "init")):
        if body[c]: src.append("Osmium.Callbacks.%s = function() { %s };" % (n, "\n  ".join(body[c])))
    gc = rng.choice(["none", "garbage", "gc"]); assemble(rng, job, "\n".join(src) + "\n", gc, "in.osm", store)
    def judge(r):
        if r: return "output", "unexpected %r" % r[:3]
        for name, text in csvs:
            try: b = open(os.path.join(job.dir, name), "rb").read()
            except OSError as ex: return "csv", repr(ex)
            ctx.count("CSV lines", text.count("\n"))
            if b != text.encode(): return "csv", "%s is %r instead of %r" % (name, b[:1000], text.encode()[:1000])
        for name, kind, fs, shapes in shps:
            e = p25.judge(ctx, os.path.join(job.dir, name), kind, fs, shapes, [], []); ctx.count("shapes read back", len(shapes))
            if e: return "shapefile", "%s: %s" % (name, e)
        return None
    job.judge = judge
    return shps or csvs

def misc_job(ctx, rng, job):
    """texts printed; command lines which are refused"""
    job.write("in.osm", "<osm version='0.6'><node id='1' lat='1' lon='2'/></osm>")
    ts = [rng.choice(["", "a", "ä€😀", "x\0y", "\0", "\n", "a\tb", "z" * 5000, "€" * 3000, "😀" * 2000, "\ufffd\uffff", model.text(rng, 100)]) for _ in range(rng.choice([0, 1, 2, 7]))]
    job.write("s.js", "print(%s);" % ", ".join(js(t) for t in ts)); job.args = ["-j", "s.js", "in.osm"]; want = "".join(t + "\n" for t in ts)
    def judge(r): return None if "\n".join(r) + ("\n" if r else "") == want else ("print", "%r instead of %r" % ("\n".join(r)[:500], want[:500]))
    job.judge = judge; job.raw = True
    return True

# every way of failing before the file is read, always all of them
CB = "Osmium.Callbacks.init = Osmium.Callbacks.node = Osmium.Callbacks.end = function() { print('called'); };\n"
BAD = {"empty": "", "syntax": CB + "function( {", "throws": CB + "nothing();", "value": CB + "throw 'x';", "object": CB + "throw {toString: function() { throw 1; }};", "recursion": CB + "function f() { f(); } f();", "late": CB + "Osmium.Callbacks.node.x.y.z = 1;", "nul": CB + "\0x("}
def refused():
    r = [["in.osm"], ["-j", "good.js"], ["-j", "missing.js", "in.osm"], ["-i", "missing", "-j", "good.js", "in.osm"], ["-i", "good", "-i", "missing.js", "-j", "good.js", "in.osm"], ["-m", "-j", "good.js", "in.osm"], ["-2", "-j", "good.js", "in.osm"],
         ["-2", "-m", "-l", "none", "-j", "good.js", "in.osm"], ["-l", "strange", "-j", "good.js", "in.osm"], ["-l", "", "-j", "good.js", "in.osm"], ["-2", "-l", "vector", "-j", "good.js", "-"], ["-m", "-l", "array", "-j", "good.js", "-"],
         ["-x", "-j", "good.js", "in.osm"], ["-j"], ["-j", "", "in.osm"], ["-j", "inc-missing.js", "in.osm"], ["-j", "good.js", "missing.osm"], ["-j", "good.js", "in.strange"]]
    for k in BAD:
        if k == "nul": continue                                     # text after the NUL is not looked at
        r += [["-j", k + ".js", "in.osm"]]
        if k != "empty": r += [["-i", k, "-j", "good.js", "in.osm"], ["-i", "good.js", "-i", k + ".js", "-j", "good.js", "in.osm"], ["-j", "inc-%s.js" % k, "in.osm"], ["-i", "inc-%s.js" % k, "-j", "good.js", "in.osm"]]
    return r

def refused_job(ctx, args, job):
    job.write("in.osm", "<osm version='0.6'><node id='1' lat='1' lon='2'/></osm>"); job.write("in.strange", "x"); job.write("good.js", CB)
    for k, v in list(BAD.items()) + [("missing", "")]:
        if k != "missing": job.write(k + ".js", v)
        job.write("inc-%s.js" % k, CB + "include('good.js', '%s.js');" % k)
    job.args = args; job.rc = 1
    job.judge = lambda r: ("refused", "%r printed %r" % (job.args, r)) if r else None

KEYS = ["amenity", "highway", "name", "1", "ä", "shop:type"]; VALS = ["post_box", "phone", "yes", "ö", "1", "primary road"]
def config_job(ctx, rng, job):
    """shapefiles by the rules of osm2shape.js"""
    store = rng.choice(["vector", "sparsetable", "array"]); objs = world(rng, store)
    for o in objs: o.visible = True; o.tags = [(k, rng.choice(VALS)) for k in rng.sample(KEYS, rng.choice([0, 1, 2, 3]))]
    p = os.path.join(job.dir, "in.osm"); objs = first_file(rng, p, "osm", "xml", cases.rand_header(rng, "osm"), objs); job.files["in.osm"] = open(p, "rb").read()
    pos = {o.id: (o.x, o.y) for o in objs if o.t == "n"}; src = []; shps = {}; rules = []
    for s in range(rng.choice([1, 1, 2, 3])):
        name = rng.choice(["pois", "lines", "x y", "ü"]) + str(s); kind = rng.choice("pl"); cols = [("id", "string", 22, 0)] if rng.random() < .8 else []
        cols += [(c, "string", rng.choice([3, 10, 40]), 0) for c in rng.sample(["amenity", "name", "type", "x1"], rng.choice([1, 2, 3]))]
        fn = rng.choice([name, name + "f"])
        src.append("shapefile(%s)%s.type(%s)%s;" % (js(name), "" if fn == name else ".filename(%s)" % js(fn), "POINT" if kind == "p" else "LINE", "".join(".column(%s, STRING, %d)" % (js(c[0]), c[2]) for c in cols)))
        shps[name] = (fn, kind, cols, [])
    for _ in range(rng.choice([1, 2, 4])):
        name = rng.choice(list(shps)); fn, kind, cols, shapes = shps[name]; key = rng.choice(KEYS); vs = rng.choice([None, None, "*", [rng.choice(VALS)], rng.sample(VALS, 2), rng.sample(VALS, 3)]); form = rng.choice("sa")
        v = "" if vs is None else ", '*'" if vs == "*" else ", " + js("|".join(vs)) if form == "s" else ", " + js(vs); t = "n" if kind == "p" else "w"
        if rng.random() < .1: t = "nw"["wn".index(t)]             # objects of the wrong type
        at = {c[0]: rng.choice([None, rng.choice(KEYS)]) for c in cols if c[0] != "id" and rng.random() < .8}
        src.append("%s(%s%s).output(%s)%s;" % ({"n": "node", "w": "way"}[t], js(key), v, js(name), "".join(".attr(%s%s)" % (js(a), "" if k is None else ", " + js(k)) for a, k in at.items())))
        rules.append((t, key, None if vs in (None, "*") else vs, name, {a: k or a for a, k in at.items()}))
    for o in objs:
        d = tagdict(o)
        for t, key, vs, name, at in rules:
            if t != o.t or key not in d or (vs and d[key] not in vs): continue
            fn, kind, cols, shapes = shps[name]
            if t != ("n" if kind == "p" else "w"): continue
            pts = [(o.x, o.y)] if t == "n" else p25.wayshape([(r, pos[r]) for r in o.refs], False)
            if not pts: continue
            shapes.append(([pts], [("raw", str(o.id).encode()) if c[0] == "id" else ("raw", p25.cut(d[at[c[0]]], c[2])) if c[0] in at and at[c[0]] in d else None for c in cols]))
    job.write("s.js", "\n".join(src) + "\n"); job.args = ["-l", store, "-i", vp.REPO + "/osmjs/js/" + rng.choice(["osm2shape", "osm2shape.js"]), "-j", "s.js", "in.osm"]; job.nodeflags = rng.choice([[], ["--gc-interval=53"]])
    def judge(r):
        if r[:1] != ["Init"] or r[-1:] != ["Done"]: return "output", "%r" % r
        for fn, kind, cols, shapes in shps.values():
            e = p25.judge(ctx, os.path.join(job.dir, fn), kind, cols, shapes, [], []); ctx.count("shapes read back", len(shapes))
            if e: return "shapefile", "%s: %s" % (fn, e)
        return None
    job.judge = judge
    return any(x[3] for x in shps.values())

# the scripts which come with osmjs
def jsnum(v):
    """an integer of 1e-7 degrees the way JavaScript prints the number"""
    s = "-" if v < 0 else ""; v = abs(v)
    if v == 0: return "0"
    if v < 10: return "%s%de-7" % (s, v)
    return s + ("%d.%07d" % divmod(v, 10**7)).rstrip("0").rstrip(".")
def undef(x): return "undefined" if x is None else str(x)
NODE_TAGS = [("amenity", "restaurant"), ("amenity", "pub"), ("shop", "supermarket")]
def shipped_job(ctx, rng, job):
    name = rng.choice(["objects", "objects", "count", "osm2csv", "time", "callback_test", "shape_export", "shape_export", "testgeom"]); store = rng.choice(["vector", "sparsetable", "array", "disk"]); objs = world(rng, store)
    def clean(t): return t.replace("\n", " ").replace("\r", " ").replace("\0", "")
    for o in objs:
        o.visible = True; o.user = clean(o.user); o.tags = [(clean(k) + "." if is_index(clean(k)) or clean(k) in ("__proto__", "toString", "constructor", "hasOwnProperty") else clean(k), clean(v)) for k, v in o.tags]
        o.members = [(t, i, clean(r)) for t, i, r in o.members]
        if o.t == "w" and name == "shape_export": o.id = abs(o.id) % 10**9 or 1                          # the column has ten digits
        if name in ("shape_export", "osm2csv") and rng.random() < .7:
            o.tags += rng.sample([("name", "Ää"), ("note", "x\ty"), ("highway", "primary"), ("oneway", rng.choice(["1", "yes", "true", "-1", "no"])), ("maxspeed", rng.choice(["50", "70 km/h", "30kmh", "walk", "5 mph"]))] + NODE_TAGS[:1] + NODE_TAGS[2:], rng.choice([2, 4, 7]))
    enc = rng.choice(["xml", "gz", "pbf"]); p = os.path.join(job.dir, "in" + suffix("osm", enc)); objs = first_file(rng, p, "osm", enc, cases.rand_header(rng, "osm"), objs); job.files[os.path.basename(p)] = open(p, "rb").read()
    pos = {o.id: (o.x, o.y) for o in objs if o.t == "n"}; script = vp.REPO + "/osmjs/js/%s.js" % name; job.files["s.js"] = open(script, "rb").read()
    job.args = ["-l", store, "-j", script, os.path.basename(p)]; job.nodeflags = rng.choice([[], ["--gc-interval=53"], ["--stress-compaction"]])
    def line(o): return [undef(x) for x in (o.id, o.version, iso(o.ts), o.uid, o.user, o.changeset)]
    def shape(o): return [pos[r] for r in o.refs]
    def csv(f): return open(os.path.join(job.dir, f), "rb").read().decode("utf-8", "surrogateescape")
    def judge(r):
        ctx.count("lines judged", len(r)); exp = []
        if name == "objects":
            for o in objs:
                if o.t == "n": exp.append(("node " + " ".join(line(o)) + " %s %s " % (jsnum(o.x), jsnum(o.y)), 1, [(o.x, o.y)]))
                elif o.t == "w":
                    if not o.refs: return None                              # no geometry: the script fails there
                    exp.append(("way " + " ".join(line(o)) + " ", 2, shape(o)))
                else: exp.append(("relation " + " ".join(line(o)),))
                exp += [(" %s=%s" % t,) for t in tagdict(o).items()]
                exp += [(" ref %d" % i,) for i in o.refs] if o.t == "w" else [(" member %s %d %s" % m,) for m in o.members] if o.t == "r" else []
            exp = [("Start!",)] + exp + [("End!",)]
            if len(r) != len(exp): return "objects", "%d lines instead of %d" % (len(r), len(exp))
            for l, e in zip(r, exp):
                if len(e) == 1:
                    if l != e[0]: return "objects", "%r instead of %r" % (l, e[0])
                else:
                    w = l[len(e[0]):]
                    if e[1] == 1: w, h = w[:w.rfind(" [")], w[w.rfind(" ["):]
                    if not l.startswith(e[0]) or not wkt_ok(w, e[1], e[2], False) or (e[1] == 1 and h.upper() != " [%s]" % wkb(1, e[2], False).hex().upper()): return "objects", "%r instead of %r" % (l, e)
            return None
        if name == "count":
            ks, ts = {}, {}
            for o in objs:
                if o.t != "n": continue
                for k, v in tagdict(o).items(): ks[k] = ks.get(k, 0) + 1; t = k + "\t" + v; ts[t] = ts.get(t, 0) + 1
            got = csv("stats-keys-nodes.csv"), csv("stats-tags-nodes.csv"); want = tuple(sorted("%s\t%d" % x for x in d.items()) for d in (ks, ts))
            if r != ["Start!", "End!"]: return "output", "%r" % r
            if any(g and not g.endswith("\n") for g in got) or tuple(sorted(g.split("\n")[:-1]) for g in got) != want: return "count", "%r instead of %r" % (got, want)
            return None
        if name == "osm2csv":
            want = "".join("%d\t%s\t%s\n" % (o.id, undef(tagdict(o).get("name")), undef(tagdict(o).get("note"))) for o in objs if o.t == "n")
            return None if not r and csv("out.csv") == want else ("osm2csv", "%r instead of %r" % (csv("out.csv")[:1000], want[:1000]))
        n = {t: sum(o.t == t for o in objs) for t in "nwr"}
        if name == "time": exp = ["first way"] * (n["w"] > 0) + ["first relation"] * (n["r"] > 0) + ["nodes: %d  ways: %d  relations: %d" % (n["n"], n["w"], n["r"])]
        elif name == "callback_test": exp = ["\u2714 " + x for x in ["init"] + [y for t, s in (("n", "node"), ("w", "way"), ("r", "relation")) if n[t] for y in ("before_%ss" % s, s, "after_%ss" % s)] + ["end"]]
        elif name == "shape_export":
            pois, roads = [], []
            for o in objs:
                d = tagdict(o); raw = lambda x, w: None if x is None else ("raw", p25.cut(x, w))
                if o.t == "n": pois += [([[(o.x, o.y)]], [raw(str(o.id), 12), raw(d[k], 32), raw(d.get("name"), 32)]) for k in d if (k, d[k]) in NODE_TAGS]
                elif o.t == "w" and d.get("highway"):
                    pts = p25.wayshape([(i, pos[i]) for i in o.refs], False) if o.refs else None
                    m = re.fullmatch("([0-9]+) ?(km/?h)?", d.get("maxspeed", ""))
                    if pts: roads.append(([pts], [("num", o.id, 0), raw(d["highway"], 32), raw(d.get("name"), 32), ("num", {"1": 1, "yes": 1, "true": 1, "-1": 2}.get(d.get("oneway"), 0), 0), ("num", int(m.group(1)) if m else 0, 0)]))
            for f, k, fs, rows in (("pois", "p", [("id", "string", 12, 0), ("type", "string", 32, 0), ("name", "string", 32, 0)], pois), ("roads", "l", [("id", "integer", 10, 0), ("type", "string", 32, 0), ("name", "string", 32, 0), ("oneway", "integer", 1, 0), ("maxspeed", "integer", 3, 0)], roads)):
                e = p25.judge(ctx, os.path.join(job.dir, f), k, fs, rows, [], []); ctx.count("shapes read back", len(rows))
                if e: return "shapefile", "%s: %s" % (f, e)
            exp = ["Init", "Done"]
        else:
            if any(o.t == "w" and (not o.refs or o.refs[0] != o.refs[-1]) for o in objs): return None
            got = [x[22:] for x in r if x.startswith("geom.toWKT():")]; kinds = [(1, [(o.x, o.y)]) if o.t == "n" else (2, shape(o)) for o in objs if o.t in "nw"]
            srid = [x[22:] for x in r if x.startswith("geom.toWKT(true):")]; hexs = [x[22:] for x in r if x.startswith("geom.toHexWKB():")]; hexs2 = [x[22:] for x in r if x.startswith("geom.toHexWKB(true):")]
            arr = [json.loads(x[22:]) for x in r if x.startswith("geom.toArray():")]
            if [len(x) for x in (got, srid, hexs, hexs2, arr)] != [len(kinds)] * 5: return "testgeom", "%d geometries instead of %d" % (len(got), len(kinds))
            for g, s, h, h2, a, (k, pts) in zip(got, srid, hexs, hexs2, arr, kinds):
                if not wkt_ok(g, k, pts, False) or not wkt_ok(s, k, pts, True) or h.lower() != wkb(k, pts, False).hex() or h2.lower() != wkb(k, pts, True).hex() or a != (pt(pts[0]) if k == 1 else [pt(q) for q in pts]): return "testgeom", "%r %r %r %r %r for %r" % (g, s, h, h2, a, pts)
            return None
        return None if r == exp else (name, "%r instead of %r" % (r[:20], exp[:20]))
    bad = name in ("objects", "testgeom") and any(o.t == "w" and (not o.refs or (name == "testgeom" and o.refs[0] != o.refs[-1])) for o in objs)
    job.anyend = bad; job.judge = (lambda r: None) if bad else judge
    ctx.count("script " + name)
    return objs

def leak_job(ctx, rng, job, reps):
    job.write("in.osm", "<osm version='0.6'>" + "".join("<node id='%d' lat='%d' lon='2'/>" % (i, i) for i in range(1, 5)) + "<way id='1'>" + "".join("<nd ref='%d'/>" % i for i in (1, 2, 3, 4, 1)) + "</way><relation id='1'><member type='way' ref='1' role=''/><tag k='type' v='multipolygon'/><tag k='a' v='b'/></relation></osm>")
    job.write("s.js", "var R = %d; function X(o, l) { for (var i=0; i < R; i++) { for (var k in l) { o[l[k]].toWKT(); o[l[k]].toArray(); } for (var t in o.tags) { o.tags[t]; } } gc(); }\n" % reps +
        "Osmium.Callbacks.node = function() { X(this, ['geom']); };\nOsmium.Callbacks.way = function() { X(this, ['geom', 'reverse_geom', 'polygon_geom']); };\nOsmium.Callbacks.area = function() { X(this, ['geom']); };\n"
        "Osmium.Callbacks.relation = function() { for (var i=0; i < R; i++) { this.members[0].role; } gc(); };\n")
    job.args = ["-m", "-l", "vector", "-j", "s.js", "in.osm"]; job.nodeflags = ["--expose-gc"]; job.variant = "plain"; job.judge = lambda r: None

def start(job, exe, env):
    e = dict(env); e["HOME"] = job.dir
    cmd = [NODE] + job.nodeflags + ["-e", "require(%s)(...process.argv.slice(1))" % js(exe[job.variant]), "--"] + job.args
    if job.variant == "asan": cmd = ["/usr/bin/env", "LD_PRELOAD=" + e.pop("PRELOAD")] + cmd
    else: e.pop("PRELOAD")
    return vp.run_confirm(cmd, timeout=job.timeout, env=e, cwd=job.dir)

def check(ctx):
    fl = FLAGS + ["-I" + vp.VERIF + "/harness/v8old", "-I" + vp.VERIF + "/harness/geosold", "-I" + vp.REPO + "/osmjs", "-I/usr/include", "-I/usr/include/node"]
    asan, plain = vp.build_many([dict(src="harness/h28.cpp", name="h28.node", flags=fl, libs=LIBS), dict(src="harness/h28.cpp", name="h28.node", variant="plain", flags=fl, libs=LIBS)])
    exe = {"asan": asan, "plain": plain}; rng = ctx.rng
    lib = lambda n: subprocess.run(["g++", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
    env = {"PRELOAD": lib("libasan.so") + ":" + lib("libubsan.so")}
    ctx.rule = ("random files x random scripts (set of callbacks, fields, tags, nodes, members, geometries in all formats, garbage collections in between) x location stores; multipolygons; CSV files and shapefiles "
                "written by scripts; texts printed; command lines refused. Non-trivial: a script which prints or writes something.")
    ctx.assumptions = ["scripts use the functions with sensible arguments, and objects only during the callback they were given to", "texts are valid UTF-8 with at most 255 characters; ids fit into 53 bits",
                       "all nodes of ways are in the file if a location store is used", "V8 as in the installed node program; the stand-in for its old interface"]
    jobs = []
    for i in range(ctx.n(560, 9600)):
        kind = rng.choices(["trace", "area", "export", "config", "misc", "shipped"], [6, 2.2, 2.5, .7, .6, .9])[0]; job = Job(ctx, i, kind); job.raw = False
        x = {"trace": trace_job, "area": area_job, "export": export_job, "config": config_job, "misc": misc_job, "shipped": shipped_job}[kind](ctx, rng, job)
        if rng.random() < .25: job.variant = "plain"
        ctx.count("jobs " + kind); jobs.append(job)
        ctx.case("%s %r %s" % (kind, job.args, job.files.get("s.js", b"")[-2000:]), bool(x), {"args": job.args, "script": job.files["s.js"].decode("utf-8", "replace")[-600:]} if i < 5 else None)
    for i, args in enumerate(refused()):
        job = Job(ctx, 2 * 10**6 + i, "refused"); job.raw = False; refused_job(ctx, args, job); job.variant = "plain" if i % 4 else "asan"; jobs.append(job); ctx.case("refused %r" % args)
    for n in (1000, 20000):
        job = Job(ctx, 10**6 + n, "leak"); job.raw = False; leak_job(ctx, rng, job, n); jobs.append(job); ctx.case("leak %d" % n)
    heap = []
    def work(job): return job, start(job, exe, env)
    with ThreadPoolExecutor(8) as ex:
        for job, r in ex.map(work, jobs):
            err = r.err.decode("utf-8", "replace"); what = "osmjs %s (%s)" % (" ".join(job.args), " ".join(job.nodeflags)); files = dict(job.files, **{"args.txt": repr(job.nodeflags + job.args), "stdout.txt": r.out, "stderr.txt": r.err})
            end = re.search(r"^END (.*)$", err, re.M)
            if r.timed_out: ctx.violation("osmjs:hang", what, files)
            elif job.rc == 0 and (r.rc != 0 or not end): ctx.violation("osmjs:" + (r.crash_key() if r.crashed else "exit:%d" % r.rc), "%s\n%s" % (what, err[-3000:]), files)
            elif job.rc and not (end and end.group(1).startswith("exception")) and (r.rc != job.rc or end): ctx.violation("osmjs:" + (r.crash_key() if r.crashed else "accepted"), "%s should be refused: rc %d\n%s" % (what, r.rc, err[-3000:]), files)
            elif job.rc == 0 and end.group(1) != "ok" and not getattr(job, "anyend", False): ctx.violation("osmjs:exception", "%s: %s" % (what, end.group(1)), files)
            elif job.rc and ("Sanitizer" in err or "runtime error" in err): ctx.violation("osmjs:" + r.crash_key(), "%s\n%s" % (what, err[-3000:]), files)
            else:
                out = r.out.decode("utf-8", "surrogateescape"); lines = out.split("\n")
                if lines[-1] == "": lines.pop()
                elif not job.raw: ctx.violation("osmjs:output", "%s: output ends with %r" % (what, lines[-1][-100:]), files)
                try: e = job.judge(lines)
                except (ValueError, TypeError, KeyError, IndexError, AttributeError) as exn: e = ("output", "not understood: %r" % exn)
                if e: ctx.violation("osmjs:%s:%s" % (job.kind, e[0]), "%s: %s" % (what, e[1][:3000]), files)
                if job.kind == "leak":
                    m = re.search(r"^HEAP (\d+)", err, re.M); heap.append((job, int(m.group(1))))
            subprocess.run(["rm", "-rf", job.dir])
    if len(heap) == 2:
        n = 20; d = heap[1][1] - heap[0][1]; ctx.count("bytes more after %d times as many geometries" % n, d)
        if d > 300000: ctx.violation("osmjs:leak", "%d bytes more in use after %d times as many geometries" % (d, n), dict(heap[1][0].files))
