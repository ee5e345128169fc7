"""P26: the debug dump. Dumps of random data, from the handler and the example tools, parsed and compared with an independent rendering."""
import os, re, subprocess, time
import vp, model, cases, server
from p05 import first_file, suffix, ENC, objects
from p13 import with_end, history
import p14

TECHNIQUE = "runtime monitoring: ASan+UBSan build, text of dumps compared with an independent rendering of the same data"
NOTE = "Random data of all types and formats, with and without history, fed directly and from files, through the handler and the tools osmium_debug (both variants) and osmium_store_and_debug. Sampling."
B = lambda s: s if isinstance(s, bytes) else str(s).encode("utf-8", "surrogateescape")

def iso(t):
    if t == 0: return ""
    d, s = divmod(t, 86400)
    # civil from days
    z = d + 719468; era = z // 146097; doe = z - era * 146097; yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400; doy = doe - (365 * yoe + yoe // 4 - yoe // 100); mp = (5 * doy + 2) // 153
    dd = doy - (153 * mp + 2) // 5 + 1; m = mp + 3 if mp < 10 else mp - 9; y += m <= 2
    return "%04d-%02d-%02dT%02d:%02d:%02dZ" % (y, m, dd, s // 3600, s // 60 % 60, s % 60)
def deg(v): return "%s%d.%07d" % ("-" if v < 0 else "", abs(v) // 10**7, abs(v) % 10**7)

def obj(o, multi):
    out = [{"n": "node:", "w": "way:", "r": "relation:"}[o.t], "  id=%d" % o.id, "  version=%d" % o.version, "  uid=%d" % o.uid, b"  user=|" + B(o.user) + b"|",
           "  changeset=%d" % o.changeset, "  timestamp=" + iso(o.ts)]
    if multi: out += ["  visible=" + ("yes" if o.visible else "no"), "  endtime=" + iso(o.endtime)]
    out.append("  tags: (count=%d)" % len(o.tags))
    out += [b"    k=|" + B(k) + b"| v=|" + B(v) + b"|" for k, v in o.tags]
    if o.t == "n": out += ["  lon=" + deg(o.x), "  lat=" + deg(o.y)]
    elif o.t == "w": out += ["  node_count=%d" % len(o.refs), "  nodes:"] + ["    ref=%d" % r for r in o.refs]
    else: out += ["  members: (count=%d)" % len(o.members)] + [b"    type=" + B(m[0]) + b" ref=" + B(m[1]) + b" role=|" + B(m[2]) + b"|" for m in o.members]
    return out

CB = {"BN": "before_nodes", "AN": "after_nodes", "BW": "before_ways", "AW": "after_ways", "BR": "before_relations", "AR": "after_relations", "F": "final"}
def dump(trace, h, multi):
    """trace: list of callback names and objects"""
    out = []
    for t in trace:
        if t == "I":
            out += ["meta:", b"  generator=" + B(h.generator)]
            if h.bounds: out.append(("bounds", h.bounds))
        elif isinstance(t, str): out.append(CB[t])
        else: out += obj(t, multi)
    return out
def blocks(objs):
    out = ["I"]; last = None
    for o in objs:
        if o.t != last:
            if last: out.append(model.AFTER[last])
            out.append(model.BEFORE[o.t]); last = o.t
        out.append(o)
    if last: out.append(model.AFTER[last])
    return out + ["F"]

def compare(text, want):
    p = 0
    for w in want:
        if isinstance(w, tuple):
            e = text.find(b"\n", p); m = re.fullmatch(rb"  bounds=\((-?[\d.e+-]+),(-?[\d.e+-]+),(-?[\d.e+-]+),(-?[\d.e+-]+)\)", text[p:e])
            if not m: return "bounds line %r" % text[p:e]
            got = [float(x) for x in m.groups()]
            if any(abs(g - x / 1e7) > 4e-8 for g, x in zip(got, w[1])): return "bounds %r, not %r" % (text[p:e], w[1])
            p = e + 1; continue
        w = B(w) + b"\n"
        if text[p:p + len(w)] != w: return "%r, not %r" % (text[p:p + len(w) + 40], w)
        p += len(w)
    return "more text: %r" % text[p:p + 100] if p != len(text) else None

def check(ctx):
    ex = vp.REPO + "/examples/"
    exe, t1, t2, t3 = vp.build_many([dict(src="harness/h26.cpp"), dict(src=ex + "osmium_debug.cpp"), dict(src=ex + "osmium_debug.cpp", flags=["-DOSMIUM_DEBUG_WITH_ENDTIME"]), dict(src=ex + "osmium_store_and_debug.cpp")])
    rng = ctx.rng
    ctx.rule = "random objects with all fields x types of files x encodings, dumped by the handler with and without history; the tools on files and standard input; merges of two files. Non-trivial: at least one object."
    ctx.assumptions = ["the layout of the dump is the one of the pinned commit (the bounds may have any format with full precision)"]
    def report(what, text, want, files, r):
        if r.timed_out or r.rc: ctx.violation("dump:%s" % r.crash_key(), "%s rc %d %s" % (what, r.rc, r.err.decode("utf8", "replace")[-800:]), files); return
        e = compare(text, want)
        if e: ctx.violation("dump:%s:%s" % (what.split()[0], re.sub(r"[-\d.]+", "N", e)[:50]), "%s: %s" % (what, e), dict(files, **{"dump.txt": text}))
    jobs, info = [], []
    for i in range(ctx.n(1200, 30000)):
        multi = rng.random() < .4
        t = rng.choice(["osm", "osm", "osh", "osc"]); h = cases.rand_header(rng, t)
        if rng.random() < .5:
            g = model.Gen(rng, history=rng.random() < .5); objs = g.objs(rng.choice([0, 1, 3, 10, 40]), rng.choice(["sorted", "mixed", "n", "w", "r"]))
            if i in range(30, 36): objs = [g.huge("nwr"[i % 3])]; ctx.count("objects with more than 65536 parts")
            for o in objs:
                if rng.random() < .3: o.ts = rng.choice([0, 1, 253402300799, 951782400, rng.randint(1, 253402300799)])
                if rng.random() < .4: o.endtime = rng.choice([1, 2**31, rng.randint(1, 253402300799)])
            tr = []
            for x in blocks(objs):
                if rng.random() > .05 or not isinstance(x, str) or x == "I": tr.append(x)
            p = os.path.join(ctx.tmp, "d%d" % i)
            cases.write(p, ("\n".join(h.line() if x == "I" else x if isinstance(x, str) else x.line() for x in tr) + "\n").encode("utf-8", "surrogateescape")); src = "m:" + p
        else:
            e = rng.choice(ENC); p = os.path.join(ctx.tmp, "d%d%s" % (i, suffix(t, e)))
            objs = first_file(rng, p, t, e, h, objects(rng, t)); src = "f:%s:%s:%s" % (t, e, p); tr = blocks(objs)
            if e == "pbf" : h.multi = t != "osm"
        jobs.append("dump %d %s" % (multi, src)); info.append((p, dump(tr, h, multi or h.multi))); ctx.case("%d %s" % (i, jobs[-1]), bool(objs), {"objects": len(objs), "lines": len(info[-1][1])} if i < 4 else None)
        ctx.count("objects dumped", len(objs)); ctx.count("with history", multi or h.multi)
    for j, (p, want), r in zip(jobs, info, server.parallel(exe, jobs, batch=100, timeout=300)):
        files = {"input": open(p, "rb").read(), "job.txt": j}
        if r.crash or r.end != "ok": ctx.violation("dump:%s" % (r.crash or r.end), "%s: %s" % (j, r.crash or r.end), files)
        else:
            text = re.sub(rb"%([0-9A-F]{2})", lambda m: bytes([int(m.group(1), 16)]), "\n".join(r.lines).rstrip("\n").encode("latin-1"))
            e = compare(text, want); ctx.count("lines compared", len(want))
            if e: ctx.violation("dump:handler:" + re.sub(r"[-\d.]+", "N", e)[:50], "%s: %s" % (j, e), dict(files, **{"dump.txt": text}))
        os.unlink(p)
    # the tools
    from concurrent.futures import ThreadPoolExecutor
    work = []
    for i in range(ctx.n(60, 1500)):
        k = rng.choice("dehm"); t = "osm" if k == "d" and rng.random() < .6 else "osh"; e = rng.choice(ENC)
        p = os.path.join(ctx.tmp, "t%d%s" % (i, suffix(t, e))); h = cases.rand_header(rng, t)
        if k == "m":
            def some(n):
                o = p14.uniq(p14.objset(rng, n)); return sorted(o, key=lambda o: ("nwr".index(o.t), abs(o.id), o.id < 0, o.version))
            a = [o for o in some(rng.choice([0, 3, 20]))]; ids = {(o.t, abs(o.id)) for o in a}
            b = [o for o in some(rng.choice([0, 3, 20])) if (o.t, abs(o.id)) not in ids]
            # one object per absolute id and version, so that the order is determined
            one = lambda l: list({(o.t, abs(o.id), o.version): o for o in l}.values()); a, b = one(a), one(b)
            a.sort(key=lambda o: ("nwr".index(o.t), abs(o.id), o.version)); b.sort(key=lambda o: ("nwr".index(o.t), abs(o.id), o.version))
            if len({(o.t, abs(o.id), o.id < 0) for o in a + b}) != len({(o.t, abs(o.id)) for o in a + b}):
                for o in a + b: o.id = abs(o.id)
            p2 = os.path.join(ctx.tmp, "u%d%s" % (i, suffix("osh", e)))
            a = list(first_file(rng, p, "osh", e, h, a)); b = list(first_file(rng, p2, "osh", e, cases.rand_header(rng, "osh"), b))
            alls = sorted(a + b, key=lambda o: ("nwr".index(o.t), abs(o.id), o.version))
            hh = model.Header(""); hh.bounds = None; hh.multi = False; hh.generator = ""
            work.append((k, [t3, p, p2], None, dump(blocks(alls), hh, False), [p, p2], len(alls)))
        else:
            objs = history(rng, rng.choice([1, 4]), False) if k == "e" else objects(rng, t)
            objs = list(first_file(rng, p, t, e, h, objs))
            if k == "e": objs = with_end(objs)
            if e == "pbf": h.multi = t != "osm"
            work.append((k, [t2 if k == "e" else t1, p], None, dump(blocks(objs), h, k == "e" or h.multi), [p], len(objs)))
    def run(w): return w, vp.run_confirm(w[1], timeout=60)
    with ThreadPoolExecutor(8) as ex:
        for (k, cmd, _, want, ps, n), r in ex.map(run, work):
            files = {os.path.basename(x): open(x, "rb").read() for x in ps}
            report({"d": "osmium_debug", "h": "osmium_debug", "e": "osmium_debug_with_endtime", "m": "osmium_store_and_debug"}[k], r.out, want, files, r)
            ctx.case("tool " + repr(ps), n > 0); ctx.count("tool runs " + os.path.basename(cmd[0]))
            for x in ps: os.unlink(x)
