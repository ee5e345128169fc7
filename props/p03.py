"""P03: XML output fidelity. Random object streams written by the library, files read by an independent reader."""
import bz2, gzip, os
from xml.parsers.expat import ExpatError
import vp, model, xmlio, cases, server

TECHNIQUE = "runtime monitoring: ASan+UBSan build, output bytes checked by an independent strict XML reader against the model"
NOTE = ("Random object streams through the real writer; the finished file is decompressed and parsed by Python (expat) and compared "
        "field by field with what was written. Sampling, not exhaustive.")

def decompress(data, enc):
    if enc == "gz": return gzip.decompress(data)
    if enc == "bz2": return bz2.decompress(data)
    return data

def as_written(o, ftype):
    """What a file of this type says about an object."""
    e = o.copy()
    if e.uid <= 0: e.uid, e.user = -1, ""
    e.endtime = 0
    e.refpos = None
    if ftype == "osh": e.visible_written = "true" if o.visible else "false"
    else: e.visible_written = None
    e.visible = True
    if ftype == "osc": e.section = "delete" if not o.visible else ("create" if o.version == 1 else "modify")
    else: e.section = None
    if (e.x == model.UNDEF) != (e.y == model.UNDEF): pass
    return e

def compare(ctx, what, data, enc, ftype, h, gen, objs, files):
    """True if data is exactly the document expected."""
    try: raw = decompress(data, enc)
    except Exception as e:
        ctx.violation("compressed-stream", "%s: output does not decompress: %s" % (what, e), files); return False
    files = dict(files); files["output.xml"] = raw
    try: d = xmlio.parse(raw)
    except (ExpatError, ValueError, KeyError) as e:
        ctx.violation("malformed", "%s: output is not a well-formed OSM document: %r" % (what, e), files); return False
    if d.problems: ctx.violation("structure:" + d.problems[0].split(" ")[0], "%s: %s" % (what, d.problems[:3]), files); return False
    if d.root != ("osmChange" if ftype == "osc" else "osm"): ctx.violation("root", "%s: root element %s" % (what, d.root), files); return False
    if d.rootattrs.get("version") != "0.6": ctx.violation("version", "%s: %s" % (what, d.rootattrs), files); return False
    if d.rootattrs.get("generator") != gen: ctx.violation("generator", "%s: generator %r instead of %r" % (what, d.rootattrs.get("generator"), gen), files); return False
    if d.bounds != (h.bounds if h else None): ctx.violation("bounds", "%s: bounds %r instead of %r" % (what, d.bounds, h.bounds), files); return False
    exp = [as_written(o, ftype) for o in objs]
    a = [o.line() for o in exp]; b = [o.line() for o in d.objs]
    df = model.diff(a, b)
    if df:
        files["expected.txt"] = "\n".join(a); files["got.txt"] = "\n".join(b)
        ctx.violation(model.diff_key(a, b), "%s: %s" % (what, df), files); return False
    for e, o in zip(exp, d.objs):
        if e.visible_written != o.visible_written:
            ctx.violation("visible:" + ftype, "%s: visible=%r instead of %r on %s" % (what, o.visible_written, e.visible_written, o.line()), files); return False
        if e.section != o.section:
            ctx.violation("section", "%s: section %r instead of %r for %s" % (what, o.section, e.section, o.line()), files); return False
    return True

DEFGEN = "Osmium (http://wiki.openstreetmap.org/wiki/Osmium)"

def write_job(ctx, name, ftype, enc, h, objs, gen, explicit, opts=None):
    p = os.path.join(ctx.tmp, name)
    m = os.path.join(ctx.tmp, name + ".model")
    open(m, "w").write("\n".join(model.trace(h, objs)) + "\n")
    if ctx.rng.random() < .2: cases.write(p, ctx.rng.choice([b"x", b"<osm>" * 40000, b"\0" * 100000])); ctx.count("files written over existing ones")
    t, e = (ftype, {"xml": "xml"}.get(enc, enc)) if explicit else ("-", "-")
    o = opts or ("-" if gen is None else "-gen=" + model.esc(gen))
    return "write %s %s %s %s %s" % (t, e, o, p, m), p, m

def check(ctx):
    exe = vp.build("harness/io.cpp")
    rng = ctx.rng
    ctx.rule = ("random object streams (any order of types, hostile text, extreme ids/positions/timestamps, anonymous users, deleted "
                "objects) x file type osm/osh/osc x xml/gz/bz2 x generator and bounds, from empty to several MB; output parsed "
                "by an independent reader and compared field by field. Non-trivial: at least one object.")
    ctx.assumptions = ["text consists of characters XML 1.0 can represent", "user id <= 0 means anonymous", "child compressors gzip and bzip2 work"]
    N = ctx.n(700, 14000)
    todo = []
    for i in range(N):
        ftype = rng.choice(["osm", "osh", "osc", "osc"])
        enc = rng.choices(["xml", "gz", "bz2"], [6, 2, 2])[0]
        g = model.Gen(rng, history=ftype != "osm" or rng.random() < 0.2, meta=rng.choice([0, 0.5, 1, 1]), tsmax=253402300799, bigversions=True)
        r = rng.random()
        if r < 0.05: objs = []
        elif r < 0.85: objs = g.objs(rng.randint(1, 25), rng.choice(["sorted", "sorted", "mixed", "reverse", "n", "w", "r"]))
        elif r < 0.98: objs = g.objs(rng.randint(30, 200), rng.choice(["sorted", "mixed"]))
        else:
            objs = g.objs(rng.randint(1, 5))
            w = g.obj("w"); w.refs = [model.any_id(rng) for _ in range(rng.choice([2000, 5000]))]
            n = g.obj("n"); n.tags = [("k", "<&\"" * rng.choice([1000, 4000, 70000]))] + [(model.text(rng, 255), model.text(rng, 255)) for _ in range(150)]
            objs += [n, w]
        if i in (11, 12, 13): objs = [g.obj("n"), g.huge("nwr"[i - 11])]; ctx.count("objects with more than 65536 parts")
        for o in objs:      # more spread of versions 1 for change files
            if ftype == "osc" and rng.random() < 0.4: o.version = rng.choice([0, 1, 2])
            if rng.random() < .05: o.uid = rng.choice([-2, -2**31, 0])
            if rng.random() < .03: o.changeset = rng.choice([-1, -2**31, -rng.randint(1, 10**6)])
            if rng.random() < .02: o.ts = -rng.choice([1, 86400, rng.randint(1, 2**31)])
        h = cases.rand_header(rng, ftype, gen=False)
        gen = None if rng.random() < 0.4 else model.text(rng, 80)
        job, p, m = write_job(ctx, "c%d.%s%s" % (i, ftype, cases.SUFFIX[enc]), ftype, enc, h, objs, gen, rng.random() < 0.3)
        todo.append((job, p, m, ftype, enc, h, DEFGEN if gen is None else gen, objs))
        ctx.case(open(m, "rb").read() + ftype.encode() + enc.encode(), bool(objs), {"type": ftype, "enc": enc, "objects": len(objs)})
        ctx.count("objects", len(objs)); ctx.count("%s %s" % (ftype, enc))
    res = server.parallel_locales(ctx, exe, [t[0] for t in todo], batch=100)
    for (job, p, m, ftype, enc, h, gen, objs), r in zip(todo, res):
        files = {"model.txt": open(m, "rb").read(), "job.txt": job}
        if cases.report(ctx, job, [], r, files):
            data = open(p, "rb").read()
            ctx.count("output bytes", len(data))
            compare(ctx, job, data, enc, ftype, h, gen, objs, files)
        os.unlink(m)
        if os.path.exists(p): os.unlink(p)
