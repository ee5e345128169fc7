"""P23: type and encoding of files from names and settings, against an independent table and model."""
import os
import vp, model, cases, server, p20

TECHNIQUE = "runtime monitoring: ASan+UBSan build, state of file descriptions after every operation compared with an independent model"
NOTE = "Random names (all suffixes, unknown ones, dots and colons in odd places, URLs, stdin/stdout) and random sequences of setters, copies, assignments, opens. Sampling."

TAB = {"pbf": ("osm", "pbf"), "osm.pbf": ("osm", "pbf"), "osh.pbf": ("history", "pbf")}
for s, t in (("osm", "osm"), ("osh", "history"), ("osc", "change")):
    for c, e in (("", "xml"), (".gz", "gz"), (".bz2", "bz2")): TAB[s + c] = (t, e)
TSUF = {"osm": ".osm", "history": ".osh", "change": ".osc"}
ESUF = {"pbf": ".pbf", "xml": "", "gz": ".gz", "bz2": ".bz2"}
TNAME = {"osm": "osm", "history": "history", "osh": "history", "change": "change", "osc": "change"}
ENAME = {"pbf": "pbf", "xml": "xml", "xmlgz": "gz", "gz": "gz", "xmlbz2": "bz2", "bz2": "bz2"}

class F:
    def __init__(self, name):
        self.open = False
        if name in ("", "-"): self.name, self.t, self.e = "", "osm", "pbf"; return
        self.name = name
        if name.startswith(("http:", "https:")): self.t, self.e = "osm", "xml"; return
        base = name.rsplit("/", 1)[-1]
        self.suffix(base.split(".", 1)[1] if "." in base else "")
    def suffix(self, s): self.t, self.e = TAB.get(s, ("osm", "pbf"))
    def without(self):
        d, sl, b = self.name.rpartition("/")
        return d + sl + b.split(".", 1)[0]
    def line(self, fd=None):
        w = self.without()
        return "F %s %s %d %d name=%s without=%s default=%s fd=" % (self.t, self.e, self.t != "osm", self.e == "pbf", model.esc(self.name), model.esc(w), model.esc(w + TSUF[self.t] + ESUF[self.e]))

SUFS = list(TAB) + ["", "OSM", "osm.xml", "xml", "osm.gz.bz2", "gz", "bz2", "osm.bz", "osc.pbf", "osmx", "osm.", ".osm", "x.osm", "osm.pbf.gz", "osh.xml", "osm.PBF", "osh.gz ", "txt"]
def name(rng):
    r = rng.random()
    if r < .06: return rng.choice(["", "-", "--", "-x", "-.osm", "- ", "/dev/stdin"])
    base = rng.choice(["a", "planet", "x y", "Ünïcode", "osm", "pbf", "http", "https", "a:b", "", "-", "1", "osh", "a-b_c"])
    s = rng.choice(SUFS); b = base + ("." if rng.random() < .9 and (s or rng.random() < .3) else "") + s
    if rng.random() < .08: b = base
    r = rng.random()
    if r < .5: return b
    d = "/".join(rng.choice(["dir", "d.osm", "..", ".", "v1.2.osh.gz", "", "osm", "x.pbf", "ä"]) for _ in range(rng.randint(1, 3)))
    if r < .85: return d + "/" + b
    if r < .95: return rng.choice(["http", "https", "ftp", "HTTP", "httpx", "file"]) + "://" + rng.choice(["example.org", "a.osm", "localhost:80"]) + "/" + rng.choice(["", d + "/"]) + b
    return d + "/"

def check(ctx):
    exe, = vp.build_many([p20.spec()])
    rng = ctx.rng
    ctx.rule = "names x sequences of 0..6 setters (by name and by object, known and unknown), copies, assignments, opening and closing. Non-trivial: distinct job."
    ctx.assumptions = []
    jobs, exps = [], []
    for i in range(ctx.n(30000, 600000)):
        n = name(rng); f = F(n); exp = [f.line()]; ops = []
        for _ in range(rng.choice([0, 0, 1, 2, 3, 6])):
            op = rng.choice("tteeTEnnscaaA") if rng.random() < .9 else "o"
            if op == "t":
                v = rng.choice(list(TNAME) + ["", "OSM", "osm ", "pbf", "xml", "his"])
                if v in TNAME: f.t = TNAME[v]
                else: exp.append("ArgumentError " + model.esc(v))
            elif op == "e":
                v = rng.choice(list(ENAME) + ["", "PBF", "zip", "osm", "xml.gz", "xmlbz"])
                if v in ENAME: f.e = ENAME[v]
                else: exp.append("ArgumentError " + model.esc(v))
            elif op == "T": v = f.t = rng.choice(["osm", "history", "change"])
            elif op == "E": v = f.e = rng.choice(["pbf", "xml", "gz", "bz2"])
            elif op == "n":
                v = name(rng); f.name = "" if v == "-" else v
            elif op == "s": v = rng.choice(SUFS); f.suffix(v)
            elif op == "A": v = name(rng); f = F(v)
            elif op == "o":
                if f.open: continue
                p = os.path.join(ctx.tmp, "o%d" % (i % 50)); f.name = p; exp.append(f.line()); ops.append("n" + model.esc(p))
                if f.e not in ("pbf", "xml"): f.e = "xml"; exp.append(f.line()); ops.append("Exml")
                v = ""; f.open = True; exp.append("OPEN 1"); ctx.count("opened")
            else: v = ""
            ops.append(op + model.esc(v)); ctx.count("operation " + op)
            exp.append(f.line() if op not in "ca" else F.line(f))
        # fd: -1 unless open; which number does not matter
        jobs.append(" ".join(["file", model.esc(n)] + ops)); exps.append((exp, ops)); ctx.case(jobs[-1], True, {"job": jobs[-1], "expected": exp} if i < 3 else None)
    for j, (e, ops), r in zip(jobs, exps, server.parallel(exe, jobs, batch=2000, timeout=240)):
        if r.crash or r.end != "ok": cases.report(ctx, j[:300], e, r, {"job.txt": j}, "file:"); continue
        # check open state along the operations
        got = [l[:l.index("fd=") + 3] if l.startswith("F ") else l for l in r.lines]
        bad = None
        if got != e: bad = model.diff(e, got)
        else:
            fds = [int(l[l.index("fd=") + 3:]) for l in r.lines if l.startswith("F ")]
            opened = False; k = 1
            if fds[0] != -1: bad = "open from the start"
            for o in ops:
                if o[0] == "o": opened = True
                if o[0] == "A": opened = False
                w = opened and o[0] not in "ca"
                if (fds[k] > 2 if w else fds[k] == -1) is False: bad = "after %s the file descriptor is %d" % (o, fds[k]); break
                k += 1
        if bad:
            ctx.violation("name" if len(ops) == 0 else "ops", "%s: %s" % (j[:300], bad), {"job.txt": j, "expected.txt": "\n".join(e), "got.txt": "\n".join(r.lines)})
