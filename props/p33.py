"""P33: objects which programs build, copy and change."""
import vp, cases, model, server, xmlio
from model import UNDEF

TECHNIQUE = "runtime monitoring: ASan+UBSan build, random programs on the object classes, everything they show afterwards compared with a model"
NOTE = "Random programs of up to 60 operations on six objects (create, set in all ways, copy, assign, lists filled, inserted into, changed, sorted, cleared), with extreme numbers and texts. Sampling."

def e(s): return model.esc(s).replace(",", "%2C")
NUM = {"id": (-2**63, 2**63 - 1), "version": (0, 2**32 - 1), "changeset": (-2**31, 2**31 - 1), "uid": (-2**31, 2**31 - 1)}
def number(rng, lo, hi): return rng.choice([lo, hi, 0, 1, hi - 1, lo + 1]) if rng.random() < .3 else rng.randint(max(lo, -10**6), 10**6) if rng.random() < .6 else rng.randint(lo, hi)
def ref(rng): return rng.choice([1, 2, 3, -1, 0]) if rng.random() < .5 else number(rng, -2**63, 2**63 - 1)
def tx(rng): return rng.choice(["", "a", "name", "x" * 255, "ä" * 255, "😀" * 255, "%", ",", " ", "\n"]) if rng.random() < .4 else model.text(rng, 60)
def c7(rng): return rng.choice([(0, 0), (1, -1), (1800000000, 900000000), (-1800000000, -900000000)]) if rng.random() < .3 else (rng.randint(-1800000000, 1800000000), rng.randint(-900000000, 900000000))

def near(rng, a):
    """a key that is almost the same"""
    r = rng.choice([a.swapcase(), a.upper(), a.capitalize(), a[:-1], a[1:], a + " ", " " + a, a + "x", a + a, a.replace("a", "b", 1), a[:-1] + "y"])
    return r if len(r) <= 255 else r[:254] + "z"

def program(rng):
    slots = [None] * 6; ops = []; out = []
    def op(*f): ops.append(",".join(map(str, f)))
    for _ in range(rng.choice([8, 15, 30, 60])):
        s = rng.randrange(6); o = slots[s]
        if o is None or rng.random() < .04:
            if rng.random() < .1: op("x", s); slots[s] = None; continue
            t = rng.choice("nwwrr"); n = model.Obj(t, 0); n.refpos = [] if t == "w" else None; slots[s] = n
            op("n", s, rng.choice(["w", "1", "7", "2000"]) if t == "w" else t); continue
        d = rng.randrange(6); same = [k for k in range(6) if slots[k] and slots[k].t == o.t]; k = rng.random()
        if k < .16:
            a = rng.choice(["id", "version", "changeset", "uid", "timestamp", "user", "visible", "other"])
            if a in NUM: v = number(rng, *NUM[a]); setattr(o, a, v); op("a", s, a, e(rng.choice(["%d", "%d", "%d", "+%d" if v > 0 else "%d", "0%d" if v > 0 else "%d"]) % v))
            elif a == "timestamp":
                if rng.random() < .2: op("a", s, a, e(rng.choice(["", "yesterday", "2012-13-01T00:00:00Z", "2012-01-01"]))); out.append("E invalid %d" % len(ops))
                else: v = rng.choice([1, 10**9, 2**31 - 1, 2**31, 4102444800]) if rng.random() < .5 else rng.randint(1, 2 * 10**9); o.ts = v; op("a", s, a, e(xmlio.iso(v)))
            elif a == "user":
                v = tx(rng)
                if rng.random() < .1: op("u", s, e(rng.choice(["x" * 1022, "ä" * 600, "😀" * 256]))); out.append("E length %d" % len(ops))
                o.user = v; op("a", s, a, e(v))
            elif a == "visible": v = rng.choice(["true", "false", "1", "yes"]); o.visible = v != "false"; op("a", s, a, v)
            else: op("a", s, rng.choice(["Id", "lat", "", "ids", "timestam", "x"]), e(tx(rng)))
        elif k < .3:
            a = rng.choice("ivcuteb")
            if a in "ivcu": n = {"i": "id", "v": "version", "c": "changeset", "u": "uid"}[a]; v = number(rng, *NUM[n]); setattr(o, n, v)
            elif a == "b": v = rng.randrange(2); o.visible = bool(v)
            else:
                v = rng.choice([0, 1, 10**9, 2**31 - 1, 2**31, 2**32, 4102444800]); 
                if a == "t": o.ts = v
                else: o.endtime = v
            op("i", s, a, v)
        elif k < .34: v = tx(rng); o.user = v; op("u", s, e(v))
        elif k < .44: a, b = tx(rng) if rng.random() < .5 else rng.choice(["name", "highway", "a"]), tx(rng); a = near(rng, a) if rng.random() < .2 else near(rng, o.tags[-1][0]) if o.tags and rng.random() < .2 else a; o.tags.append((a, b)); op("t", s, e(a), e(b))
        elif k < .46: o.tags = []; op("T", s)
        elif k < .48:
            if slots[d]: slots[d].tags = list(o.tags); op("g", s, d)
        elif k < .5:
            if o.tags: i = rng.randrange(len(o.tags)); a, b = tx(rng), tx(rng); o.tags[i] = (a, b); op("k", s, i, e(a), e(b))
        elif k < .56: slots[d] = o.copy(); op("y", s, d)
        elif k < .61: d = rng.choice(same); slots[d] = o.copy(); op("=", s, d)
        elif k < .64:
            a = rng.choice([t[0] for t in o.tags] or ["x"]) if rng.random() < .7 else tx(rng)
            if rng.random() < .4: a = near(rng, a)
            v = next((y for x, y in o.tags if x == a), None); op("G", s, e(a)); out.append("G " + ("-" if v is None else model.esc(v)))
        elif o.t == "n":
            if rng.random() < .5: o.x, o.y = c7(rng); op("P", s, o.x, o.y)
            elif o.x != UNDEF: x, y = c7(rng); o.x, o.y = x, y; op("q", s, "%.7f" % (x / 1e7)); op("Q", s, "%.7f" % (y / 1e7))
        elif o.t == "w":
            q = rng.random(); n = len(o.refs)
            if q < .35:
                r, f = ref(rng), rng.randrange(4)
                if f == 1 and r == 2**63 - 1: r = 0
                o.refs.append(r); o.refpos.append(None)
                if f == 1: o.refs.append(r + 1); o.refpos.append(None)
                op("w", s, r, f)
            elif q < .55: r, p = ref(rng), c7(rng); o.refs.append(r); o.refpos.append(p); op("W", s, r, p[0], p[1], rng.randrange(2))
            elif q < .58: o.refs, o.refpos = [], []; op("c", s)
            elif q < .68:
                d = rng.choice(same)
                if d != s:
                    t = slots[d]; i = rng.randint(0, len(t.refs)); a = rng.randint(0, n); b = rng.randint(a, n); t.refs[i:i] = o.refs[a:b]; t.refpos[i:i] = o.refpos[a:b]; op("I", s, d, i, a, b)
            elif q < .71: d = rng.choice(same); slots[d].refs, slots[d].refpos = list(o.refs), list(o.refpos); op("L", s, d)
            elif not n: pass
            elif q < .82: f = rng.randrange(4); i = {1: 0, 2: n - 1}.get(f, rng.randrange(n)); v = ref(rng); o.refs[i] = v; op("m", s, i, v, f)
            elif q < .9: i = rng.randrange(n); p = c7(rng); o.refpos[i] = p; op("p", s, i, *p)
            elif q < .95: z = sorted(zip(o.refs, o.refpos), key=lambda t: t[0]); o.refs, o.refpos = [t[0] for t in z], [t[1] for t in z]; op("s", s)
            else: o.refs.reverse(); o.refpos.reverse(); op("v", s)
        else:
            q = rng.random(); n = len(o.members); m = (rng.choice("nwr") if rng.random() < .95 else rng.choice("xaN"), ref(rng), tx(rng))
            if rng.random() < .04:
                # names of roles which are too long are refused; the member gets another one afterwards or is thrown away
                long = e(rng.choice(["x" * 1022, "ä" * 511, "😀" * 256, "y" * 5000]))
                if n and rng.random() < .5: i = rng.randrange(n); op("M", s, i, m[0], m[1], long); out.append("E length %d" % len(ops)); o.members[i] = m; op("M", s, i, m[0], m[1], e(m[2]))
                else: op("r", s, m[0], m[1], long); out.append("E length %d" % len(ops)); o.members = []; op("C", s)
                continue
            if q < .7: o.members.append(m); op("r", s, m[0], m[1], e(m[2]))
            elif q < .73: o.members = []; op("C", s)
            elif n: i = rng.randrange(n); o.members[i] = m; op("M", s, i, m[0], m[1], e(m[2]))
    return slots, ops, out

def shown(slots):
    r = []
    for i, o in enumerate(slots):
        if o is None: r.append("S %d" % i); continue
        r.append("S %d %s" % (i, o.line()))
        if o.t == "n": r.append("X %.7f %.7f" % ((o.x / 1e7, o.y / 1e7) if o.x != UNDEF else (0, 0)))
        elif o.t == "w":
            f = o.refs[::-1] + ["|"] + [int(p is not None) for p in o.refpos[::-1]] + ["|", len(o.refs), int(not o.refs), int(bool(o.refs) and o.refs[0] == o.refs[-1]), int(bool(o.refs) and o.refpos[-1] is not None)]
            if o.refs: a, b = o.refs[0], o.refs[-1]; f += [a, b, a, a, b, o.refs[len(o.refs) // 2], b, int(a == b), int(a != b), int(a < b)]
            r.append("X" + "".join("\t%s" % x for x in f))
        else: r.append("X" + "".join("\t%s" % x for x in [len(o.members), 1, 1] + [y for t, i, _ in o.members for y in ({"n": "node", "w": "way", "r": "relation"}.get(t, "unknown"), i, 1, 1)]))
        x = "\t%d\t%d\t%s\t%s" % (o.uid == -1, not o.tags, xmlio.iso(o.ts) if o.ts else "", xmlio.iso(o.endtime) if o.endtime else "")
        for k, t in enumerate(o.tags): x += "\t" + model.esc(next(v for a, v in o.tags if a == t[0])) + "".join("01"[o.tags[j] == t] for j in range(k))
        r.append("O" + x)
    return r

def check(ctx):
    exe, = vp.build_many([dict(src="harness/h33.cpp")]); rng = ctx.rng; jobs, want = [], []
    ctx.rule = "programs of 3..60 operations on six objects. Non-trivial: copies or assignments are made."
    ctx.assumptions = ["texts without NUL; names of up to 255 characters are accepted and ones over 1021 bytes refused, between that either", "indexes are in range; positions are whole or undefined; numbers in text are decimal and fit their type"]
    for i in range(ctx.n(12000, 400000)):
        slots, ops, out = program(rng); jobs.append("obj " + " ".join(ops)); want.append(out + shown(slots))
        ctx.case(jobs[-1], any(o[0] in "y=IL" for o in ops), {"program": ops[:12]} if i < 3 else None); ctx.count("operations", len(ops)); ctx.count("copies", sum(o[0] in "y=" for o in ops)); ctx.count("objects judged", sum(o is not None for o in slots)); ctx.count("texts refused", sum(l[0] == "E" for l in out))
    for j, w, r in zip(jobs, want, server.parallel(exe, jobs, batch=1500, timeout=240)):
        if r.crash or r.end != "ok": cases.report(ctx, j[:300], [], r, {"job.txt": j}, "object:"); continue
        if r.lines != w:
            k = next((k for k, (a, b) in enumerate(zip(r.lines, w)) if a != b), min(len(r.lines), len(w))); g, x = (r.lines[k:k + 1] or [""])[0], (w[k:k + 1] or [""])[0]
            f = next((n for n, (a, b) in enumerate(zip(g.split("\t"), x.split("\t"))) if a != b), "length")
            ctx.violation("object:%s:%s" % ((x or g)[:1] + (x.split(" ")[2][:1] if x[:1] == "S" and x.count(" ") > 1 else ""), f if isinstance(f, int) and f < 9 else "list"), "%s\n%s\ninstead of\n%s" % (j[:1500], g[:1500], x[:1500]), {"job.txt": j, "got.txt": "\n".join(r.lines), "expected.txt": "\n".join(w)})
