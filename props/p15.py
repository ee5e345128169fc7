"""P15: relation assembly. Callbacks of an assembler over random graphs of relations checked against the definition."""
import os, re
import vp, model, xmlio, cases, server
from p05 import first_file, suffix, ENC

TECHNIQUE = "runtime monitoring: ASan+UBSan build with assertions, online event log of assembler callbacks checked offline against the relation graph"
NOTE = ("Random graphs of relations with shared, repeated, missing, nested and self-referencing members, every choice of wanted types and "
        "member filters, directly and from files; the event log (complete, not in any relation, all available, remaining, nested handler) "
        "is judged against the graph. Sampling.")

def graph(rng):
    g = model.Gen(rng, undef_pos=False, anon_user=False, plain_text=True, maxtags=2, maxrefs=3)
    g.users = [(1, "a")]
    objs = []; ids = {}
    span = rng.choice([3, 8, 30, 200]); base = rng.choice([0, 0, 1, 2**31 - 5])
    for t in "nwr":
        n = 0 if rng.random() < .2 else rng.randint(1, span)
        s = {(base + rng.randint(0, span)) * (-1 if rng.random() < .15 else 1) for _ in range(n)}
        ids[t] = sorted(s, key=lambda i: (abs(i), i))
    order = rng.choice(["nwr"] * 8 + ["rwn", "wnr", "rnw"])
    some = {t: ids[t] for t in "nwr"}
    for t in order:
        for i in ids[t]:
            o = g.obj(t, i)
            if o.uid <= 0: o.uid, o.user = 1, "a"
            o.tags = [(k, v) for k, v in o.tags if k != "skip"]
            if t == "r":
                o.members = []
                for _ in range(rng.choice([0, 1, 1, 2, 3, 8])):
                    mt = rng.choice("nwr") if rng.random() < .97 else "r"
                    have = some[mt]
                    if have and rng.random() < .92: ref = rng.choice(have)
                    else: ref = base + rng.randint(-2, span + 3)
                    if rng.random() < .05: ref = -ref
                    role = rng.choice(["", "outer", "x", "-", "-inner"]) if rng.random() < .5 else ""
                    o.members.append((mt, ref, role))
                    if rng.random() < .1: o.members.append(o.members[-1])
                if rng.random() < .12: o.tags.append(("skip", "1"))
            objs.append(o)
    return objs

def large(rng, kind):
    """graphs with more than 65536 relations, members of a relation, or relations of a member"""
    n = rng.randint(65600, 70000)
    def rel(i, members):
        o = model.Obj("r", i); o.version = 1; o.uid, o.user = 1, "a"; o.members = members; return o
    def nod(i):
        o = model.Obj("n", i); o.version = 1; o.uid, o.user = 1, "a"; o.x = i; o.y = -i; return o
    if kind == "relations": return [nod(i) for i in range(1, 9)] + [rel(i, [("n", i % 8 + 1, "")] if i < n - 8 else [("n", n - i + 1, ""), ("r", i - 66000, "")]) for i in range(1, n)]
    if kind == "members": return [nod(i) for i in range(1, n)] + [rel(1, [("n", rng.randint(1, n), "") for _ in range(n)]), rel(2, [("n", i, "x") for i in range(1, n)])]
    return [nod(1), nod(2)] + [rel(i, [("n", 1, "")] * (1 + i % 2)) for i in range(1, n)]

def judge(objs, wanted, nested, h, lines, stop=-1):
    """returns list of problems (key, text)"""
    bad = []
    if "P2" not in lines: return [("pass1", "second pass not reached")]
    for l in lines:
        if l.startswith("BAD") or "BADINFO" in l: bad.append(("info", l[:300]))
    k = lines.index("P2")
    if k: bad.append(("pass1", "callbacks in pass 1: %s" % lines[0][:200]))
    lines = lines[k + 1:]
    kept = [o for o in objs if o.t == "r" and not any(a == "skip" for a, _ in o.tags)]
    obj = {(o.t, o.id): o for o in objs}
    order = {(o.t, o.id): i for i, o in enumerate(objs)}
    complete_at = {}; incomplete = []; wants = set()
    for r in kept:
        w = [(t, ref) for t, ref, role in r.members if t in wanted and not role.startswith("-")]
        wants.update(w)
        if not w: continue
        if all(m in order for m in w): complete_at.setdefault(max(order[m] for m in w), []).append(r)
        else: incomplete.append(r)
    def dump(what, r, full):
        s = what + " " + r.line()
        for t, ref, role in r.members:
            ok = t in wanted and not role.startswith("-") and (t, ref) in obj
            s += "|" + (obj[(t, ref)].line() if ok else "-")
        return s
    # expected sequence of groups: per object the events, then the nested handler's line
    pos = 0; seenA = []
    def take(prefixes):
        nonlocal pos
        out = []
        while pos < len(lines) and lines[pos][:2] in prefixes:
            out.append(lines[pos]); pos += 1
        return out
    # the notice and what follows it are taken out first
    rest = []; i = 0
    while i < len(lines):
        if lines[i] == "A":
            j = i + 1; left = []
            while j < len(lines) and lines[j].startswith("L "): left.append(lines[j]); j += 1
            seenA.append((len(rest), left)); i = j
        else: rest.append(lines[i]); i += 1
    exp = []
    def H(s):
        if nested: exp.append("H " + s)
    H(h.line()); last = None; last_wanted = counted = 0
    for i, o in enumerate(objs):
        if o.t != last:
            if last: H(model.AFTER[last])
            H(model.BEFORE[o.t]); last = o.t
        if o.t in wanted:
            exp.append(sorted(dump("C", r, True) for r in complete_at.get(i, [])))
            if (o.t, o.id) not in wants: exp.append("U " + o.line())
            while counted < len(exp): last_wanted += len(exp[counted]) if isinstance(exp[counted], list) else 1; counted += 1
        H(o.line())
    if last: H(model.AFTER[last])
    H("F")
    flat = []
    p = 0; got = list(rest)
    for e in exp:
        if isinstance(e, list):
            got[p:p + len(e)] = sorted(got[p:p + len(e)]); flat += e; p += len(e)
        else: flat.append(e); p += 1
    if stop >= 0:   # the nested handler stopped reading in its call number stop
        at = [k for k, l in enumerate(flat) if l.startswith("H ")][stop]
        stopped = at + 1 < last_wanted
        if flat[at] != "H F": flat = flat[:at + 1] + ["H F"]
    d = model.diff(flat, got)
    if d:
        kinds = [(a[:1], b[:1]) for a, b in zip(flat, got) if a != b][:1]
        bad.append(("events:%s" % ("/".join(kinds[0]) if kinds else "count"), d))
    if stop >= 0 and not seenA: pass
    elif stop >= 0 and stopped: bad.append(("available-stopped", "notice that all members are available came although reading was stopped before"))
    elif len(seenA) != 1: bad.append(("available-count", "notice that all members are available came %d times" % len(seenA)))
    else:
        at, left = seenA[0]
        if at < last_wanted: bad.append(("available-early", "notice came before the last wanted object"))
        if not d and nested and at > rest.index("H F"): bad.append(("available-late", "notice came after final"))
        e = sorted(dump("L", r, False) for r in incomplete)
        d = model.diff(e, sorted(left))
        if d: bad.append(("incomplete", "relations left: " + d))
    return bad

def tool_blocks(objs):
    """expected output blocks of osmium_relation_members"""
    obj = {(o.t, o.id): o for o in objs}; out = []
    name = {"n": "node", "w": "way", "r": "relation"}
    for r in objs:
        if r.t != "r" or not r.members: continue
        ok = all((t, ref) in obj for t, ref, _ in r.members)
        s = "Relation %d%s\n" % (r.id, "" if ok else " (INCOMPLETE)")
        for k, v in r.tags: s += "  %s=%s\n" % (k, v)
        for i, (t, ref, role) in enumerate(r.members):
            s += "  [%d] Member %s %d with role '%s'" % (i, name[t], ref, role)
            if (t, ref) in obj:
                s += "\n" + "".join("      %s=%s\n" % kv for kv in obj[(t, ref)].tags)
            else: s += " (NOT IN INPUT FILE)\n"
        out.append(s + "\n")
    return out

def check(ctx):
    exe, plain, tool = vp.build_many([dict(src="harness/h15.cpp"), dict(src="harness/h15.cpp", variant="plain"), dict(src=vp.REPO + "/examples/osmium_relation_members.cpp", variant="plain")])
    rng = ctx.rng
    ctx.rule = ("random graphs (0..200 ids per type, both signs; members shared, repeated, missing, nested, self-referencing, unwanted by role or "
                "type; relations skipped; types missing from the file) x 7 choices of wanted types x with and without nested handler x direct, xml, gz, "
                "bz2, pbf; types in any order; graphs with more than 65536 relations, members of one relation, relations of one member; nested handlers which stop reading anywhere. Non-trivial: a kept relation with a wanted member.")
    ctx.assumptions = ["one version per object, objects of a type are consecutive", "member filters keep only members of the wanted types",
                       "a relation without wanted members is neither complete nor incomplete"]
    jobs, info, tools = [], [], []
    for i in range(ctx.n(700, 25000)):
        objs = graph(rng)
        h = cases.rand_header(rng, "osm", gen=False)
        enc = rng.choice([None, None, None, "xml", "gz", "bz2", "pbf"])
        p = os.path.join(ctx.tmp, "g%d" % i)
        if enc is None: cases.write(p, ("\n".join(model.trace(h, objs)) + "\n").encode()); src = "m:" + p
        else:
            p += suffix("osm", enc); objs = list(first_file(rng, p, "osm", enc, h, objs)); src = "f:osm:%s:%s" % (enc, p)
            if len(tools) < ctx.n(40, 400): tools.append((p, objs))
        wanted = rng.choice(["nwr", "nwr", "w", "n", "r", "nw", "nr", "wr"]); nested = rng.random() < .7
        stop = -1
        if nested and rng.random() < .25:
            n = 1 + len(objs) + 2 * len({o.t for o in objs}); stop = rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n), rng.randrange(n)]); ctx.count("stopped by the nested handler")
        jobs.append("asm %s %s %s %s" % (wanted, "1@%d" % stop if stop >= 0 else int(nested), src, src)); info.append((objs, wanted, nested, h, p, stop))
        kept = [o for o in objs if o.t == "r" and any(t in wanted and r[:1] != "-" for t, _, r in o.members)]
        ctx.case("%d %s %s" % (i, wanted, enc), bool(kept), {"wanted": wanted, "relations": len(kept), "objects": len(objs), "from": enc or "direct"})
    for kind in ("relations", "members", "uses"):
        objs = large(rng, kind); h = cases.rand_header(rng, "osm", gen=False); p = os.path.join(ctx.tmp, "large-" + kind)
        cases.write(p, ("\n".join(model.trace(h, objs)) + "\n").encode())
        jobs.append("asm %s 1 m:%s m:%s" % (rng.choice(["nr", "nwr"]), p, p)); info.append((objs, jobs[-1].split(" ")[1], 1, h, p, -1))
        ctx.case("large " + kind, True)
    k = len(jobs) // 2
    res = server.parallel(exe, jobs[:k], batch=60, timeout=240) + server.parallel(plain, jobs[k:], batch=100, timeout=240, env=vp.KEEP)
    for j, (objs, wanted, nested, h, p, stop), r in zip(jobs, info, res):
        f = {"job.txt": j, "input": open(p, "rb").read(), "got.txt": "\n".join(r.lines)}
        if r.crash: ctx.violation("crash:" + r.crash, "%s: %s\n%s" % (j, r.crash, r.run.err[-1500:].decode("utf-8", "replace")), f); continue
        if r.end != "ok": ctx.violation("exception", "%s: %s" % (j, r.end), f); continue
        for c, n in (("C ", "complete relations"), ("L ", "incomplete relations"), ("U ", "objects in no relation"), ("A", "notices")):
            ctx.count(n, sum(l.startswith(c) for l in r.lines))
        for key, msg in judge(objs, wanted, nested, h, r.lines, stop): ctx.violation(key, "%s: %s" % (j, msg), f)
    for p, objs in tools:
        run = vp.run_confirm([tool, p], timeout=60, env=vp.KEEP); ctx.count("tool runs")
        f = {"input": open(p, "rb").read(), "got.txt": run.out}
        if run.rc: ctx.violation("tool:failed", "osmium_relation_members exits %s" % run.rc, f); continue
        body = run.out.decode("utf-8", "replace").split("Second pass (reading members)...\n", 1)[-1]
        got = sorted(b + "\n" for b in re.split(r"(?<=\n)\n(?=Relation|\Z)", body) if b)
        exp = sorted(tool_blocks(objs))
        if got != exp: ctx.violation("tool:differs", "osmium_relation_members: %s" % model.diff(exp, got), f)
        ctx.case("tool " + os.path.basename(p), bool(exp))
