"""P05: conversions. Chains of conversions through the library and the osmium_convert tool against the model."""
import bz2, gzip, os
import vp, model, xmlio, pbf, cases, server, p02
from p03 import DEFGEN

TECHNIQUE = "runtime monitoring: ASan+UBSan build, data read back after chains of conversions compared with the model"
NOTE = ("Random files made by independent encoders go through chains of conversions by the library pipeline and by the osmium_convert "
        "tool (files, stdin/stdout, explicit formats); the trace read back is compared with the model. Sampling, not exhaustive.")

ENC = ["xml", "gz", "bz2", "pbf"]
def suffix(t, e):
    return {"xml": "." + t, "gz": ".%s.gz" % t, "bz2": ".%s.bz2" % t, "pbf": ".%s.pbf" % t}[e]

def objects(rng, ftype):
    g = model.Gen(rng, history=ftype != "osm", meta=rng.choice([0, 0.5, 1, 1]))
    r = rng.random()
    n = 0 if r < 0.05 else rng.randint(1, 25) if r < 0.85 else rng.randint(50, 300)
    objs = g.objs(n, rng.choice(["sorted", "sorted", "reverse", "n", "w", "r"]))
    for o in objs:
        if o.uid <= 0: o.uid, o.user = -1, ""
        if o.t == "n" and (o.x == model.UNDEF) != (o.y == model.UNDEF): o.x = o.y = 0
    return objs

def first_file(rng, path, ftype, enc, h, objs):
    """Independent encoding; returns objects as read."""
    if enc == "pbf":
        history = ftype != "osm"
        for o in objs:
            if o.t == "n" and o.x == model.UNDEF: o.x = o.y = 0
        op = pbf.Opts(rng=rng, dense=rng.random() < .7, zlib=rng.random() < .7, visible=history)
        data, exp, _ = p02.encode_file(rng, h, objs, ftype == "osh", opts=op, junk=False)
        exp = [e for e, _ in exp]
        for e in exp: e.ts = int(e.ts)
    else:
        data, exp = xmlio.XmlWriter(rng, "random").document(h, objs, ftype)
        data = cases.compress(rng, data, enc)
    cases.write(path, data)
    return exp

def check(ctx):
    exe, tool, dtool = vp.build_many([dict(src="harness/io.cpp"), dict(src=vp.REPO + "/examples/osmium_convert.cpp"),
                                          dict(src=vp.REPO + "/examples/osmium_convert.cpp", name="osmium_convert_debug", flags=["-DOSMIUM_WITH_DEBUG"])])
    rng = ctx.rng
    # what "curl" would get from the network
    bin = os.path.join(ctx.tmp, "bin"); os.mkdir(bin)
    with open(os.path.join(bin, "curl"), "w") as f:
        f.write("""#!/bin/sh
for a; do :; done
case "$a" in http://localhost:1/*|https://localhost:1/*) a="${a#*localhost:1}"; a="${a%%[?#]*}"; exec /bin/cat "$a";; esac
exit 3
""")
    os.chmod(os.path.join(bin, "curl"), 0o755)
    env = {"PATH": bin + ":" + os.environ["PATH"]}
    ctx.rule = ("random files (types osm/osh/osc, encodings xml/gz/bz2/pbf) converted through chains of 1-4 conversions over all "
                "encodings and types, the trace read after every step compared with the model; the same through osmium_convert with "
                "file names, stdin/stdout and -f/-t formats. Non-trivial: at least one object.")
    ctx.assumptions = ["objects of one type are consecutive (PBF blocks regroup objects by type)", "user id 0 and -1 both mean anonymous",
                       "characters XML can represent"]
    chains = []
    for i in range(ctx.n(260, 5000)):
        ftype = rng.choice(["osm", "osm", "osh", "osc"])
        enc = rng.choice(ENC)
        h = cases.rand_header(rng, ftype)
        objs = objects(rng, ftype)
        if i in (11, 12, 13):
            o = model.Gen(rng, undef_pos=False).huge("nwr"[i - 11]); o.uid, o.user = 1, "a"; objs = [o]; ctx.count("objects with more than 65536 parts")
        odd = rng.choice(["-c", "-", "--help", "-S", "-1d", "$(c", "'c", '"c', "c;", "&c", "|c", "*", "~", "#c", "`c", "\\c", "c%s"]) + "%d_" % i if rng.random() < .2 else None
        base = odd or os.path.join(ctx.tmp, "c%d_" % i)
        if odd: ctx.count("chains of files with names which are special for programs and shells")
        p = os.path.join(ctx.tmp, base) + "0" + suffix(ftype, enc)
        exp = first_file(rng, p, ftype, enc, h, objs)
        steps = []
        url = not odd and enc in ("xml", "pbf") and rng.random() < .25 and rng.choice(["http", "https"]) + "://localhost:1" + p + rng.choice(["", "?a=1&b=2", "#%20x", "?$(c)`c`'\"\\;|*~"])
        if url: ctx.count("inputs from URLs")
        cur = (ftype, enc, base + "0" + suffix(ftype, enc))
        for k in range(rng.choice([1, 1, 2, 3, 4])):
            e2 = rng.choice(ENC); t2 = cur[0] if rng.random() < 0.75 else rng.choice(["osm", "osh", "osc"])
            q = base + "%d%s" % (k + 1, suffix(t2, e2))
            explicit = rng.random() < 0.3
            def te(t, e): return (t, e) if explicit or (t, e) == ("osc", "pbf") else ("-", "-")
            source = te(cur[0], cur[1]) + (cur[2],)
            if url and k == 0: source = (ftype, enc, url)
            job = "conv %s %s %s %s %s %s" % (source + te(t2, e2) + (q,))
            exp = [o.copy() for o in exp]
            if t2 == "osm":
                for o in exp: o.visible = True
            hh = model.Header(DEFGEN, h.bounds, t2 != "osm")
            rjob = "read %s %s -1 0 %s" % (te(t2, e2) + (q,))
            steps.append((job, rjob, model.trace(hh, exp), "%s %s to %s %s" % (cur[0], cur[1], t2, e2)))
            ctx.count("%s>%s" % (cur[1], e2)); ctx.count("type %s>%s" % (cur[0], t2))
            cur = (t2, e2, q)
        chains.append((p, steps, objs))
        ctx.case(open(p, "rb").read() + repr([s[3] for s in steps]).encode(), bool(objs),
                 {"first": "%s %s" % (ftype, enc), "steps": [s[3] for s in steps], "objects": len(objs)})
    # chains are sequential: spread chains, not jobs, over processes
    from concurrent.futures import ThreadPoolExecutor
    parts = [chains[i::8] for i in range(8)]
    def work(part):
        return list(zip(part, chunks(server.jobs(exe, [j for _, st, _ in part for s in st for j in s[:2]], batch=100, cwd=ctx.tmp, env=env), [2 * len(st) for _, st, _ in part])))
    def chunks(l, sizes):
        i = 0
        for s in sizes: yield l[i:i + s]; i += s
    with ThreadPoolExecutor(8) as ex:
        for result in ex.map(work, parts):
            for (p, steps, objs), rs in result:
                files = {"input" + os.path.basename(p).split(".", 1)[1].replace("/", ""): open(p, "rb").read()}
                for k, (job, rjob, tr, what) in enumerate(steps):
                    f = dict(files); f["jobs.txt"] = "\n".join(s[0] + "\n" + s[1] for s in steps[:k + 1])
                    if not cases.report(ctx, "%s (step %d): %s" % (what, k, job), [], rs[2 * k], f, "conv:"): break
                    if not cases.report(ctx, "%s (step %d): %s" % (what, k, rjob), tr, rs[2 * k + 1], f): break
                    ctx.count("conversions")
    # the tool
    def one(i):
        rng = vp.random.Random("%s-tool-%d-%d" % (ctx.prop, ctx.seed, i))
        ftype = rng.choice(["osm", "osm", "osh", "osc"]); enc = rng.choice(ENC)
        if (ftype, enc) == ("osc", "pbf"): enc = "xml"      # no such format suffix
        t2 = ftype if rng.random() < .75 else rng.choice(["osm", "osh", "osc"]); e2 = rng.choice(ENC)
        if (t2, e2) == ("osc", "pbf"): e2 = "gz"
        h = cases.rand_header(rng, ftype); objs = objects(rng, ftype)
        d = os.path.join(ctx.tmp, "t%d" % i); os.mkdir(d)
        p = os.path.join(d, "in" + suffix(ftype, enc))
        if rng.random() < .2: cases.write(os.path.join(d, "out" + suffix(t2, e2)), b"<osm>" * 40000)
        exp = first_file(rng, p, ftype, enc, h, objs)
        q = os.path.join(d, "out" + suffix(t2, e2))
        args = []; stdin = b""; out = None
        how = rng.choice(["names", "names", "formats", "stdio", "stdin", "stdout"])
        a, b = p, q
        if how == "formats":
            a = os.path.join(d, "a.data"); os.rename(p, a); b = os.path.join(d, "b.out")
            p, q = a, b
            args = ["-f", suffix(ftype, enc)[1:], "-t", suffix(t2, e2)[1:]]
        elif how in ("stdio", "stdin"):
            stdin = open(p, "rb").read()
            a = "-"; args += [rng.choice(["-f", "--from-format"]), suffix(ftype, enc)[1:]]
        if how in ("stdio", "stdout"):
            b = None; args += ["-t", suffix(t2, e2)[1:]]
        if rng.random() < .3: args = [rng.choice(["-d", "--debug"])] + args; ctx.count("tool with debugging output")
        tl = tool if rng.random() < .6 else dtool
        cmd = [tl] + args + ([a] if a != "-" or b else []) + ([b] if b else [])
        if how == "stdio" and rng.random() < .5: cmd = [tl] + args + ["-", "-"]
        if b is None: q = os.path.join(d, "out" + suffix(t2, e2)); 
        if stdin and rng.random() < 0.5 and a == "-":
            f = os.path.join(d, "stdin"); cases.write(f, stdin)
            r = run_stdin_file(cmd, f)
        else: r = vp.run_confirm(cmd, stdin=stdin)
        if b is None: cases.write(q, r.out)
        exp = [o.copy() for o in exp]
        if t2 == "osm":
            for o in exp: o.visible = True
        tr = model.trace(model.Header("osmium_convert", h.bounds, t2 != "osm"), exp)
        return cmd, r, "read %s %s -1 0 %s" % (t2, e2, q), tr, p, how, "%s %s to %s %s" % (ftype, enc, t2, e2), len(objs)
    with ThreadPoolExecutor(8) as ex: runs = list(ex.map(one, range(ctx.n(120, 1500))))
    # arguments which make no sense
    for i in range(ctx.n(20, 200)):
        d = os.path.join(ctx.tmp, "w%d" % i); os.mkdir(d); p = os.path.join(d, "in.osm"); q = os.path.join(d, "out.osm")
        first_file(rng, p, "osm", "xml", cases.rand_header(rng, "osm"), objects(rng, "osm")); old = b"old contents"; cases.write(q, old)
        what = rng.choice(["option", "value", "many", "help"])
        args = {"option": [rng.choice(["-x", "--nothing", "-1"]), p, q], "value": [p, q, rng.choice(["-f", "-t", "--from-format"])], "many": [p, p, q], "help": [rng.choice(["-h", "--help"]), p, q]}[what]
        cmd = [rng.choice([tool, dtool])] + args; r = vp.run_confirm(cmd, timeout=60); ctx.case("bad arguments %d %s" % (i, " ".join(a for a in args if a[0] == "-")), True); ctx.count("arguments refused: " + what)
        if r.rc != (0 if what == "help" else 1) or r.timed_out or open(q, "rb").read() != old:
            ctx.violation("tool:arguments:%s" % what, "osmium_convert %s: exit %d, output %s: %s" % (" ".join(args)[:300], r.rc, "changed" if open(q, "rb").read() != old else "kept", r.err[-600:].decode("utf-8", "replace")), {"cmd.txt": " ".join(cmd), "input": open(p, "rb").read()})
    res = server.parallel(exe, [r[2] for r in runs], batch=50)
    for (cmd, r, job, tr, p, how, what, n), rr in zip(runs, res):
        ctx.case(" ".join(cmd) + what, n > 0, {"cmd": " ".join(os.path.basename(c) for c in cmd), "what": what}); ctx.count("tool " + how)
        f = {"input": open(p, "rb").read() if os.path.exists(p) else b"", "cmd.txt": " ".join(cmd), "stderr.txt": r.err[-5000:]}
        if r.rc != 0 or r.timed_out:
            ctx.violation("tool:%s:%s" % (how, r.crash_key() if r.crashed or r.timed_out else "exit"), "osmium_convert %s: exit %d: %s" % (" ".join(cmd[1:]), r.rc, r.err[-600:].decode("utf-8", "replace")), f); continue
        cases.report(ctx, "osmium_convert %s (%s)" % (" ".join(cmd[1:]), what), tr, rr, f, "tool:%s:" % how)

def run_stdin_file(cmd, path):
    import subprocess, time
    with open(path, "rb") as f:
        t = time.time()
        p = subprocess.Popen(cmd, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vp.BASE_ENV, start_new_session=True)
        try: out, err = p.communicate(timeout=240)
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL); out, err = p.communicate(); return vp.Run(p.returncode, out, err, True, time.time() - t)
        return vp.Run(p.returncode, out, err, False, time.time() - t)
