"""P30: the progress display."""
import os, pty, re, select, subprocess, time, tty
import vp, model, cases
from concurrent.futures import ThreadPoolExecutor
from p05 import first_file, suffix, ENC

TECHNIQUE = "runtime monitoring: ASan+UBSan build (with float-cast-overflow) on pseudo terminals and pipes, the stream of screen updates checked against the sequence of objects"
NOTE = "Random sequences of objects, steps and pauses given to the handler directly, and files through the osmium_progress program. Sampling."
WORD = ["Nodes", "Ways", "Relations"]

def on_tty(cmd, timeout=120):
    """runs a program with a terminal as standard output; (rc, output, stderr, seconds)"""
    m, s = pty.openpty(); tty.setraw(s); t0 = time.time(); e = dict(vp.BASE_ENV); e.update(vp.KEEP)
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=s, stderr=subprocess.PIPE, env=e); os.close(s); out = b""
    while time.time() - t0 < timeout:
        if not select.select([m], [], [], 1)[0]: continue
        try: b = os.read(m, 65536)
        except OSError: break
        if not b: break
        out += b
    else: p.kill()
    err = p.stderr.read(); rc = p.wait(); os.close(m); return rc, out, err, time.time() - t0

def expected(ops, step):
    """counts on each update of the display, and the pauses (ms) since the first object of the type the rate is about"""
    c = [0, 0, 0]; first = [None] * 3; t = 0; r = [((0, 0, 0), None, 0)]
    for k, v in ops:
        if k == "s": t += v; continue
        i = "nwr".index(k)
        if v and first[i] is None: first[i] = t
        for m in range((c[i] // step + 1) * step, c[i] + v + 1, step):
            d = list(c); d[i] = m; w = 2 if d[2] else 1 if d[1] else 0; r.append((tuple(d), w, t - first[w]))
        c[i] += v
    return r, tuple(c), first, t

def counts(b):
    m = re.match(rb"\[(\d+)\](?: \[(\d+)\])?(?: \[(\d+)\])?(?![ ]*\[)", b)
    return (tuple(int(x or 0) for x in m.groups()), b[m.end():]) if m else (None, b)
HIDE, SHOW = b"\x1b[?25l", b"\x1b[?25h"

def rate_error(rate, count, wall, pause):
    if rate < 0: return "negative rate %d" % rate
    if rate + 2 < count / wall * .99: return "rate %d, but %d in at most %.3f s" % (rate, count, wall)
    if pause and rate > count / (pause / 1000) * 1.01 + 2: return "rate %d, but %d in at least %d ms" % (rate, count, pause)

def judge(ops, step, out, wall, final=True):
    exp, total, first, end = expected(ops, step)
    if not out.startswith(HIDE): return "cursor", "does not start by hiding the cursor: %r" % out[:60]
    if out.count(HIDE) != 1 or out.count(SHOW) != 1: return "cursor", "cursor hidden %d times, shown %d times" % (out.count(HIDE), out.count(SHOW))
    parts = out[len(HIDE):].split(b"\r"); tail = parts.pop()
    if final: exp = exp + [(total, None, 0)]
    if len(parts) != len(exp): return "updates", "%d updates instead of %d" % (len(parts), len(exp))
    for n, (p, (c, w, pause)) in enumerate(zip(parts, exp)):
        got, rest = counts(p)
        if got is None or got != c or p.count(b"[") != (3 if c[2] else 2 if c[1] else 1): return "counts", "update %d is %r instead of %s" % (n, p[:80], c)
        m = re.match(rb" \((-?\d+) (\w+) per second\)", rest)
        if w is not None:
            if not m or m.group(2).decode() != WORD[w]: return "rate", "update %d is %r" % (n, p[:80])
            e = rate_error(int(m.group(1)), c[w], wall, pause)
            if e: return "rate", "update %d: %s" % (n, e)
        elif m: return "rate", "update %d has a rate: %r" % (n, p[:80])
    if not final: return None if tail == SHOW else ("cursor", "ends with %r" % tail)
    k = [i for i in range(3) if total[i]]
    text = tail.replace(SHOW, b""); m = re.fullmatch(rb"\n  Average: " + b"".join(rb"(-?\d+) %s " % WORD[i].encode() for i in k) + rb"per second\n", text)
    if not m: return "average", "ends with %r" % tail
    for i, v in zip(k, m.groups()):
        # from the first of a type to the first of the next type
        nxt = [first[j] for j in range(i + 1, 3) if first[j] is not None]; e = rate_error(int(v), total[i], wall, (nxt[0] if nxt else end) - first[i])
        if e: return "average", "%s: %s" % (WORD[i], e)
    return None

def check(ctx):
    ub = ["-fsanitize=float-cast-overflow", "-fno-sanitize-recover=float-cast-overflow"]; rng = ctx.rng
    exe, tool = vp.build_many([dict(src="harness/h30.cpp", flags=ub), dict(src=vp.REPO + "/examples/osmium_progress.cpp", variant="plain")])
    ctx.rule = ("sequences of runs of nodes, then ways, then relations of lengths around the step and its multiples, steps 1..1000 and the default, pauses; output to a terminal or to something else; stopped before the end; files "
                "of all encodings through osmium_progress. Non-trivial: at least one update because of a step.")
    ctx.assumptions = ["nodes, ways and relations come in this order (else only the counts are judged)", "lower bounds for rates from the time the program took, upper bounds from pauses made"]
    jobs = []
    for i in range(ctx.n(260, 6000)):
        step = rng.choice([None, 1, 2, 3, 7, 100, 1000]); st = step or 1000; ops = []
        for k in "nwr":
            for _ in range(rng.choice([0, 1, 1, 2])):
                ops.append((k, rng.choice([0, 1, 2, st - 1, st, st + 1, 2 * st, 3 * st + 1, rng.randint(0, 3 * st)])))
                if rng.random() < .3: ops.append(("s", rng.choice([1, 5, 20])))
        stop = rng.random() < .15
        jobs.append(("direct", ops, st, rng.random() < .7, [exe, str(step or "-")] + ["%s%d" % o for o in ops] + (["x"] if stop else []), not stop, {}))
    for i in range(ctx.n(24, 300)):
        enc = rng.choice(ENC); p = os.path.join(ctx.tmp, "f%d%s" % (i, suffix("osm", enc))); g = model.Gen(rng, meta=0); n = rng.choice([0, 1, 30, 999, 1000, 1001, 2300])
        objs = first_file(rng, p, "osm", enc, cases.rand_header(rng, "osm"), g.objs(n)); ops = [(k, sum(o.t == k for o in objs)) for k in "nwr"]
        if any(a.t > b.t for a, b in zip(objs, objs[1:]) if "nwr".index(a.t) > "nwr".index(b.t)): ops = [(o.t, 1) for o in objs]
        jobs.append(("file", ops, 1000, rng.random() < .7, [tool, p], True, {os.path.basename(p): open(p, "rb").read()}))
    def work(j):
        if j[3]: return j, on_tty(j[4])
        r = vp.run_confirm(j[4], timeout=120, env=vp.KEEP); return j, (r.rc if not r.timed_out else -9, r.out, r.err, r.wall)
    shown_n = 0
    with ThreadPoolExecutor(6) as ex:
        for (how, ops, step, term, cmd, final, files), (rc, out, err, wall) in ex.map(work, jobs):
            what = "%s %s" % ("terminal:" if term else "no terminal:", " ".join(map(str, cmd))[:300]); exp, total, first, end = expected(ops, step)
            ctx.case(what if how == "direct" else repr(ops), len(exp) > 1 and term, {"ops": ops, "step": step, "output": out.decode("latin-1")[:300]} if shown_n < 3 else None); shown_n += 1
            ctx.count("runs on a terminal" if term else "runs without"); files = dict(files, **{"output.txt": out, "stderr.txt": err, "args.txt": repr(cmd)})
            if rc: ctx.violation("crash:" + vp.Run(rc, out, err, False, wall).crash_key(), "%s: rc %d: %s" % (what, rc, err[-1500:].decode("utf-8", "replace")), files); continue
            if how == "direct":
                t = "%d %d %d" % total
                if err.decode().strip() != "%s %s 111" % (t, t): ctx.violation("others", "%s: other handlers counted %r instead of %s" % (what, err, t), files); continue
            if not term:
                if out != (b"" if final else SHOW): ctx.violation("not-a-terminal", "%s: prints %r" % (what, out[:100]), files)
                continue
            ctx.count("updates seen", out.count(b"\r"))
            e = judge(ops, step, out, wall, final)
            if e: ctx.violation(e[0], "%s: %s" % (what, e[1]), files)
