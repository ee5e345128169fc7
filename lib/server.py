"""Talks to job servers such as harness/io.cpp: one batch of jobs per process, restart after a crash."""
import vp

class JobResult:
    __slots__ = ("lines", "end", "crash", "run", "hang")
    def __init__(self): self.lines = []; self.end = None; self.crash = None; self.run = None; self.hang = False
    @property
    def ok(self): return self.end == "ok"
    @property
    def exc(self): return self.end is not None and self.end.startswith("exc")

def jobs(exe, jobs, timeout=120, env=None, batch=None, per_job_restart=False, preexec=None, cwd=None, once=False):
    """Run jobs (strings) in order; returns a JobResult per job. A job that kills the process gets .crash.
    A job that is still running when the time is over is run again on its own; if it does not end then either, it
    hangs, and no other jobs are run any more. once: the jobs can not be repeated."""
    res = []
    todo = list(jobs); alone = False
    while todo:
        if vp.hung:
            for _ in todo: j = JobResult(); j.crash, j.run, j.hang = "not run after a hang", vp.hung[0], True; res.append(j)
            return res
        chunk = todo[:1] if alone or once else todo if batch is None else todo[:batch]
        go = lambda t, idle=None: vp.run([exe], stdin=("\n".join(chunk) + "\n").encode(), timeout=t, env=env, preexec=preexec, cwd=cwd, idle=idle)
        r = go(timeout) if alone or once else go(timeout * max(1, len(chunk) // 4), timeout / 4)
        if r.timed_out and not once and len(chunk) > 1:
            # keep what is ready, then try the one which isn't on its own
            chunk = chunk[:r.out.decode("latin-1").count("\nEND ")]; alone = True
            if not chunk: continue
        else:
            if r.timed_out and not alone and not once: r = go(timeout)
            alone = False
        text = r.out.decode("latin-1")
        done = 0
        cur = None
        for l in text.split("\n"):
            if l.startswith("BEGIN "): cur = JobResult(); continue
            if l.startswith("END ") and cur is not None and done < len(chunk):
                cur.end = l[4:]; cur.run = r; res.append(cur); done += 1; cur = None; continue
            if cur is not None: cur.lines.append(l)
        if done < len(chunk):
            # the job after the last finished one killed the process
            j = cur or JobResult()
            j.run = r; j.crash = r.crash_key() if (r.crashed or r.timed_out) else "exit:%d" % r.rc
            j.hang = r.timed_out
            if r.timed_out: vp.hung.append(r)
            else: vp.crashed(r)
            res.append(j); done += 1
        elif r.rc != 0 and not r.timed_out and done == len(chunk):
            # process failed at exit
            res[-1].crash = r.crash_key() if r.crashed else "exit:%d" % r.rc
            res[-1].run = r
        todo = todo[done:]
    return res

def parallel_locales(ctx, exe, alljobs, **k):
    """As parallel(), every fifth job in a program with a locale which has a comma for a decimal point."""
    e = vp.comma_env(ctx); b = list(range(2, len(alljobs), 5)) if e else []; s = set(b)
    a = [i for i in range(len(alljobs)) if i not in s]; out = [None] * len(alljobs)
    ctx.count("files read or written under a locale with decimal comma", len(b))
    for ix, env in ((a, k.pop("env", None)), (b, e)):
        for i, r in zip(ix, parallel(exe, [alljobs[i] for i in ix], env=env, **k)): out[i] = r
    return out

def parallel(exe, alljobs, nproc=8, timeout=120, env=None, batch=None, preexec=None, cwd=None):
    """As jobs(), spread over several processes; results in the order of alljobs."""
    from concurrent.futures import ThreadPoolExecutor
    k = max(1, min(nproc, len(alljobs)))
    parts = [list(range(i, len(alljobs), k)) for i in range(k)]
    out = [None] * len(alljobs)
    def work(ix):
        return ix, jobs(exe, [alljobs[i] for i in ix], timeout=timeout, env=env, batch=batch, preexec=preexec, cwd=cwd)
    with ThreadPoolExecutor(k) as ex:
        for ix, rs in ex.map(work, parts):
            for i, r in zip(ix, rs): out[i] = r
    return out
