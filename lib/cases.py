"""Files made from models, in all formats."""
import bz2, gzip, io, os
import model, xmlio, pbf

SUFFIX = {"xml": "", "gz": ".gz", "bz2": ".bz2", "pbf": ".pbf"}

def compress(rng, data, enc):
    if enc == "gz":
        if rng.random() < 0.15 and len(data) > 2:       # several gzip members
            k = rng.randint(1, len(data) - 1)
            return gzip.compress(data[:k]) + gzip.compress(data[k:], 1)
        return gzip.compress(data, rng.choice([1, 6, 9]))
    if enc == "bz2":
        if rng.random() < 0.15 and len(data) > 2:
            k = rng.randint(1, len(data) - 1)
            return bz2.compress(data[:k]) + bz2.compress(data[k:])
        return bz2.compress(data)
    return data

def rand_bounds(rng):
    if rng.random() < 0.5: return None
    xs = sorted(model.clampc(model.coord(rng, 180), 180) for _ in range(2))
    ys = sorted(model.clampc(model.coord(rng, 90), 90) for _ in range(2))
    if rng.random() < 0.4:      # boxes which end at 0, at the ends of the world, in one point or line
        def special(v, lim):
            k = rng.choice("zzzzepb..")
            return {"z": sorted([rng.choice(v), 0]), "e": [-lim, lim], "p": [v[0], v[0]], "b": sorted([rng.choice(v), rng.choice([-lim, lim])])}.get(k, v)
        xs, ys = special(xs, 1800000000), special(ys, 900000000)
    return (xs[0], ys[0], xs[1], ys[1])

def rand_header(rng, ftype, bounds=True, gen=True):
    g = "" if not gen or rng.random() < 0.15 else model.text(rng, 60, 1)
    return model.Header(g, rand_bounds(rng) if bounds else None, ftype != "osm")

def write(path, data):
    with open(path, "wb") as f: f.write(data)

def report(ctx, what, exp, res, files, keyprefix=""):
    """Compare a JobResult with the expected lines; record a violation. Returns True if fine."""
    if res.crash:
        ctx.violation(keyprefix + "crash:" + res.crash, "%s: process died: %s\n%s" % (what, res.crash, res.run.err.decode("utf-8", "replace")[-3000:]), files)
        return False
    if res.end != "ok":
        ctx.violation(keyprefix + "exception:" + (res.end or "?").split(" ")[1] , "%s: unexpected result: %s" % (what, res.end), files)
        return False
    d = model.diff(exp, res.lines)
    if d:
        f = dict(files); f["expected.txt"] = "\n".join(exp); f["got.txt"] = "\n".join(res.lines)
        ctx.violation(keyprefix + model.diff_key(exp, res.lines), "%s: %s" % (what, d), f)
        return False
    return True
