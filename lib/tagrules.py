"""Random tags, filter rules and their meaning."""
import re
import model

def enc(s):
    b = s.encode("utf-8") if isinstance(s, str) else s
    return "".join(chr(c) if chr(c).isalnum() and c < 128 else "%%%02X" % c for c in b)
def lst(items): return ",".join(items) if items else "-"

NEAR = ["highway", "highway:", "Highway", "highways", "highwa", "name", "name:de", "nam", "", "a", "aa", "ab", "b", "ä", "a\u0308", "yes", "no", "primary", "primary_link", "a b", " a", "a ", "\"", "\\", "a,b", "a=>b", "%", "日本", "😀", "1"]
def word(rng, pool=None):
    r = rng.random()
    if pool and r < .5: return rng.choice(pool)
    if r < .85: return rng.choice(NEAR)
    return model.text(rng, 255, 0)

def regex(rng, depth=0):
    """Random expressions in the common part of the Perl and Python dialects."""
    r = rng.random()
    if depth > 2 or r < .35: return re.escape(rng.choice(["a", "b", "ab", "highway", "name", ":", "yes", "1", " ", "primary", "_link"])).replace("\\_", "_").replace("\\ ", " ")
    if r < .45: return rng.choice([".", ".*", ".+", "[ab]", "[a-z]", "[^a]", "[a-z_]+", "[0-9]{1,3}", "h?"])
    if r < .65: return regex(rng, depth + 1) + regex(rng, depth + 1)
    if r < .8: return "(" + regex(rng, depth + 1) + "|" + regex(rng, depth + 1) + ")"
    if r < .9: return "(" + regex(rng, depth + 1) + ")" + rng.choice(["?", "?", "{0,2}", "{1}"])
    if r < .95: return "^" + regex(rng, depth + 1)
    return regex(rng, depth + 1) + "$"

def rules(rng, kind, pool):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 8])):
        res = rng.random() < .5
        if kind == "re":
            k = regex(rng); v = regex(rng) if rng.random() < .5 else None
            if rng.random() < .3: k = re.escape(rng.choice(pool) or "a") if not re.search(r"[^\x21-\x7e]", rng.choice(pool) or "a") else "a"
            if not k.isascii() or "\n" in k: k = "a"
        else:
            k = word(rng, pool); v = (word(rng, pool) or None) if kind == "kv" and rng.random() < .6 else None
        out.append((res, k, v))
    return out
def rules_str(rs): return lst(["%d:%s%s" % (r, enc(k), "" if v is None else ":" + enc(v)) for r, k, v in rs])
def tags_str(ts): return lst([enc(k) + ":" + enc(v) for k, v in ts])

def verdict(kind, default, rs, tag):
    k, v = tag
    for res, rk, rv in rs:
        if kind == "re":
            if re.fullmatch(rk.encode(), k.encode(), re.S) and (rv is None or re.fullmatch(rv.encode(), v.encode(), re.S)): return res
        elif k == rk and (rv is None or v == rv): return res
    return default
def tags(rng, n=None, pool=None):
    n = rng.choice([0, 1, 2, 3, 6, 20]) if n is None else n
    return [(word(rng, pool), word(rng, pool)) for _ in range(n)]
