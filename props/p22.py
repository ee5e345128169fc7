"""P22: timestamps in both directions against an independent calendar."""
import re
import vp, cases, server, p20

TECHNIQUE = "runtime monitoring: ASan+UBSan build under several time zones, results checked against an independent proleptic Gregorian calendar"
NOTE = ("Every calendar boundary (all year and month ends, leap days, DST changes), random seconds up to year 9999, random, damaged and truncated texts, "
        "under seventeen time zones. Sampling; years 1970-9999 boundaries complete in the thorough tier.")

def days(y, m, d):          # days since 1970-01-01
    y -= m <= 2
    era = y // 400; yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468
def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
def mlen(y, m): return ML[m - 1] + (m == 2 and leap(y))
def iso(t):
    if t == 0: return ""
    d, s = divmod(t, 86400)
    y = 1970 + d // 366
    while days(y + 1, 1, 1) <= d: y += 1
    m = 1
    while m < 12 and days(y, m + 1, 1) <= d: m += 1
    return "%04d-%02d-%02dT%02d:%02d:%02dZ" % (y, m, d - days(y, m, 1) + 1, s // 3600, s // 60 % 60, s % 60)
END = days(10000, 1, 1) * 86400
ZONES = [None, "UTC", "America/New_York", "Europe/Berlin", "Asia/Kathmandu", "EST5EDT,M3.2.0,M11.1.0", "XXX-14", "right/Europe/London", "YYY+12:34:56",
         "Australia/Lord_Howe", "Europe/Dublin", "Africa/Casablanca", "Pacific/Apia", "America/Caracas", "Antarctica/Troll", "Europe/Moscow", "ZZZ-1QQQ+5,J1,J300"]

STRICT = re.compile(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)Z", re.A)
# what a lenient reader of the same fields may still take as date and time: spaces, signs, missing zeros, values out of range
LENIENT = re.compile(r"\s*[+-]?\d{1,4}-\s*[+-]?\d{1,2}-\s*[+-]?\d{1,2}T\s*\d{1,2}:\s*\d{1,2}:\s*\d{1,2}Z", re.A)
def expect(t):
    m = STRICT.match(t)
    if m:
        y, mo, d, h, mi, s = map(int, m.groups())
        if 1 <= mo <= 12 and 1 <= d <= mlen(y, mo) and h < 24 and mi < 60 and s < 60 and y >= 1970:
            return days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s
        if mo > 12 or d > 31 or mo < 1 or d < 1 or h > 23 or mi > 59 or s > 61: return "invalid"
        return None
    return None if LENIENT.match(t) else "invalid"

def bad_text(rng):
    t = iso(rng.randint(1, END - 1)); r = rng.random()
    if r < .15: return t[:rng.randrange(len(t))]
    if r < .3: i = rng.randrange(len(t)); return t[:i] + rng.choice("x-:TZ 0ä\x01/") + t[i + 1:]
    if r < .4: i = rng.randrange(len(t)); return t[:i] + t[i + 1:]
    if r < .5: i = rng.randrange(len(t) + 1); return t[:i] + rng.choice("x-:TZ 0 ") + t[i:]
    if r < .6: return t + rng.choice(["", "x", " ", "+01:00", "Z", "0" * 300, "\n"])
    if r < .7: return "%04d-%02d-%02dT%02d:%02d:%02dZ" % (rng.randint(0, 9999), rng.randint(0, 14), rng.randint(0, 33), rng.randint(0, 26), rng.randint(0, 62), rng.randint(0, 63))
    if r < .8: return rng.choice(["", " ", "now", "0", "1325376000", "2012-01-01", "2012-01-01T00:00", "2012-01-01 00:00:00Z", "2012-01-01T00:00:00", "2012-01-01T00:00:00+00:00", "01/01/2012", "99999-01-01T00:00:00Z", "-2012-01-01T00:00:00Z", "2012-1-1T0:0:0Z", "20120101T000000Z", "T", "Z", "2012-W01-1", "2012-01-01t00:00:00z"])
    return "".join(rng.choice("0123456789-:TZ ä\x7f") for _ in range(rng.choice([1, 5, 20, 21, 300])))

def check(ctx):
    exe, = vp.build_many([p20.spec()])
    rng = ctx.rng
    ctx.rule = ("times: all year and month boundaries and leap days +-1 s, 2^31, 2^32, random seconds 1970..9999, times outside; texts: well-formed ones with and without "
                "trailing characters, damaged ones; every job under one of seventeen time zones. Non-trivial: distinct times and texts.")
    ctx.assumptions = ["texts with the fields in their places but with missing leading zeros, spaces, signs, impossible days of the month or leap seconds may be accepted or rejected"]
    times = {0, 1, 2, 2**31 - 1, 2**31, 2**32, END - 1, 59, 60, 3599, 3600, 86399, 86400}
    ys = set(range(1970, 2110)) | {2400, 2399, 2500, 4000, 9999, 2100, 2200, 9996} | (set(rng.sample(range(2110, 9999), 60)) if ctx.quick else set(range(1970, 10000)))
    for y in ys:
        for m in range(1, 13):
            t = days(y, m, 1) * 86400
            for d in (-1, 0, 1, rng.randint(-86400, 86400)):
                if t + d >= 0: times.add(t + d)
        times.add(days(y, 2, 28) * 86400 + 86399); times.add(days(y, 2, 28) * 86400 + 86400)
    for _ in range(ctx.n(15000, 300000)): times.add(rng.choice([rng.randint(1, END - 1), rng.randint(1, 4 * 10**9)]))
    times = sorted(t for t in times if 0 <= t < END)
    by = {z: [] for z in ZONES}
    for t in times:
        by[rng.choice(ZONES)].append(("iso %d" % t, iso(t), "t"))
        by[rng.choice(ZONES)].append(("parse " + cases_enc(iso(t) + rng.choice(["", "", "", "x", " "])), t, "p") if t else ("parse -", "invalid", "p"))
    for t in [-1, -2**31, -2**40, END, END + 1, 2**40, 2**45, 2**55, 2**56, 2**60, 2**63 - 1, -2**63, 67768036191676799, 67768036191676800, -67768040609740800, -67768040609740801]:
        for z in ZONES: by[z].append(("iso %d" % t, None, "o"))
    for _ in range(ctx.n(15000, 300000)):
        x = bad_text(rng); by[rng.choice(ZONES)].append(("parse " + cases_enc(x), expect(x), "b"))
    for z, js in by.items():
        env = {"TZ": z} if z else {}
        for (j, e, k), r in zip(js, server.parallel(exe, [j for j, _, _ in js], batch=2000, timeout=240, env=env)):
            ctx.case(j, True, {"job": j, "expected": e, "TZ": z} if len(ctx.samples) < 5 else None)
            ctx.count({"t": "times written", "p": "times parsed", "o": "times out of range", "b": "other texts"}[k])
            if r.crash or r.end != "ok": cases.report(ctx, "TZ=%s %s" % (z, j[:300]), [], r, {"job.txt": j}, k + ":"); continue
            if e is None: ctx.count("not judged"); continue
            if k == "b": ctx.count("texts rejected" if e == "invalid" else "texts accepted")
            if k == "t": want = ["I " + cases_esc(e), "O %s %s" % (cases_esc(e), cases_esc(e))]
            else: want = ["P %s" % e, "Q %s" % e]
            if r.lines != want: ctx.violation({"t": "to_iso", "p": "parse_iso", "b": "reject" if e == "invalid" else "parse_iso"}[k], "TZ=%s %s: %s instead of %s" % (z, j[:200], r.lines, want), {"job.txt": j, "got.txt": "\n".join(r.lines)})

import model
cases_esc = model.esc
cases_enc = model.esc
