"""S01-S03: schedule evaluation, compared with independent reference evaluators on finite, fully enumerated domains.

A state is (expression, job, zone, moment); a transition is one evaluation of the real code, leading to the next
moment; chains of transitions are followed from every initial moment.
"""
import itertools, datetime, calendar, subprocess, sys, os, json, zoneinfo

import vos, sweep, cronref
import dsari.utils
import dsari.croniter_hash
import dateutil.tz

UTC = datetime.timezone.utc
NAMES = ["a", "job 1", "backup.daily", "Z" * 64, "x@y:z+1-2_3", "0"]
FIELDS = [  # minute, hour, day of month, month, day of week, second
    ["*", "0", "59", "7", "*/15", "*/7", "10-20", "50-59/3", "1,31", "0,59"],
    ["*", "0", "23", "*/6", "9-17", "22,2", "2,3", "1-22/7"],
    ["*", "1", "31", "29", "*/10", "1,15", "28-30", "2-20/9"],
    ["*", "1", "2", "12", "*/5", "2,4", "jan,jun", "9-11"],
    ["*", "0", "7", "6", "1-5", "sun", "mon-fri", "3,5", "*/3", "5-7", "2-7/2"],
    [None, "0", "*/20", "59", "*", "H", "10-12", "3,44"],
]
MOMENTS = ["2020-02-28T23:59:59.999999", "2020-02-29T00:00:00.0", "2019-12-31T23:59:59.5", "2021-02-28T23:59:00.0",
           "2020-06-15T12:34:56.7", "2020-12-31T23:58:59.0", "2020-06-30T22:00:00.000001", "2021-03-31T03:07:00.9"]
ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Chatham", "Europe/London"]
DST = {"America/New_York": [1583650800, 1604210400], "Europe/London": [1585443600, 1603587600],
       "Pacific/Chatham": [1586008800, 1601128800]}
US = datetime.timedelta(microseconds=1)


def ep(s):
    return datetime.datetime.strptime(s, "%Y-%m-%dT%H:%M:%S.%f").replace(tzinfo=UTC)


def zones(name):
    """(zone given to the program, zone of the reference)"""
    if name == "UTC":
        return UTC, UTC
    return dateutil.tz.gettz(name), zoneinfo.ZoneInfo(name)


def us(dt):
    d = dt - datetime.datetime(1970, 1, 1, tzinfo=UTC) if dt.tzinfo is UTC else \
        dt.astimezone(UTC) - datetime.datetime(1970, 1, 1, tzinfo=UTC)
    return (d.days * 86400 + d.seconds) * 10 ** 6 + d.microseconds


def nxt(expr, name, t):
    return dsari.utils.get_next_schedule_time(expr, name, start_time=t)


def at(us_, zone):
    return (datetime.datetime(1970, 1, 1, tzinfo=UTC) + datetime.timedelta(microseconds=us_)).astimezone(zone)


_learned = {}


def learn(name):
    """the per-job constants, observed from the program: offset (us) and second, and H of each field"""
    if name not in _learned:
        t = datetime.datetime(2020, 6, 1, 0, 0, 0, tzinfo=UTC) - US
        r = us(nxt("* * * * * *", name, t))
        off = r - us(datetime.datetime(2020, 6, 1, tzinfo=UTC))
        r = us(nxt("* * * * *", name, t)) - off - us(datetime.datetime(2020, 6, 1, tzinfo=UTC))
        h = []
        for i, e in enumerate(["H * * * * 0", "0 H * * * 0", "0 0 H * * 0", "0 0 1 H * 0", "0 0 * * H 0",
                               "0 0 * * * H"]):
            x = at(us(nxt(e, name, t - datetime.timedelta(days=31) + datetime.timedelta(seconds=1))) - off, UTC)
            h.append([x.minute, x.hour, x.day, x.month, (x.weekday() + 1) % 7, x.second][i])
        _learned[name] = (off, r / 1e6, h)
    return _learned[name]


# ------------------------------------------------------------------------------------------------ S01
def expressions(k):
    """all expressions with at most k fields differing from one of the two bases"""
    out = set()
    for base in ([0, 0, 0, 0, 0, 0], [1, 1, 0, 0, 0, 1]):
        for n in range(k + 1):
            for pos in itertools.combinations(range(6), n):
                for vals in itertools.product(*[range(len(FIELDS[p])) for p in pos]):
                    f = list(base)
                    for p, v in zip(pos, vals):
                        f[p] = v
                    out.add(tuple(f))
    return sorted(out)


def text(f):
    v = [FIELDS[i][x] for i, x in enumerate(f)]
    return " ".join(v if v[5] is not None else v[:5])


def possible(f):
    """does the date part ever match (checked by config, which rejects the others)?"""
    return all(cronref.Cron("0 0 %s 0" % d).next(1577836800, days=1500) is not None for d in (
        "%s %s %s" % tuple(FIELDS[i][f[i]] for i in (2, 3, 4)), "%s %s *" % tuple(FIELDS[i][f[i]] for i in (2, 3))))


def s01_unit(unit, rec):
    exprs, names, moments, zs, chain = unit
    for expr in exprs:
        for name in names:
            off, sec, h = learn(name)
            if off < 0 or off > 1000000:
                rec.bad("offset %s" % name, "job %r runs %.6f s after the matching instant" % (name, off / 1e6))
            if not 0 <= sec <= 59 or sec != int(sec):
                rec.bad("second %s" % name, "job %r without seconds field runs at second %r" % (name, sec))
            v = expr.split(" ")
            if len(v) == 5:
                v.append(str(int(sec)))
            elif v[5] == "H":
                v[5] = str(h[5])
            ref = cronref.Cron(" ".join(v))
            for z in zs:
                zp, zr = zones(z)
                for m in moments + ([x for d in DST.get(z, ()) for x in (d - 7200, d - 1800.5, d + 1800, d + 5400)]):
                    t = at(int(m * 1e6), zp) if isinstance(m, (int, float)) else ep(m).astimezone(zp)
                    for i in range(chain):
                        rec.state(expr, name, z, us(t))
                        r = nxt(expr, name, t)
                        rec.step()
                        e = us(t) // 10 ** 6
                        want = [ref.next(e, zr, gaps=False), ref.next(e, zr, gaps=True)]
                        if r is None or us(r) <= us(t) or not (us(r) - off in [None if x is None else x * 10 ** 6 for x in want]
                                                           or z in DST and ref.allowed((us(r) - off) / 10 ** 6, us(t) / 10 ** 6, zr)):
                            rec.bad("cron %s %s" % (expr, z),
                                    "next run of %r for %r after %s is %s, expected %s (plus %.6f s)"
                                    % (expr, name, t.isoformat(), r and r.isoformat(),
                                       " or ".join(sorted({"none" if x is None else at(x * 10 ** 6, zr).isoformat() for x in want})), off / 1e6),
                                    unit=[[expr], [name], [m], [z], chain])
                            break
                        t = r
                    rec.trace()
    rec.sample(expression=expr, job=name, zone=z, start=str(m), last=t.isoformat())


def s01_alias(unit, rec):
    """aliases equal their documented expansion, at every moment"""
    name, zs = unit
    off, sec, h = learn(name)
    t0 = datetime.datetime(2020, 6, 1, tzinfo=UTC)
    h02 = us(nxt("0 H(0-2) * * * 0", name, t0)) - off - us(t0)
    h02 = (h02 // 3600000000) % 24
    mdays = calendar.monthrange(2001, h[3])[1]
    table = {"@midnight": "%d %d * * * %d" % (h[0], h02, h[5]), "@hourly": "%d * * * * %d" % (h[0], h[5]),
             "@daily": "%d %d * * * %d" % (h[0], h[1], h[5]), "@weekly": "%d %d * * %d %d" % (h[0], h[1], h[4], h[5]),
             "@monthly": "%d %d %d * * %d" % (h[0], h[1], h[2], h[5]),
             "@yearly": "%d %d %d %d * %d" % (h[0], h[1], min(h[2], mdays), h[3], h[5])}
    table["@annually"] = table["@yearly"]
    for alias, expr in table.items():
        ref = cronref.Cron(expr)
        for z in zs:
            zp, zr = zones(z)
            for m in MOMENTS:
                t = ep(m).astimezone(zp)
                for i in range(3):
                    rec.state(alias, name, z, us(t))
                    r = nxt(alias, name, t)
                    rec.step()
                    want = {ref.next(us(t) // 10 ** 6, zr, gaps=g) for g in (True, False)}
                    # the second of an alias may be hashed as documented for 5 fields as well
                    if us(r) <= us(t) or not (us(r) - off in [w * 10 ** 6 for w in want]
                                              or z in DST and ref.allowed((us(r) - off) / 10 ** 6, us(t) / 10 ** 6, zr)):
                        rec.bad("alias %s" % alias, "%s for %r after %s is %s, expected %s (%s)" % (
                            alias, name, t.isoformat(), r.isoformat(),
                            " or ".join(sorted(at(w * 10 ** 6, zr).isoformat() for w in want)), expr), unit=[name, zs])
                        break
                    t = r
                rec.trace()


def s01(c):
    th = c.tier == "thorough"
    fs = [f for f in expressions(3 if th else 2) if possible(f)]
    texts = [text(f) for f in fs]
    names = NAMES[:3] if th else NAMES[:2]
    moments = MOMENTS if th else MOMENTS[:6]
    units = []
    for i in range(0, len(texts), 8):
        units.append(("cron", (texts[i:i + 8], names, moments, ZONES if th else ZONES[:1], 3)))
    # other zones: all expressions with one deviation
    one = [text(f) for f in expressions(1 if not th else 2) if possible(f)]
    for i in range(0, len(one), 2):
        units.append(("cron", (one[i:i + 2], names[:1], moments[:3], ZONES[1:], 4)))
    for n in NAMES + date_names():
        units.append(("alias", (n, ZONES if th and n in NAMES else ZONES[:2])))
    units += [("check", (texts[i:i + 40],)) for i in range(0, len(texts), 40)]
    fn = {"cron": s01_unit, "alias": s01_alias, "check": s01_check}
    tot = sweep.sweep(units, lambda u, r: fn[u[0]](u[1], r), c.wall(150, 3000), program_errors=True)
    return sweep.finish(c, tot, "every expression with at most %d fields differing from '* * * * *' or '0 0 * * * 0' "
                        "(field values: %d/%d/%d/%d/%d/%d), from every listed moment, chained" % (
                            (3 if th else 2,) + tuple(len(x) for x in FIELDS)),
                        ["the zone database and calendar arithmetic of the standard library"], units=len(units))


def s01_check(unit, rec):
    """what configuration checking accepts is never refused later and the other way round"""
    for expr in unit[0]:
        vos.CLOCK = us(ep("2020-06-15T12:34:56.7"))
        try:
            a = nxt(expr, "a", None)
        finally:
            vos.CLOCK = None
        b = nxt(expr, "a", ep("2020-06-15T12:34:56.7"))
        rec.step(2)
        if us(a) != us(b):
            rec.bad("now %s" % expr, "%r without a moment gives %s, with the current moment %s" % (expr, a, b))
        rec.trace()


# ------------------------------------------------------------------------------------------------ S02
CYC = [("{} * * * * 0", "2020-05-31T23:59:59.5", 3600), ("0 {} * * * 0", "2020-05-31T23:59:59.5", 86400),
       ("0 0 {} * * 0", "2020-06-30T23:59:59.5", 31 * 86400), ("0 0 1 {} * 0", "2019-12-31T23:59:59.5", 366 * 86400),
       ("0 0 * * {} 0", "2020-05-30T23:59:59.5", 7 * 86400), ("0 0 1 1 * {}", "2019-12-31T23:59:59.5", 60)]
RNG = [(0, 59), (0, 23), (1, 31), (1, 12), (0, 6), (0, 59)]
PART = [lambda t: t.minute, lambda t: t.hour, lambda t: t.day, lambda t: t.month, lambda t: (t.weekday() + 1) % 7,
        lambda t: t.second]


def selected(item, field, name, hash_id=True):
    """values of the field selected by the item, observed over one full cycle"""
    tmpl, start, length = CYC[field]
    t0 = ep(start)
    it = dsari.croniter_hash.croniter_hash(tmpl.format(item), t0, hash_id=name)
    out = []
    while True:
        t = it.get_next(datetime.datetime)
        if (t - t0).total_seconds() > length or len(out) > 70:
            break
        out.append(PART[field](t))
    return out


def judge(item, field, a, b, n, vals):
    """message if the observed values are not what the item may select"""
    if field == 4 and b == 7:
        vals = sorted(vals)
        # 7 is 0: both readings are tried
        alts = [vals] + ([sorted([v for v in vals if v] + [7])] if 0 in vals else []) + ([sorted(vals + [7])] if 0 in vals else [])
    else:
        alts = [vals]
    msg = None
    for v in alts:
        v = sorted(v)
        if n is None:
            if len(v) == 1 and a <= v[0] <= b:
                return None
            msg = "selects %r, not one value of %d-%d" % (vals, a, b)
        else:
            if v and a <= v[0] <= min(b, a + n - 1) and v == list(range(v[0], b + 1, n)):
                return None
            msg = "selects %r, not every %d-th value from within the first %d of %d-%d" % (vals, n, n, a, b)
    return msg


def s02_h(unit, rec):
    field, name, items = unit
    for (item, a, b, n) in items:
        for again in range(2):
            vals = selected(item, field, name)
            rec.step()
            rec.state(field, item, name, tuple(vals))
            m = judge(item, field, a, b, n, vals)
            if m:
                rec.bad("field %d %s" % (field, item), "%r in field %d for job %r %s" % (item, field + 1, name, m), unit=unit)
                break
            if again == 0:
                first = vals
            elif vals != first:
                rec.bad("unstable %d %s" % (field, item), "%r in field %d for %r: %r, then %r" % (item, field + 1, name, first, vals))
        # seen through the daemon's own function, from other moments
        off = learn(name)[0]
        for mom in ("2020-06-15T12:34:56.7", "2021-12-31T23:59:59.9"):
            t = ep(mom)
            for i in range(2):
                r = nxt(CYC[field][0].format(item), name, t)
                rec.step()
                v = PART[field](at(us(r) - off, UTC))
                if v not in vals:
                    rec.bad("moment %d %s" % (field, item), "%r in field %d for %r selects %r, but runs at %d" % (
                        item, field + 1, name, vals, v), unit=unit)
                t = r
        rec.trace()
    rec.sample(item=item, field=field, job=name, values=vals)


def items_of(field, tier, kind):
    lo, hi = RNG[field]
    th = tier == "thorough"
    top = 7 if field == 4 else hi
    out = [(kind, lo, hi, None)]
    pairs = [(a, b) for a in range(lo, top + 1) for b in range(a, top + 1)]
    if len(pairs) > 130 and not th:
        edge = set(list(range(lo, lo + 4)) + [7, 15, 29, 30, 45] + list(range(top - 3, top + 1)))
        pairs = [(a, b) for a, b in pairs if a in edge and b in edge]
    out += [("%s(%d-%d)" % (kind, a, b), a, b, None) for a, b in pairs]
    out += [("%s/%d" % (kind, n), lo, hi, n) for n in range(1, hi - lo + 4)]
    if th:
        sp = pairs if len(pairs) < 600 else [p for p in pairs if p[0] % 7 in (0, 1) or p[1] >= top - 1]
    else:
        sp = [p for i, p in enumerate(pairs) if len(pairs) < 40 or p[0] in (lo, lo + 1, 30, hi) or p[1] in (top, 29)]
    for a, b in sp:
        L = b - a + 1
        steps = range(1, L + 3) if (L < 12 or th) else sorted({1, 2, 3, 5, 7, 10, 15, L // 2, L - 1, L, L + 1, L + 5})
        out += [("%s(%d-%d)/%d" % (kind, a, b, n), a, b, n) for n in steps]
    return out


def s02_wrong(unit, rec):
    """a range that is not one of the field is refused, or selects only values that are within both"""
    field, name, items = unit
    lo, hi = RNG[field]
    for (item, a, b) in items:
        rec.step()
        try:
            vals = selected(item, field, name)
        except (ValueError, KeyError):      # of which croniter's errors are kinds
            vals = []
        rec.state(field, item, name, tuple(vals))
        out = [v for v in vals if not (max(a, lo) <= v <= min(b, hi) or field == 4 and v == 0 and b >= 7)]
        if out:
            rec.bad("outside %d %s" % (field, item), "%r in field %d for job %r selects %r" % (item, field + 1, name, vals), unit=unit)
        rec.trace()


def s02_r(unit, rec):
    """every value the generator may give"""
    field, items = unit
    for (item, a, b, n) in items:
        L = b - a + 1
        width = L if n is None else min(n, L)
        seen = set()
        draws = set()
        for k in range(width):
            for f in (lambda x, y: x + (k % (y - x + 1)), lambda x, y: x + ((k << field) % (y - x + 1)),
                      lambda x, y: y - (k % (y - x + 1))):
                vos.RAND = f
                try:
                    vals = selected(item, field, "a")
                finally:
                    vos.RAND = None
                rec.step()
                rec.state(field, item, tuple(vals))
                m = judge(item, field, a, b, n, vals)
                if m:
                    rec.bad("field %d %s" % (field, item), "%r in field %d %s" % (item, field + 1, m), unit=unit)
                    break
                draws.add(tuple(vals))
        rec.trace()


def s02_plain(unit, rec):
    """names and fields without H or R are untouched, whatever the job name"""
    t0 = ep("2020-02-28T23:59:59.5")
    for expr, same in unit:
        for name in NAMES:
            off = learn(name)[0]
            ref = cronref.Cron(same)
            t = t0
            for i in range(4):
                r = nxt(expr, name, t)
                rec.step()
                rec.state(expr, name, us(t))
                w = ref.next(us(t) // 10 ** 6)
                if us(r) - off != w * 10 ** 6:
                    rec.bad("plain %s" % expr, "%r for job %r after %s is %s, expected %s" % (
                        expr, name, t.isoformat(), r.isoformat(), at(w * 10 ** 6, UTC).isoformat()))
                    break
                t = r
            rec.trace()


def s02_multi(unit, rec):
    """several hashed fields at once take the values they take alone"""
    name, combos = unit
    off, sec, h = learn(name)
    for combo in combos:
        f = ["*"] * 5 + ["0"]
        for i in range(6):
            if combo[i]:
                f[i] = "H"
        g = [str(h[i]) if x == "H" else x for i, x in enumerate(f)]
        if combo[3] and combo[2]:
            g[2] = str(min(h[2], calendar.monthrange(2001, h[3])[1]))
        expr, ref = " ".join(f), cronref.Cron(" ".join(g))
        t = ep("2020-05-31T12:00:00.5")
        for i in range(3):
            r = nxt(expr, name, t)
            rec.step()
            rec.state(expr, name, us(t))
            w = ref.next(us(t) // 10 ** 6)
            if us(r) - off != w * 10 ** 6:
                rec.bad("multi %s" % expr, "%r for job %r after %s is %s, expected %s" % (
                    expr, name, t.isoformat(), r.isoformat(), at(w * 10 ** 6, UTC).isoformat()))
                break
            t = r
        # an omitted seconds field is a hashed one
        if not combo[5]:
            a, b = nxt(" ".join(f[:5]), name, t), nxt(" ".join(f[:5] + ["H"]), name, t)
            if us(a) != us(b):
                rec.bad("omitted second %s" % name, "%r and %r differ for %r" % (" ".join(f[:5]), " ".join(f[:5] + ["H"]), name))
        rec.trace()


def date_names():
    """a job name for each date which @yearly may come to but which is not in every year, and some that are"""
    import binascii
    want = {(d, m) for m in range(1, 13) for d in range(calendar.monthrange(2001, m)[1] + 1, 32)} | {(28, 2), (31, 1), (31, 12)}
    out, i = [], 0
    while want and i < 100000:
        c = binascii.crc32(("job%d" % i).encode())
        x = ((c >> 2) % 31 + 1, (c >> 3) % 12 + 1)
        if x in want:
            want.remove(x)
            out.append("job%d" % i)
        i += 1
    return out


def s02_dates(unit, rec):
    """a hashed day is one of the month: the schedule does not skip that month"""
    months, names = unit
    for m in months:
        last = calendar.monthrange(2001, m)[1]
        for kind, seeds in (("H", names), ("R", range(31))):
            for x in seeds:
                expr, name = "0 0 %s %d * 0" % (kind, m), x if kind == "H" else "a"
                off = learn(name)[0]
                t, days = ep("2020-03-01T00:00:00.5"), []
                for i in range(4 if kind == "H" else 1):
                    vos.RAND = None if kind == "H" else lambda a, b: a + x % (b - a + 1)
                    try:
                        r = nxt(expr, name, t)
                    finally:
                        vos.RAND = None
                    rec.step()
                    rec.state(expr, name, us(t))
                    d = at(us(r) - off, UTC)
                    days.append(d.day)
                    if d.month != m or d.day > last or (r - t).total_seconds() > 366.1 * 86400 or len(set(days)) != 1:
                        rec.bad("dates %s" % expr, "%r for job %r (draw %s) after %s is %s" % (
                            expr, name, x, t.isoformat(), r.isoformat()), unit=unit)
                        break
                    t = r
                rec.trace()


def s02_process(unit, rec):
    """H in other processes (other hash seeds, zones, working directories)"""
    names = unit
    exprs = ["H H * * *", "H/7 H(3-20) * * * H", "0 0 H H * 0", "0 0 * * H 0", "@weekly", "H(10-50)/11 * * * * H/9"]
    prog = ("import sys, json, datetime\nimport dsari.utils as u\n"
            "t = datetime.datetime(2020, 6, 1, tzinfo=datetime.timezone.utc)\n"
            "print(json.dumps([[u.get_next_schedule_time(e, n, start_time=t).timestamp() for e in %r] for n in %r]))"
            % (exprs, names))
    got = []
    for seed, tz in (("0", "UTC"), ("1", "Asia/Tokyo"), ("12345", "America/New_York"), ("random", "UTC")):
        env = dict(os.environ, PYTHONHASHSEED=seed, TZ=tz)
        got.append(subprocess.run([sys.executable, "-c", prog], env=env, stdout=subprocess.PIPE, check=True, cwd="/").stdout)
        rec.step(len(exprs) * len(names))
    t = datetime.datetime(2020, 6, 1, tzinfo=UTC)
    got.append((json.dumps([[nxt(e, n, t).timestamp() for e in exprs] for n in names]) + "\n").encode())
    rec.trace(len(got))
    if len(set(got)) != 1:
        rec.bad("process", "hashed schedules differ between processes: %r" % sorted(set(got))[:2])


def s02(c):
    units = []
    for field in range(6):
        it = items_of(field, c.tier, "H")
        step = max(1, len(it) // 6)
        for name in (NAMES if c.tier == "thorough" else NAMES[:3]):
            for i in range(0, len(it), step):
                units.append(("h", (field, name, it[i:i + step])))
        it = items_of(field, c.tier, "R")
        if c.tier != "thorough":
            it = [x for x in it if x[3] is None and x[2] - x[1] < 13 or x[2] in (23, 59, 31) or x[3] in (2, 7)][::2] + it[:1]
        for i in range(0, len(it), 12):
            units.append(("r", (field, it[i:i + 12])))
        lo, hi = RNG[field]
        top = 7 if field == 4 else hi
        edge = sorted({0, 1, lo, lo + 1, (lo + hi) // 2, hi - 1, hi, top, top + 1, top + 2, 2 * top, 99, 100})
        wrong = [(a, b) for a in edge for b in edge if not lo <= a <= b <= top]
        for kind in "HR":
            for n in ("", "/1", "/2", "/7", "/60", "/99"):
                for name in NAMES if c.tier == "thorough" else NAMES[:2]:
                    units.append(("wrong", (field, name, [("%s(%d-%d)%s" % (kind, a, b, n), a, b) for a, b in wrong])))
    combos = list(itertools.product((0, 1), repeat=6))
    combos = [x for x in combos if not (x[2] and not x[3] and False)]
    for n in NAMES + date_names():
        units.append(("multi", (n, combos)))
    for m in range(1, 13):
        units.append(("dates", ([m], NAMES + date_names())))
    units.append(("plain", [("0 0 * MAR THU 0", "0 0 * 3 4 0"), ("0 0 * mar,apr thu-fri 0", "0 0 * 3,4 4-5 0"),
                            ("5 4 3 MAR * 0", "5 4 3 3 * 0"), ("0 12 * * FRI 0", "0 12 * * 5 0"),
                            ("0 12 * * THU 30", "0 12 * * 4 30"), ("*/15 * * * * 0", "*/15 * * * * 0"),
                            ("0 0 1 APR * 0", "0 0 1 4 * 0")]))
    units.append(("process", NAMES))
    fn = {"h": s02_h, "wrong": s02_wrong, "r": s02_r, "multi": s02_multi, "dates": s02_dates, "plain": s02_plain, "process": s02_process}
    tot = sweep.sweep(units, lambda u, r: fn[u[0]](u[1], r), c.wall(150, 3000), program_errors=True)
    return sweep.finish(c, tot, "every H, R, H(a-b), H/n and H(a-b)/n form of the listed ranges and steps in every field; "
                        "selected values observed over a full cycle of the field; R with every relevant draw; ranges that are not of the field",
                        ["croniter evaluates plain fields (checked by S01)"], units=len(units))


# ------------------------------------------------------------------------------------------------ S03
WD = ["MO", "TU", "WE", "TH", "FR", "SA", "SU"]
FREQS = ["YEARLY", "MONTHLY", "WEEKLY", "DAILY", "HOURLY", "MINUTELY", "SECONDLY"]
PARTS = {"BYHOUR": ["0", "14", "0,12,23"], "BYMINUTE": ["0", "30", "5,45"], "BYSECOND": ["0", "59"],
         "BYDAY": ["MO,TH", "SU", "SA,MO,WE"], "BYMONTHDAY": ["1", "15,31"], "BYMONTH": ["2", "1,7,12"],
         "INTERVAL": ["2", "5", "7"]}


def rrules(k, freqs=FREQS):
    out = []
    names = sorted(PARTS)
    for f in freqs:
        for n in range(k + 1):
            for ps in itertools.combinations(names, n):
                for vs in itertools.product(*[PARTS[p] for p in ps]):
                    d = dict(zip(ps, vs))
                    if f in FREQS[4:] and "INTERVAL" in d and {"BYHOUR", "BYMINUTE", "BYSECOND"} & set(d):
                        continue        # may be an empty set, depending on DTSTART; dateutil refuses those
                    out.append((f, tuple(sorted(d.items()))))
    return out


def rtext(r, extra=""):
    return "RRULE:FREQ=%s%s%s" % (r[0], "".join(";%s=%s" % kv for kv in r[1]), extra)


def rref(r, D, after, limit):
    """reference: earliest instant of the rule with DTSTART D (naive wall clock), after `after`; all naive"""
    freq, d = r[0], dict(r[1])
    I = int(d.get("INTERVAL", "1"))
    num = {k: sorted(int(x) for x in d[k].split(",")) for k in ("BYHOUR", "BYMINUTE", "BYSECOND", "BYMONTHDAY", "BYMONTH") if k in d}
    bd = {WD.index(x) for x in d["BYDAY"].split(",")} if "BYDAY" in d else None
    hour, minute, second = num.get("BYHOUR"), num.get("BYMINUTE"), num.get("BYSECOND")

    def date_filters(x):
        if "BYMONTH" in num and x.month not in num["BYMONTH"]:
            return False
        if "BYMONTHDAY" in num and x.day not in num["BYMONTHDAY"]:
            return False
        if bd is not None and x.weekday() not in bd:
            return False
        return True
    if freq in ("YEARLY", "MONTHLY", "WEEKLY", "DAILY"):
        day = D.date()
        while day <= limit.date():
            ok = True
            if freq == "DAILY":
                ok = (day - D.date()).days % I == 0
            elif freq == "WEEKLY":
                w = lambda x: x - datetime.timedelta(days=x.weekday())
                ok = ((w(day) - w(D.date())).days // 7) % I == 0
                if bd is None and "BYMONTHDAY" not in num:
                    ok = ok and day.weekday() == D.weekday()
            elif freq == "MONTHLY":
                ok = ((day.year - D.year) * 12 + day.month - D.month) % I == 0
                if bd is None and "BYMONTHDAY" not in num:
                    ok = ok and day.day == D.day
            else:
                ok = (day.year - D.year) % I == 0
                if bd is None and "BYMONTHDAY" not in num:
                    ok = ok and day.day == D.day
                    if "BYMONTH" not in num:
                        ok = ok and day.month == D.month
            if ok and date_filters(day):
                for h in hour or [D.hour]:
                    for m in minute or [D.minute]:
                        for s in second or [D.second]:
                            x = datetime.datetime(day.year, day.month, day.day, h, m, s)
                            if x > after and x >= D:
                                return x
            day += datetime.timedelta(days=1)
        return None
    unit = {"HOURLY": 3600, "MINUTELY": 60, "SECONDLY": 1}[freq] * I
    base = D.replace(minute=0, second=0) if freq == "HOURLY" else D.replace(second=0) if freq == "MINUTELY" else D
    n = max(0, int((after - base).total_seconds()) // unit - 1)
    x = base + datetime.timedelta(seconds=n * unit)
    while x <= limit:
        skip = None
        if not date_filters(x):
            skip = (x + datetime.timedelta(days=1)).replace(hour=0, minute=0, second=0)
        elif hour and x.hour not in hour:
            skip = (x + datetime.timedelta(hours=1)).replace(minute=0, second=0)
        elif freq != "HOURLY" and minute and x.minute not in minute:
            skip = (x + datetime.timedelta(minutes=1)).replace(second=0)
        if skip is not None:
            k = -(-int((skip - base).total_seconds()) // unit)
            x = base + datetime.timedelta(seconds=k * unit)
            continue
        ms = (minute or [D.minute]) if freq == "HOURLY" else [x.minute]
        for m in ms:
            ss = ([x.second] if not second or x.second in second else []) if freq == "SECONDLY" else (second or [D.second])
            for s in ss:
                y = x.replace(minute=m, second=s)
                if y > after and y >= D:
                    return y
        x += datetime.timedelta(seconds=unit)
    return None


_tod = {}


def tod(name):
    """time of day (seconds of the UTC day) the program hashes to, and the offset, observed"""
    if name not in _tod:
        off = learn(name)[0]
        t = datetime.datetime(2020, 6, 1, tzinfo=UTC) - datetime.timedelta(seconds=1)
        r = us(nxt("RRULE:FREQ=DAILY", name, t)) - off
        _tod[name] = r // 10 ** 6 % 86400
    return _tod[name]


RMOM = ["2020-06-15T12:34:56.7", "2020-02-28T23:59:59.999999", "2019-12-31T23:59:59.5", "2021-01-31T00:00:00.0"]


def s03_unit(unit, rec):
    rules, names, moments, zs, chain = unit
    one_us = datetime.timedelta(microseconds=1)
    for r in rules:
        expr = rtext(r)
        for name in names:
            off, T = learn(name)[0], tod(name)
            for z in zs:
                zp, zr = zones(z)
                for m in moments:
                    t = ep(m).astimezone(zp)
                    for i in range(chain):
                        rec.state(expr, name, z, us(t))
                        got = nxt(expr, name, t)
                        rec.step()
                        e = us(t)
                        day = (e // 10 ** 6 - T) // 86400 * 86400 + T     # last hashed time of day up to t
                        D = at(day * 10 ** 6, zr).replace(tzinfo=None)
                        a = at(e, zr).replace(tzinfo=None)
                        w = rref(r, D, a, a + datetime.timedelta(days=366 * 60))
                        if w is None:
                            if got is not None:
                                rec.bad("rrule none " + expr, "%r for %r after %s is %s, expected none" % (expr, name, t.isoformat(), got.isoformat()))
                            break
                        if got is not None:
                            # comparable only while the UTC offset stays the same
                            wz = w.replace(tzinfo=zr)
                            if wz.utcoffset() != t.utcoffset() or at(day * 10 ** 6, zr).utcoffset() != t.utcoffset():
                                if us(got) <= e:
                                    rec.bad("rrule past " + expr, "%r for %r after %s is %s" % (expr, name, t.isoformat(), got.isoformat()))
                                break
                        if got is None or us(got) <= e or us(got) - off != us(wz.astimezone(UTC)):
                            rec.bad("rrule %s %s" % (expr, z), "%r for %r after %s is %s, expected %s plus %.6f s" % (
                                expr, name, t.isoformat(), got and got.isoformat(), w.isoformat(), off / 1e6),
                                unit=[[list(r)], [name], [m], [z], chain])
                            break
                        t = got
                    rec.trace()
    rec.sample(rule=expr, job=name, zone=z, last=t.isoformat())


def s03_until(unit, rec):
    """UNTIL in all its forms, around its boundary, as seen by the daemon and by configuration checking"""
    freq, name, zs = unit
    off, T = learn(name)[0], tod(name)
    for z in zs:
        zp, zr = zones(z)
        for text_, kind in (("20200615T120000", "local"), ("20200615T120000Z", "utc"), ("20200615", "date"),
                            ("20200615T083000", "local")):
            expr = "RRULE:FREQ=%s;UNTIL=%s" % (freq, text_)
            for expr in (expr, expr.lower(), "RRULE:UNTIL=%s;FREQ=%s;INTERVAL=1" % (text_, freq)):
                w = datetime.datetime.strptime(text_.rstrip("Z"), "%Y%m%dT%H%M%S" if "T" in text_ else "%Y%m%d")
                u = w.replace(tzinfo=UTC if kind == "utc" else zr)
                for delta in (-200000, -86401, -86399, -3601, -3599, -61, -59, -1, 0, 1, 3600, 86400):
                    t = (u.astimezone(UTC) + datetime.timedelta(seconds=delta, microseconds=500000)).astimezone(zp)
                    rec.state(expr, name, z, us(t))
                    rec.step()
                    try:
                        got = nxt(expr, name, t)
                    except Exception as e:
                        rec.bad("until %s %s" % (kind, z), "%r for %r after %s fails: %r" % (expr, name, t.isoformat(), e))
                        break
                    D = at(((us(t) // 10 ** 6 - T) // 86400 * 86400 + T) * 10 ** 6, zr).replace(tzinfo=None)
                    a = at(us(t), zr).replace(tzinfo=None)
                    x = rref((freq, ()), D, a, a + datetime.timedelta(days=400))
                    x = x.replace(tzinfo=zr) if x is not None else None
                    if x is not None and x.astimezone(UTC) > u.astimezone(UTC):
                        x = None
                    if (got is None) != (x is None) or (x is not None and us(got) - off != us(x.astimezone(UTC))):
                        rec.bad("until %s %s" % (kind, z), "%r for %r after %s is %s, expected %s" % (
                            expr, name, t.isoformat(), got and got.isoformat(), x and x.isoformat()))
                rec.trace()
                vos.CLOCK = us(t)
                try:
                    nxt(expr, name, None)
                except Exception as e:
                    rec.bad("until check %s" % kind, "%r is refused by configuration checking: %r" % (expr, e))
                finally:
                    vos.CLOCK = None


def s03_dst(unit, rec):
    """around clock changes: strictly in the future, explicit parts satisfied"""
    rules, name, z = unit
    zp, zr = zones(z)
    off = learn(name)[0]
    for r in rules:
        expr = rtext(r)
        d = dict(r[1])
        for c0 in DST[z]:
            for k in range(-8, 9):
                t = at((c0 + k * 1300) * 10 ** 6 + 400000, zp)
                for i in range(2):
                    got = nxt(expr, name, t)
                    rec.step()
                    rec.state(expr, name, z, us(t))
                    if got is None:
                        break
                    if us(got) <= us(t):
                        rec.bad("dst past %s %s" % (expr, z), "%r for %r after %s is %s" % (expr, name, t.isoformat(), got.isoformat()))
                        break
                    x = at(us(got) - off, zr)
                    gap = at(us(got) - off - 7200 * 10 ** 6, zr).utcoffset() != x.utcoffset()
                    bad = [p for p, f in (("BYHOUR", x.hour), ("BYMINUTE", x.minute), ("BYSECOND", x.second), ("BYMONTH", x.month),
                                          ("BYMONTHDAY", x.day)) if p in d and f not in [int(v) for v in d[p].split(",")]]
                    if "BYDAY" in d and WD[x.weekday()] not in d["BYDAY"].split(","):
                        bad.append("BYDAY")
                    if bad and not gap:
                        rec.bad("dst parts %s %s" % (expr, z), "%r for %r after %s is %s, which is not %s" % (
                            expr, name, t.isoformat(), got.isoformat(), bad))
                        break
                    t = got
                rec.trace()


def s03_tod(unit, rec):
    """open positions take the same time of day on every evaluation"""
    name = unit
    off, T = learn(name)[0], tod(name)
    if not 0 <= T < 86400:
        rec.bad("tod", "bad time of day")
    for expr in ("RRULE:FREQ=DAILY", "RRULE:FREQ=WEEKLY;BYDAY=MO,WE,SU", "RRULE:FREQ=MONTHLY;BYMONTHDAY=1,10,20,31",
                 "RRULE:FREQ=DAILY;INTERVAL=3", "RRULE:FREQ=MONTHLY;BYDAY=MO,TU,WE,TH,FR;BYSETPOS=-1"):
        t0 = ep("2020-06-15T00:00:00.25")
        for k in range(0, 86400 * 3, 1801):
            t = t0 + datetime.timedelta(seconds=k)
            got = us(nxt(expr, name, t)) - off
            rec.step()
            rec.state(expr, name, k)
            if got % 10 ** 6 or got // 10 ** 6 % 86400 != T or got + off <= us(t):
                rec.bad("tod %s" % expr, "%r for %r after %s runs at %s, not at second %d of the day" % (
                    expr, name, t.isoformat(), at(got, UTC).isoformat(), T))
                break
        rec.trace()


def s03(c):
    th = c.tier == "thorough"
    rules = rrules(3 if th else 2)
    rules = [r for r in rules if r[0] != "SECONDLY" or th or len(r[1]) < 2]
    names = NAMES[:3] if th else NAMES[:1]
    units = []
    for i in range(0, len(rules), 6):
        units.append(("u", (rules[i:i + 6], names, RMOM if th else RMOM[:3], ["UTC", "Asia/Kolkata"] if th else ["UTC"], 2)))
    one = rrules(2 if th else 1)
    for i in range(0, len(one), 4):
        units.append(("u", (one[i:i + 4], NAMES[1:3], RMOM, ["Asia/Kolkata", "America/New_York", "Pacific/Chatham"], 2)))
    for f in ("DAILY", "HOURLY", "MINUTELY"):
        for n in (NAMES if th else NAMES[:3]):
            units.append(("until", (f, n, ["UTC", "America/New_York", "Asia/Kolkata"])))
    for z in DST:
        for i in range(0, len(one), 12):
            units.append(("dst", (one[i:i + 12], NAMES[0], z)))
    for n in NAMES:
        units.append(("tod", n))
    fn = {"u": s03_unit, "until": s03_until, "dst": s03_dst, "tod": s03_tod}
    tot = sweep.sweep(units, lambda u, r: fn[u[0]](u[1], r), c.wall(150, 3000), program_errors=True)
    return sweep.finish(c, tot, "every RRULE with at most %d explicit parts from the listed values, from every listed "
                        "moment, against an independent evaluation; UNTIL around its boundary; clock changes" % (3 if th else 2),
                        ["COUNT is not supported by the project; ordinal BYDAY, BYSETPOS, BYWEEKNO and BYYEARDAY are left to dateutil"],
                        units=len(units))


def run(c):
    return {"S01": s01, "S02": s02, "S03": s03}[c.prop](c)


def replay(prop, path):
    with open(path) as f:
        for v in json.load(f)["violations"]:
            print(v["what"])
    return 1
