"""Independent cron evaluator (reference).  Works on wall-clock fields; expressions must be already free of H/R."""
import datetime, calendar, re, math

MON = {m.lower(): i for i, m in enumerate(calendar.month_abbr) if m}
DOW = {"sun": 0, "mon": 1, "tue": 2, "wed": 3, "thu": 4, "fri": 5, "sat": 6}
LIM = [(0, 59), (0, 23), (1, 31), (1, 12), (0, 7), (0, 59), (1970, 2099)]


def field(txt, idx):
    """set of allowed values; None = any"""
    lo, hi = LIM[idx]
    names = MON if idx == 3 else DOW if idx == 4 else {}

    def num(s):
        s = s.lower()
        return names[s] if s in names else int(s)
    out = set()
    star = False
    for part in txt.split(","):
        step = 1
        if "/" in part:
            part, s = part.split("/")
            step = int(s)
        if part in ("*", "?"):
            a, b = lo, (6 if idx == 4 else hi)
            if step == 1:
                star = True
        elif "-" in part:
            a, b = part.split("-")
            a, b = num(a), num(b)
        else:
            a = num(part)
            b = a if step == 1 else (6 if idx == 4 else hi)
        if a > b:
            raise ValueError(txt)
        for v in range(a, b + 1, step):
            if not lo <= v <= hi:
                raise ValueError(txt)
            out.add(v % 7 if idx == 4 else v)
    full = set(range(lo, (6 if idx == 4 else hi) + 1))
    return None if star or out == full else out


class Cron:
    def __init__(self, expr):
        f = expr.split()
        if len(f) == 5:
            f.append("0")
        if len(f) == 6:
            f.append("*")
        self.txt = f
        self.m, self.h, self.d, self.mon, self.w, self.s, self.y = [field(x, i) for i, x in enumerate(f)]
        # a day field counts as unrestricted when it is *, not when it lists every value
        self.dstar, self.wstar = f[2] in ("*", "?"), f[4] in ("*", "?")

    def day_ok(self, d):
        if self.y is not None and d.year not in self.y:
            return False
        if self.mon is not None and d.month not in self.mon:
            return False
        dm = self.d is None or d.day in self.d
        dw = self.w is None or (d.weekday() + 1) % 7 in self.w
        if not self.dstar and not self.wstar:
            return dm or dw
        return dm and dw

    def times(self):
        hs = sorted(self.h) if self.h is not None else range(24)
        ms = sorted(self.m) if self.m is not None else range(60)
        ss = sorted(self.s) if self.s is not None else range(60)
        for h in hs:
            for m in ms:
                for s in ss:
                    yield h, m, s

    def time_ok(self, t):
        return ((self.h is None or t.hour in self.h) and (self.m is None or t.minute in self.m)
                and (self.s is None or t.second in self.s))

    def in_gap(self, lo, hi):
        """does a wall time in [lo, hi) match?"""
        t = lo
        while t < hi:
            if self.day_ok(t.date()) and (self.h is None or t.hour in self.h) \
                    and (self.m is None or t.minute in self.m):
                return True
            t += datetime.timedelta(minutes=1)
        return False

    def allowed(self, r, epoch, tz):
        """may a run after `epoch` be due at r?  Strictly later, at a matching wall time or in place of a matching one
        that a clock change skipped, and no later than the first matching wall time not seen before."""
        if r <= epoch or r != int(r):
            return False
        upper = self.next(epoch, tz, gaps=False, again=False)
        if upper is not None and r > upper:
            return False
        if self.matches(r, tz):
            return True
        t = datetime.datetime.fromtimestamp(r, tz)
        for k in range(0, 8):
            g = int(r) // 900 * 900 - 900 * k
            new = datetime.datetime.fromtimestamp(g, tz)
            jump = new.utcoffset() - datetime.datetime.fromtimestamp(g - 1, tz).utcoffset()
            if jump > datetime.timedelta(0) and r < g + jump.total_seconds():
                new = new.replace(tzinfo=None)
                return self.in_gap(new - jump, new)
        return False

    def next(self, epoch, tz=datetime.timezone.utc, days=366 * 9, gaps=True, again=True):
        """smallest matching instant (epoch seconds) after `epoch`; None if there is none within `days` days.
        A wall time skipped by a clock change stands for the end of the gap (not at all if not gaps), an ambiguous
        one counts twice.  UTC offsets are taken to be constant within every quarter of an hour."""
        Q = 900
        e = int(math.floor(epoch)) + 1
        end = e + days * 86400
        utc = tz is datetime.timezone.utc
        zero = datetime.timedelta(0)
        prev = None
        while e < end:
            t = datetime.datetime.fromtimestamp(e, tz)
            off = t.utcoffset()
            if prev is not None and gaps and off > prev:
                new = t.replace(tzinfo=None)
                if self.in_gap(new - (off - prev), new):
                    return e
            prev = off
            if t.fold and not again:
                e += Q - e % Q
                continue
            d = t.date()
            if t.year > 2098 or (self.y is not None and t.year > max(self.y)):
                return None
            if not self.day_ok(d):
                left = 86400 - (t.hour * 3600 + t.minute * 60 + t.second)
                jump = left if utc else left - 3 * 3600 - 1
                if jump > 0 and (utc or datetime.datetime.fromtimestamp(e + left + 4 * 3600, tz).utcoffset() == off):
                    e += jump
                    if not utc:
                        e += -e % Q
                    continue
                e += Q - e % Q
                continue
            if self.h is not None and t.hour not in self.h:
                if utc:
                    e += 3600 - e % 3600
                else:
                    e += Q - e % Q
                continue
            stop = e + Q - e % Q
            w = t
            while e < stop:
                if self.m is None or w.minute in self.m:
                    if self.s is None or w.second in self.s:
                        return e
                    e += 1
                    w += datetime.timedelta(seconds=1)
                else:
                    k = 60 - w.second
                    e += k
                    w += datetime.timedelta(seconds=k)
            e = min(e, stop)
        return None

    def matches(self, epoch, tz=datetime.timezone.utc):
        t = datetime.datetime.fromtimestamp(epoch, tz)
        return (self.day_ok(t.date()) and (self.h is None or t.hour in self.h)
                and (self.m is None or t.minute in self.m) and (self.s is None or t.second in self.s)
                and t.microsecond == 0)
