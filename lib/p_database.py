"""B01, B02: the run database against a plain table, over all operation sequences up to a depth and adversarial values.

A state is (backend, contents of the table, which connection is open); a transition is one operation of the public
database interface, after which every read of that interface is compared, through the writing connection, one opened
at the beginning and one opened now.
"""
import os, time, json, itertools, datetime, copy

import vos, sweep, cli, standins
import dsari
import dsari.config
import dsari.database

UTC = datetime.timezone.utc
SQL = ["sqlite3"]
OTHERS = ["postgresql", "mysql", "mongodb"]


class Conf:
    pass


def config(kind, where, jobs=("a", "A")):
    cd = os.path.join(cli.scratch(), "etc." + kind)
    cli.write(os.path.join(cd, "dsari.json"), json.dumps({
        "data_dir": os.path.join(cli.scratch(), "var"), "database": standins.settings(kind, where),
        "jobs": {j: {"command": ["x"]} for j in jobs}}))
    return dsari.config.get_config(cd)


def db(cfg):
    return dsari.database.get_database(cfg)


def close(d):
    for a in ("db_conn", "client"):
        c = getattr(d, a, None)
        if c is not None:
            c.close()


def t(k):
    return datetime.datetime(2020, 6, 1, 12, 0, 0, 123456, tzinfo=UTC) + datetime.timedelta(seconds=k * 61, microseconds=k * 1007)


IDS = ["0aa80b81-2eb3-4bb5-8d9f-0f0c5f4f5a1%d" % i for i in range(4)]
JOBS = ["a", "A", "a", "gone", "Gone"]


class Rec:
    """what was recorded"""
    FIELDS = ("schedule_time", "start_time", "stop_time", "exit_code", "trigger_type", "trigger_data", "run_data")

    def __init__(self, id, job, **k):
        self.id, self.job = id, job
        for f in self.FIELDS:
            setattr(self, f, k.get(f))

    def run(self, cfg):
        r = dsari.Run(cfg.jobs.get(self.job) or dsari.Job(self.job), id=self.id)
        for f in self.FIELDS:
            setattr(r, f, copy.deepcopy(getattr(self, f)))
        return r


def same(a, b):
    if type(a) != type(b):
        return type(a) in (int, float) and type(b) in (int, float) and a == b
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def differs(kind, got, want, running):
    """what is wrong with a run read back, or None"""
    if got.job.name != want.job:
        return "job is %r, recorded %r" % (got.job.name, want.job)
    if got.id != want.id:
        return "id is %r, recorded %r" % (got.id, want.id)
    for f in Rec.FIELDS:
        w, g = getattr(want, f), getattr(got, f)
        if running and f in ("stop_time", "exit_code"):
            w = None
        if isinstance(w, datetime.datetime):
            if kind == "mongodb":
                w = w.replace(microsecond=w.microsecond // 1000 * 1000)
            if not isinstance(g, datetime.datetime) or g.tzinfo is None or g.astimezone(UTC) != w.astimezone(UTC):
                return "%s is %s, recorded %s" % (f, g.isoformat() if isinstance(g, datetime.datetime) else repr(g), w.isoformat())
        elif not same(g, w):
            return "%s is %r, recorded %r" % (f, g, w)
    return None


def compare(kind, got, want, running, what):
    g = {}
    for r in got:
        if r.id in g:
            return "%s: run %s twice" % (what, r.id)
        g[r.id] = r
    if set(g) != {w.id for w in want}:
        return "%s: runs %r, expected %r" % (what, sorted(g), sorted(w.id for w in want))
    for w in want:
        x = differs(kind, g[w.id], w, running)
        if x:
            return "%s: run %s: %s" % (what, w.id, x)
    return None


def reads(kind, d, cfg, done, running, full, step):
    """compare every read; returns what is wrong or None"""
    jobs = sorted({r.job for r in done + running} | {"a", "A", "gone", "nope"})
    filters = [{}, {"job_names": None, "run_ids": None}, {"job_names": []}, {"run_ids": []}]
    if full:
        filters += [{"job_names": [j]} for j in jobs] + [{"job_names": list(js)} for js in itertools.combinations(jobs, 2)] + [{"job_names": jobs}]
        ids = [r.id for r in done + running] + [IDS[3], "nope", "' OR '1'='1", "%", "{}", IDS[0].upper()]
        filters += [{"run_ids": [i]} for i in ids] + [{"run_ids": list(i)} for i in itertools.combinations(ids[:3], 2)] + [{"run_ids": ids}]
    for table, rows in ((False, done), (True, running)):
        for f in filters:
            want = [r for r in rows if (f.get("job_names") is None or r.job in f["job_names"]) and (f.get("run_ids") is None or r.id in f["run_ids"])]
            if kind == "mysql" and IDS[0].upper() in (f.get("run_ids") or ()):
                continue        # compared without regard to case
            a = copy.deepcopy(f)
            try:
                got = d.get_runs(runs_running=table, **a)
            except Exception as e:
                return "get_runs(%r, runs_running=%r) fails: %r" % (f, table, e)
            step()
            x = compare(kind, got, want, table, "get_runs(%r, runs_running=%r)" % (f, table))
            if x:
                return x
    for j in jobs if full else jobs[:1]:
        mine = sorted((r for r in done if r.job == j), key=lambda r: r.stop_time)
        want = [mine[-1:], [r for r in mine if r.exit_code == 0][-1:], [r for r in mine if r.exit_code != 0][-1:]]
        try:
            got = d.get_previous_runs(cfg.jobs.get(j) or dsari.Job(j))
        except Exception as e:
            return "get_previous_runs(%s) fails: %r" % (j, e)
        step()
        for name, g, w in zip(("previous", "previous good", "previous bad"), got, want):
            x = compare(kind, [] if g is None else [g], w, False, "%s run of %s" % (name, j))
            if x:
                return x
    return None


def ops(state, allow_clear, codes=(0, 3)):
    done, running, seen = state
    out = []
    for i, j in enumerate(JOBS):
        if i not in seen:
            out.append(("start", i))
            break           # runs differ only by job; start them in order of their number
    for i in sorted(running):
        for c in codes:
            out.append(("finish", i, c))
    out.append(("reopen",))
    if running and allow_clear:
        out.append(("clear",))
    return out


def seq_unit(unit, rec):
    kind, tz, prefix, depth, order = unit
    os.environ["TZ"] = tz
    time.tzset()
    jobs = order
    try:
        walk(kind, prefix, depth, jobs, rec)
    finally:
        os.environ["TZ"] = "UTC"
        time.tzset()
    rec.sample(backend=kind, local_zone=tz, operations=prefix)


def walk(kind, prefix, depth, jobs, rec):
    """all operation sequences starting with `prefix`"""
    n = [0]

    def path():
        n[0] += 1
        return os.path.join(cli.scratch(), "db%d" % n[0])

    def visit(where, hist, done, running, seen, todo):
        """apply todo (or each possible operation) to the database at `where`"""
        if not todo and len(hist) >= depth:
            return
        cand = []
        if todo:
            cand = [todo[0]]
        else:
            nxt = next((i for i in range(len(jobs)) if i not in seen), None)
            if nxt is not None:
                cand.append(("start", nxt))
            for i in sorted(running):
                cand += [("finish", i, 0), ("finish", i, 3)]
            if hist and hist[-1][0] not in ("reopen", "clear"):
                cand += [("clear",)] if running else [("reopen",)]
        for op in cand:
            here = path()
            standins.clone(kind, where, here)
            cfg = config(kind, here)
            d, early = db(cfg), db(cfg)
            # the history's connection states: readers that looked before the operation must see its result
            early.get_runs()
            early.get_runs(runs_running=True)
            d.get_previous_runs(dsari.Job("a"))
            k = len(hist) + 1
            dn, rn, sn = dict(done), dict(running), set(seen)
            bad = None
            moments = []

            def look(what):
                o = db(cfg)
                try:
                    a = {r.id for r in o.get_runs()}
                    b = {r.id for r in o.get_runs(runs_running=True)}
                finally:
                    close(o)
                moments.append((what, a, b))
            try:
                if op[0] == "start":
                    r = Rec(IDS[op[1]], jobs[op[1]], schedule_time=t(k * 3), start_time=t(k * 3 + 1), trigger_type="file" if op[1] % 2 else "schedule",
                            trigger_data={"n": op[1]}, run_data={})
                    d.insert_running_run(r.run(cfg))
                    rn[op[1]] = r
                    sn.add(op[1])
                elif op[0] == "finish":
                    r = copy.copy(rn.pop(op[1]))
                    r.stop_time, r.exit_code, r.run_data = t(k * 3 + 2), op[2], {"result": [k]}
                    standins.observer = look
                    d.insert_run(r.run(cfg))
                    standins.observer = None
                    dn[op[1]] = r
                    for what, a, b in moments:
                        if r.id not in a | b:
                            bad = "while it completes (%s), run %s is neither running nor completed" % (what, r.id)
                        for i, x in list(dn.items()) + list(rn.items()):
                            if x.id not in a | b or (i in rn and x.id in a) or (i in dn and i != op[1] and x.id in b):
                                bad = bad or "while run %s completes, run %s is %s" % (r.id, x.id, "in neither table" if x.id not in a | b else "in the wrong table")
                elif op[0] == "clear":
                    close(d)
                    d = db(cfg)
                    d.clear_runs_running()
                    rn = {}
                else:
                    close(d)
                    d = db(cfg)
            except Exception as e:
                bad = "fails: %r" % (e,)
            finally:
                standins.observer = None
            h = hist + [op]
            rec.step()
            rec.state(kind, sorted((i, x.exit_code) for i, x in dn.items()), sorted(rn), sorted(sn), jobs)
            late = None
            if bad is None:
                try:
                    late = db(cfg)
                    for who, c, full in (("the writer", d, True), ("a connection opened before", early, False), ("a new connection", late, True)):
                        bad = reads(kind, c, cfg, list(dn.values()), list(rn.values()), full, rec.step)
                        if bad:
                            bad = "seen by %s: %s" % (who, bad)
                            break
                except Exception as e:
                    bad = "reopening fails: %r" % (e,)
            for c in (d, early, late):
                if c is not None:
                    close(c)
            if bad:
                rec.bad("%s %s %s" % (kind, op[0], bad[:40]), "%s: after %s: %s" % (kind, "; ".join(" ".join(map(str, o)) for o in h), bad), history=h)
            else:
                rec.trace()
                visit(here, h, dn, rn, sn, todo[1:])
            standins.drop(kind, here)
    w = path()
    standins.drop(kind, w)
    close(db(config(kind, w)))
    visit(w, [], {}, {}, set(), list(prefix))
    standins.drop(kind, w)


# ---------------------------------------------------------------- values
NY = "America/New_York"


def values(kind):
    import dateutil.tz
    z = dateutil.tz.gettz
    T = datetime.datetime
    times = [T(2020, 6, 1, 0, 0, 0, 0, tzinfo=UTC), T(2020, 6, 1, 12, 0, 0, 1, tzinfo=UTC), T(2020, 6, 1, 12, 0, 0, 999999, tzinfo=UTC),
             T(1999, 12, 31, 23, 59, 59, 999999, tzinfo=UTC), T(2038, 1, 19, 3, 14, 8, 500000, tzinfo=UTC), T(2099, 12, 31, 23, 59, 59, 123457, tzinfo=UTC),
             T(2020, 11, 1, 1, 30, 0, 5, tzinfo=z(NY)), T(2020, 11, 1, 1, 30, 0, 5, tzinfo=z(NY), fold=1), T(2020, 3, 8, 3, 0, 0, 7, tzinfo=z(NY)),
             T(2020, 6, 1, 3, 4, 5, 6789, tzinfo=z("Asia/Kolkata")), T(2020, 6, 1, 3, 4, 5, 6789, tzinfo=z("Pacific/Chatham")), T(2020, 11, 1, 5, 30, tzinfo=UTC),
             T(2020, 11, 1, 6, 30, tzinfo=UTC), T(2020, 3, 8, 7, 30, tzinfo=UTC), T(2020, 6, 1, 3, 4, 5, 6, tzinfo=datetime.timezone(datetime.timedelta(minutes=-61)))]
    data = [{}, {"a": 1}, {"a": {"b": [1, 2.5, None, True, "x"]}}, {"": ""}, {"k": "\u00e9\u4e2d\U0001f600"}, {"k": "'\"\\;--%s{}?"}, {"k": "\n\r\t"},
            {"%s": "{}", "?": ":x"}, {"f": 0.1, "g": 1e-320, "h": 1.7976931348623157e308}, {"big": 2 ** 53 + 1, "neg": -2 ** 31}, {"n": None}, {"e": [], "f": {}},
            {"nested": {"a": {"b": {"c": {"d": [[[]]]}}}}}, {"k": "x" * 5000}, {"true": True, "1": 1, "1.0": 1.0}]
    if kind in ("sqlite3", "mysql"):
        data += [{"nul": "\u0000"}, {"huge": 2 ** 70}, {"surrogate": "\ud800"}]
    if kind == "sqlite3":
        data += [["a", 1], "text", 5, None, True, []]
    types_ = ["schedule", "file", "x" * 127, "\u00e9\u4e2d", "'", "%s", "{}", "", " a ", "a\nb"]
    jobs = ["a", "a b", "A", "a.b", "..a", "@", "a+b:c", "-", "_", "x" * 64, "0", "Gone", "gone", "GONE", "gone ", "g_ne", "X" * 64, "go", "gone.x"]
    codes = list(range(256))
    return times, data, types_, jobs, codes


def values_unit(unit, rec):
    kind, tz, field, vals = unit
    os.environ["TZ"] = tz
    time.tzset()
    where = os.path.join(cli.scratch(), "values")
    standins.drop(kind, where)
    try:
        import uuid as U
        jobs = ["a", "b"] + ([v for v in vals if v not in ("a", "b")] if field == "job" else [])
        cfg = config(kind, where, [j for j in jobs[::2] if not j.lower().startswith("g")])
        d = db(cfg)
        done, running = [], []
        for i, v in enumerate(vals):
            k = dict(schedule_time=t(i), start_time=t(i) + datetime.timedelta(seconds=1), stop_time=t(i) + datetime.timedelta(seconds=5), exit_code=i % 2,
                     trigger_type="schedule", trigger_data={}, run_data={})
            job = "a"
            if field == "job":
                job = v
            elif field == "time":
                k.update(schedule_time=v, start_time=v + datetime.timedelta(microseconds=1), stop_time=v + datetime.timedelta(seconds=i + 2))
            elif field == "data":
                k.update(trigger_data=v, run_data=vals[-1 - i])
            else:
                k[field] = v
            r = Rec(str(U.UUID(int=i + 1)), job, **k)
            try:
                d.insert_running_run(r.run(cfg))
                running.append(r)
                for who, c in (("the writer", d), ("a new connection", db(cfg))):
                    bad = compare(kind, c.get_runs(runs_running=True), running, True, "%s, running" % who)
                    rec.step()
                    if bad:
                        rec.bad("%s value %s" % (kind, field), "%s in %s: recording %s=%r: %s" % (kind, tz, field, v, bad))
                        return
                if i % 3 != 2:
                    d.insert_run(r.run(cfg))
                    running.remove(r)
                    done.append(r)
            except Exception as e:
                rec.bad("%s value %s" % (kind, field), "%s in %s: recording %s=%r fails: %r" % (kind, tz, field, v, e))
                return
            rec.state(kind, tz, field, repr(v))
            for who, c in (("the writer", d), ("a new connection", db(cfg))):
                bad = compare(kind, c.get_runs(), done, False, "%s, completed" % who) or compare(kind, c.get_runs(runs_running=True), running, True, "%s, running" % who) \
                    or compare(kind, c.get_runs(job_names=[job]), [x for x in done if x.job == job], False, "%s, of %r" % (who, job)) \
                    or compare(kind, c.get_runs(run_ids=[r.id]), [x for x in done if x.id == r.id], False, "%s, %r" % (who, r.id))
                rec.step(4)
                if not bad and field != "time":
                    mine = [x for x in done if x.job == job]
                    for g, w in zip(c.get_previous_runs(cfg.jobs.get(job) or dsari.Job(job)),
                                    (mine[-1:], [x for x in mine if x.exit_code == 0][-1:], [x for x in mine if x.exit_code][-1:])):
                        bad = bad or compare(kind, [g] if g else [], w, False, "previous runs of %r" % job)
                if bad:
                    rec.bad("%s value %s" % (kind, field), "%s in %s: recording %s=%r: %s" % (kind, tz, field, v, bad))
                    return
                if c is not d:
                    close(c)
            rec.trace()
        close(d)
        rec.sample(backend=kind, local_zone=tz, field=field, last=repr(v)[:80])
    finally:
        os.environ["TZ"] = "UTC"
        time.tzset()
        standins.drop(kind, where)


def check(c, kinds):
    th = c.tier == "thorough"
    standins.install()
    standins.hook_sqlite()
    depth = (9 if kinds == SQL else 8) if th else 6
    units = []
    S, F = (lambda i: ("start", i)), (lambda i, x: ("finish", i, x))
    for kind in kinds:
        for order in (("a", "A", "a", "gone"), ("a", "gone", "Gone")) if th or kind == "sqlite3" else (("a", "A", "a"),):
            for tz in ("UTC", NY) if th else ("UTC",) if order[1] == "A" else (NY,):
                for p in ([S(0)], ) if not th and kind != "sqlite3" else ():
                    units.append(("seq", (kind, tz, p, depth, order)))
                if th or kind == "sqlite3":
                    for p in ([S(0), S(1), S(2)], [S(0), S(1), F(0, 0)], [S(0), S(1), F(0, 3)], [S(0), S(1), F(1, 0)], [S(0), S(1), F(1, 3)], [S(0), S(1), ("clear",)],
                              [S(0), F(0, 0)], [S(0), F(0, 3)], [S(0), ("clear",)]):
                        units.append(("seq", (kind, tz, p, depth, order)))
        times, data, types_, jobs, codes = values(kind)
        for tz in ("UTC", NY, "Asia/Kolkata"):
            units.append(("val", (kind, tz, "time", times)))
        units.append(("val", (kind, "UTC", "data", data)))
        units.append(("val", (kind, "UTC", "trigger_type", types_)))
        units.append(("val", (kind, "UTC", "job", jobs)))
        for i in range(0, 256, 32):
            units.append(("val", (kind, "UTC", "exit_code", codes[i:i + 32])))
    fn = {"seq": seq_unit, "val": values_unit}
    tot = sweep.sweep(units, lambda u, r: fn[u[0]](u[1], r), c.wall(200, 3000), limit=600)
    return sweep.finish(c, tot, "all sequences of up to %d starts, completions (exit code 0 or not), clean-ups and reconnections over 3-4 runs of 3 jobs; "
                        "every read compared after every operation; every value of the listed ones in every recorded field" % depth,
                        [] if kinds == SQL else ["psycopg2, MySQLdb and pymongo are replaced by stand-ins that reproduce parameter style, types, time zones, "
                                                 "isolation and collation; MongoDB times have millisecond resolution"], units=len(units))


def run(c):
    return check(c, SQL if c.prop == "B01" else OTHERS)


def replay(prop, path):
    with open(path) as f:
        for v in json.load(f)["violations"]:
            print(v["what"])
    return 1
