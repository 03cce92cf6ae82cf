"""I01, I02: dsari-info against the recorded runs and configured jobs.

A state is (run table, configuration, output files); a transition is one dsari-info command whose output is compared
with the table.  Races with the daemon are explored by letting it complete a run between any two of the command's
database statements, races with a compressor by letting it replace the file between any two source lines.
"""
import os, sys, json, gzip, lzma, itertools, datetime, time, uuid, re

import yaml

import vos, sweep, cli, standins
import dsari
import dsari.config
import dsari.database
import dsari.info
import dsari.utils

UTC = datetime.timezone.utc
NOW = 1600000000 * 10 ** 6 + 123456
CFG = {"jobs": {"a": {"command": ["x", "y z"], "schedule": "30 12 * * *", "schedule_timezone": "Asia/Kolkata"}, "b 1": {"command": ["c"]},
                "r": {"command": ["c"], "schedule": "RRULE:FREQ=DAILY;UNTIL=20200101T000000"}}}


def t(k):
    return datetime.datetime(2020, 9, 12, 12, 0, 0, 250000, tzinfo=UTC) + datetime.timedelta(seconds=k * 61, microseconds=k * 1007)


def setup(cfg=CFG, name="etc"):
    os.chdir(cli.scratch())
    cd = cli.fresh(name)
    var = cli.fresh("var." + name)
    cli.write(os.path.join(cd, "dsari.json"), json.dumps(dict(cfg, data_dir=var)))
    return cd, var


def record(cd, runs):
    c = dsari.config.get_config(cd)
    d = dsari.database.get_database(c)
    for r in runs:
        put(c, d, r, "start")
        if r["stop"] is not None:
            put(c, d, r, "finish")
    d.db_conn.close()


def put(c, d, r, what):
    x = dsari.Run(c.jobs.get(r["job"]) or dsari.Job(r["job"]), id=r["id"])
    x.schedule_time, x.start_time, x.trigger_type, x.trigger_data, x.run_data = r["sched"], r["start"], r["ttype"], r["tdata"], {}
    if what == "start":
        d.insert_running_run(x)
    else:
        x.stop_time, x.exit_code, x.run_data = r["stop"], r["code"], r["rdata"]
        d.insert_run(x)


def run_(i, job, stop, code=0, ttype="schedule", tdata=None, rdata=None):
    return {"id": str(uuid.UUID(int=i + 1)), "job": job, "sched": t(3 * i), "start": t(3 * i + 1), "stop": t(3 * i + 2 + (5 - i) * 2) if stop else None,
            "code": code if stop else None, "ttype": ttype, "tdata": tdata if tdata is not None else {}, "rdata": (rdata or {}) if stop else {}}


KINDS = [("running", dict(stop=False)), ("ok", dict(stop=True)), ("failed", dict(stop=True, code=3, rdata={"u": "\u00e9", "l": [1, None, 2.5]})),
         ("killed", dict(stop=True, code=137, ttype="file", tdata={"schedule_time": 1.5, "environment": {"A": "b: c\n"}})),
         ("triggered", dict(stop=False, ttype="file", tdata={"x": {"y": [True]}}))]
JOBS = ["a", "b 1", "gone"]


def tables():
    """fixed-width table -> list of dicts"""


def parse_pretty(out):
    lines = out.split("\n")
    assert lines[-1] == ""
    lines = lines[:-1]
    widths = [len(x) for x in lines[1].split("   ")]
    pos, at = [], 0
    for w in widths:
        pos.append((at, at + w))
        at += w + 3
    heads = [lines[0][a:b].strip() for a, b in pos]
    if set(lines[1]) - set("-\u2500 "):
        raise ValueError("no header")
    rows = []
    for l in lines[2:]:
        row = {}
        for i, (h, (a, b)) in enumerate(zip(heads, pos)):
            row[h] = (l[a:] if i == len(heads) - 1 else l[a:b]).rstrip(" ")
            if i < len(heads) - 1 and l[b:b + 3].strip(" "):
                raise ValueError("columns run into each other: %r" % l)
        rows.append(row)
    return rows


def iso(x, tz=None):
    return x.astimezone(tz).isoformat() if x is not None else None


def moment(s):
    return datetime.datetime.fromisoformat(s) if s else None


def check_list(cd, runs, args, rec, what, env=None):
    """compare `run list` in all four formats with the expected runs"""
    want = {r["id"]: r for r in runs}

    def bad(fmt, msg):
        rec.bad("run list %s" % fmt, "run list %s --format %s of %s: %s" % (" ".join(args), fmt, what, msg))
        return False
    for fmt in ("json", "yaml", "tabular", "pretty"):
        r = cli.info(cd, "run", "list", "--format", fmt, *args)
        rec.step()
        if r.rc != 0:
            return bad(fmt, "fails: %r" % r)
        try:
            if fmt in ("json", "yaml"):
                got = json.loads(r.out) if fmt == "json" else yaml.safe_load(r.out)
                if set(got) != set(want):
                    return bad(fmt, "shows %r, expected %r" % (sorted(got), sorted(want)))
                for i, w in want.items():
                    g = got[i]
                    exp = {"job_name": w["job"], "trigger_type": w["ttype"], "trigger_data": w["tdata"], "run_data": w["rdata"], "exit_code": w["code"]}
                    for k, v in exp.items():
                        if g[k] != v or type(g[k]) != type(v):
                            return bad(fmt, "%s of %s is %r, recorded %r" % (k, i, g[k], v))
                    for k, f in (("schedule_time", "sched"), ("start_time", "start"), ("stop_time", "stop")):
                        if moment(g[k]) != w[f]:
                            return bad(fmt, "%s of %s is %r, recorded %s" % (k, i, g[k], w[f]))
            elif fmt == "tabular":
                rows = [l.split("\t") for l in r.out.splitlines()]
                if sorted(x[0] for x in rows) != sorted(want):
                    return bad(fmt, "shows %r, expected %r" % (sorted(x[0] for x in rows), sorted(want)))
                for x in rows:
                    w = want[x[0]]
                    if x[1] != w["job"] or x[2] != ("" if w["code"] is None else str(w["code"])) or x[3] != w["ttype"] or \
                            [moment(y) for y in x[4:7]] != [w["sched"], w["start"], w["stop"]] or len(x) != 7:
                        return bad(fmt, "shows %r for %r" % (x, w))
            else:
                rows = parse_pretty(r.out)
                if sorted(x["Run ID"] for x in rows) != sorted(want):
                    return bad(fmt, "shows %r, expected %r" % (sorted(x["Run ID"] for x in rows), sorted(want)))
                for x in rows:
                    w = want[x["Run ID"]]
                    now = datetime.datetime.fromtimestamp(vos.CLOCK / 1e6, UTC)
                    dur = str((w["stop"] or now) - w["start"])
                    exp = {"Exit": "..." if w["code"] is None else str(w["code"]), "Job": w["job"], "Duration": dur, "Type": w["ttype"],
                           "Schedule Delay": str(w["start"] - w["sched"])}
                    for k, v in exp.items():
                        if k in x and x[k] != v:
                            return bad(fmt, "%s of %s is %r, expected %r" % (k, w["id"], x[k], v))
                    if "Start Time" in x and moment(x["Start Time"]) != w["start"]:
                        return bad(fmt, "start of %s is %r, recorded %s" % (w["id"], x["Start Time"], w["start"]))
                    if not env and len(x) != 7:
                        return bad(fmt, "columns %r" % sorted(x))
        except (ValueError, KeyError, IndexError, AssertionError, TypeError) as e:
            return bad(fmt, "unexpected output (%r): %r" % (e, r.out[:500]))
    return True


def i01_runs(unit, rec):
    tz, combos, ties = unit
    os.environ["TZ"] = tz
    time.tzset()
    vos.CLOCK = NOW
    try:
        for combo in combos:
            runs = [run_(i, j, **dict(KINDS[k][1])) for i, (j, k) in enumerate(combo)]
            for r in runs[1:] if ties else ():
                r["start"] = runs[0]["start"]
                r["sched"] = runs[0]["sched"] if ties > 1 else r["start"] - datetime.timedelta(seconds=3 * runs.index(r))
            cd, var = setup()
            record(cd, runs)
            what = "%s%s in %s" % ("at one time: " if ties else "", ", ".join("%s (%s)" % (j, KINDS[k][0]) for j, k in combo) or "nothing", tz)
            rec.state(tz, combo, ties)
            jobs = [[]] + [[j] for j in JOBS + ["nope", "A", "b", "gone%"]] + [list(x) for x in itertools.combinations(JOBS, 2)] + [["a", "a"]]
            ids = [r["id"] for r in runs]
            for js in jobs:
                a = [y for j in js for y in ("--job", j)]
                if not check_list(cd, [r for r in runs if not js or r["job"] in js], a, rec, what):
                    return
            for sel in [[i] for i in ids] + [["nope"], ids + ["nope"]] + [list(x) for x in itertools.combinations(ids, 2)]:
                a = [y for j in sel for y in ("--run", j)]
                if not check_list(cd, [r for r in runs if r["id"] in sel], a, rec, what):
                    return
            for cols in ("60", "100", "garbage"):
                os.environ["COLUMNS"] = cols
                ok = check_list(cd, runs, [], rec, what, env=True)
                del os.environ["COLUMNS"]
                if not ok:
                    return
            rec.trace()
    finally:
        os.environ.pop("COLUMNS", None)
        os.environ["TZ"] = "UTC"
        time.tzset()
        vos.CLOCK = None
    rec.sample(runs=what)


OPTS = {"schedule": [None, "30 12 * * *", "RRULE:FREQ=DAILY;UNTIL=20200101T000000", "15 10 * * * 20"], "schedule_timezone": ["Asia/Kolkata", "America/New_York"],
        "max_execution": [5, 0.5], "max_execution_grace": [1], "environment": [{"A": "1"}], "render_reports": [False], "command_append_run": [True],
        "jenkins_environment": [True], "job_group": ["g"], "concurrent_runs": [True], "concurrency_groups": [["z", "a"], ["q"]],
        "command": ["a 'b c'", ["x", "", "y z", "'q'", "\u00e9"]]}
DEF = {"command": ["cmd"], "schedule": None, "schedule_timezone": None, "environment": {}, "max_execution": None, "max_execution_grace": 60.0,
       "concurrency_groups": [], "render_reports": True, "command_append_run": False, "jenkins_environment": False, "job_group": None, "concurrent_runs": False}


def i01_jobs(unit, rec):
    import shlex, zoneinfo
    vos.CLOCK = NOW
    now = datetime.datetime.fromtimestamp(NOW / 1e6, UTC)
    try:
        for opts in unit:
            job = dict({"command": ["cmd"]}, **opts)
            cd, var = setup({"jobs": {"j 1": job, "zz": {"command": ["q"]}, "A": {"command": ["w"], "schedule": "30 12 * * *"},
                                   "j": {"command": ["e"]}, "j 10": {"command": ["e", "f"]}, "J 1": {"command": ["g"]}}})
            exp = dict(DEF, **opts)
            if isinstance(exp["command"], str):
                exp["command"] = shlex.split(exp["command"])
            exp["concurrency_groups"] = sorted(exp["concurrency_groups"])
            s = exp["schedule"]
            z = zoneinfo.ZoneInfo(exp["schedule_timezone"]) if exp["schedule_timezone"] else UTC
            for names, args in ((["A", "J 1", "j", "j 1", "j 10", "zz"], []), (["j 1"], ["--job", "j 1"]), (["j"], ["--job", "j"]), (["j 10"], ["--job", "j 10", "--job", "1"]), (["A", "zz"], ["--job", "zz", "--job", "A", "--job", "nope"]), ([], ["--job", "nope"])):
                outs = {}
                for fmt in ("json", "yaml", "tabular", "pretty"):
                    r = cli.info(cd, "job", "list", "--format", fmt, *args)
                    rec.step()
                    if r.rc != 0:
                        rec.bad("job list %s" % fmt, "job list --format %s of %r fails: %r" % (fmt, opts, r))
                        return
                    outs[fmt] = r.out
                rec.state(opts, names)
                try:
                    a, b = json.loads(outs["json"]), yaml.safe_load(outs["yaml"])
                    tab = {l.split("\t")[0]: l.split("\t")[1:] for l in outs["tabular"].splitlines()}
                    pre = {x["Job Name"]: x for x in parse_pretty(outs["pretty"])}
                except Exception as e:
                    rec.bad("job list", "job list of %r: unexpected output (%r): %r" % (opts, e, outs))
                    return
                err = None
                if a != b:
                    err = "JSON shows %r, YAML %r" % (a, b)
                elif sorted(a) != names or sorted(tab) != names or sorted(pre) != names or len(outs["tabular"].splitlines()) != len(names):
                    err = "shows jobs %r, %r, %r, expected %r" % (sorted(a), sorted(tab), sorted(pre), names)
                for n in names:
                    g = a[n]
                    if n == "j 1":
                        for k, v in exp.items():
                            if g.get(k) != v:
                                err = "%s is %r, expected %r" % (k, g.get(k), v)
                        nx = moment(g["next_scheduled_run"])
                        if s is None or "UNTIL" in s:
                            if nx is not None:
                                err = "next run is %s without one being scheduled" % nx
                        else:
                            mi, h = [int(x) for x in s.split()[:2]]
                            local = nx.astimezone(z)
                            if (local.hour, local.minute) != (h, mi) or not now < nx <= now + datetime.timedelta(days=1, minutes=1) or nx.utcoffset() != local.utcoffset():
                                err = "next run is %s for %s in %s" % (nx, s, z)
                    row = [g["schedule"] or "", " ".join(shlex.quote(x) for x in g["command"]), g["next_scheduled_run"] or ""]
                    if tab[n] != row:
                        err = "tabular shows %r, expected %r" % (tab[n], row)
                    if [pre[n]["Schedule"], pre[n]["Command"], pre[n]["Next Scheduled Run"]] != row:
                        err = "pretty shows %r, expected %r" % (pre[n], row)
                if err:
                    rec.bad("job list", "job list %s of %r: %s" % (args, opts, err))
                    return
                rec.trace()
    finally:
        vos.CLOCK = None
    rec.sample(options=opts, listed=row)


def i01_race(unit, rec):
    """the daemon completes (or starts) a run between two statements of the command"""
    cmd, combo, event = unit
    k = 0
    while True:
        runs = [run_(i, j, **dict(KINDS[kk][1])) for i, (j, kk) in enumerate(combo)]
        cd, var = setup()
        record(cd, runs)
        for r in runs:
            cli.write(os.path.join(var, "runs", r["job"], r["id"], "output.txt"), "out " + r["id"])
        c = dsari.config.get_config(cd)
        w = dsari.database.get_database(c)
        w.db_conn.execute("PRAGMA busy_timeout=0")
        subject = runs[0]
        new = run_(4, "a", False)
        fired, n = [], [0]

        def look(what):
            if n[0] == k and not fired:
                try:
                    if event == "finish":
                        put(c, w, dict(subject, stop=t(50), code=7, rdata={"z": 1}), "finish")
                    else:
                        put(c, w, new, "start")
                    fired.append(what)
                except Exception as e:      # the reader holds the database here; the daemon would wait
                    w.db_conn.rollback()
                    n[0] -= 1
                    if "locked" not in str(e):
                        raise
            n[0] += 1
        vos.CLOCK = NOW
        standins.observer = look
        fmt = None
        try:
            if cmd == "output":
                r = cli.info(cd, "run", "output", subject["id"])
            else:
                fmt = cmd
                r = cli.info(cd, "run", "list", "--format", fmt)
        finally:
            standins.observer = None
            vos.CLOCK = None
            w.db_conn.close()
        rec.step()
        rec.state(unit, k)
        if not fired:
            break
        what = "run %s %s while the daemon %s a run (at %s)" % ("output" if cmd == "output" else "list --format", cmd, "completes" if event == "finish" else "starts", fired[0])
        if cmd == "output":
            if r.rc != 0 or r.out != "out " + subject["id"]:
                rec.bad("race output", "%s: %r %r" % (what, r, r.out))
                return
        else:
            ids = re.findall(r"0{8}-0000-0000-0000-0000000000[0-9a-f]{2}", r.out)
            must = [x["id"] for x in runs]
            if r.rc != 0 or sorted(i for i in ids if i != new["id"]) != sorted(must) or ids.count(new["id"]) > 1:
                rec.bad("race list %s" % fmt, "%s: shows %r, expected %r (rc %d %r)" % (what, ids, must, r.rc, r.exc))
                return
        rec.trace()
        k += 1
    rec.count("race_points", k)


TAILED = [("a", 0, "x"), ("gone", 4, "x"), ("a", 1, "x"), ("b 1", 0, None), ("a", 0, "")]


def tail_units():
    for n in range(0, 4):
        for combo in itertools.product(TAILED, repeat=n):
            for sel in [()] + [(i,) for i in range(n + 1)] + list(itertools.combinations(range(n), 2)):
                yield ("tail", (combo, sel))


def i01(c):
    th = c.tier == "thorough"
    standins.hook_sqlite()
    kinds = list(itertools.product(JOBS, range(len(KINDS))))
    combos = [x for n in range(0, 3) for x in itertools.product(kinds, repeat=n)]
    if th:
        combos += [x for x in itertools.product(kinds, repeat=3) if x[0] <= x[1] <= x[2]]
    units = []
    for i in range(0, len(combos), 6):
        units.append(("runs", ("UTC" if (i // 6) % 2 else "America/New_York", combos[i:i + 6], 0)))
    tied = [x for x in combos if len(x) > 1 and (th or x[0][1] <= x[1][1])]
    for ties in (1, 2) if th else (1,):
        for i in range(0, len(tied), 6):
            units.append(("runs", ("UTC", tied[i:i + 6], ties)))
    opts = []
    for n in range(0, 4 if th else 3):
        for ks in itertools.combinations(sorted(OPTS), n):
            for vs in itertools.product(*[OPTS[k] for k in ks]):
                opts.append(dict(zip(ks, vs)))
    for i in range(0, len(opts), 12):
        units.append(("jobs", opts[i:i + 12]))
    for cmd in ("json", "yaml", "tabular", "pretty", "output"):
        for combo in ([("a", 0)], [("gone", 4), ("a", 1)], [("b 1", 0), ("a", 0)]):
            for ev in ("finish", "start"):
                units.append(("race", (cmd, combo, ev)))
    units += tail_units()
    fn = {"tail": i02_tail, "runs": i01_runs, "jobs": i01_jobs, "race": i01_race}
    tot = sweep.sweep(units, lambda u, r: fn[u[0]](u[1], r), c.wall(150, 3000))
    return sweep.finish(c, tot, "every table of up to %d runs over 3 jobs and 5 kinds, every filter, every format; every job with up to %d options; "
                        "the daemon completing or starting a run between any two database statements of the command" % (3 if th else 2, 3 if th else 2),
                        ["a terminal (pager, colours) is not attached"], units=len(units))


# ------------------------------------------------------------------------------------------------ I02
ATOMS = [b"a", b"\n", b"\r", b"\xff", b"\xc3", b"\xa9", b"\x00", b"\xe2\x82\xac", b"\xf0\x9f\x98", b"\x1b[0m", b"<", b"\xef\xbb\xbf", b"\xed\xa0\x80"]
FORMS = ["plain", "gz", "xz", "gz2"]


def store(path, data, form):
    for e in ("", ".gz", ".xz"):
        if os.path.exists(path + e):
            os.remove(path + e)
    if form == "plain":
        cli.write(path, data)
    elif form == "gz":
        cli.write(path + ".gz", gzip.compress(data, 1))
    elif form == "gz2":     # two members, as left by appending
        cli.write(path + ".gz", gzip.compress(data[:len(data) // 2], 1) + gzip.compress(data[len(data) // 2:], 1))
    elif form == "xz":
        cli.write(path + ".xz", lzma.compress(data, preset=0))


def text(data):
    return data.decode("utf-8", "replace")


def i02_content(unit, rec):
    job, running, contents = unit
    cd, var = setup()
    r = run_(0, job, not running)
    record(cd, [r, run_(1, "a", True), run_(2, "a", False)])
    path = os.path.join(var, "runs", job, r["id"], "output.txt")
    cli.write(os.path.join(var, "runs", "a", run_(1, "a", True)["id"], "output.txt"), "another run")
    for data in contents:
        for form in FORMS:
            store(path, data, form)
            x = cli.info(cd, "run", "output", r["id"])
            rec.step()
            rec.state(job, running, data, form)
            if x.rc != 0 or x.out != text(data):
                rec.bad("output %s" % form, "run output of a %s run of %s that wrote %.80r (%s) prints %.200r (%r)" % (
                    "running" if running else "completed", job, data, form, x.out, x))
                return
            rec.trace()
    rec.sample(job=job, running=running, data=repr(data)[:60], printed=x.out[:60])


def i02_missing(unit, rec):
    job, running, what = unit
    cd, var = setup()
    r = run_(0, job, not running)
    record(cd, [r])
    d = os.path.join(var, "runs", job, r["id"])
    if what != "no directory":
        os.makedirs(d)
    if what.startswith("directory"):
        os.makedirs(os.path.join(d, "output.txt" + what[9:]))
    rec.state(unit)
    x = cli.info(cd, "run", "output", r["id"])
    rec.step()
    rec.trace()
    if x.rc != 0 or x.out != "":
        rec.bad("missing output", "run output of a run of %s with %s gives %r %r" % (job, what, x, x.out))
    for i in ("nope", "", r["id"][:-1], r["id"] + "x", "%", "../" + r["id"], r["id"].replace("-", "")):
        x = cli.info(cd, "run", "output", i)
        rec.step()
        if x.rc == 0 or x.out or x.kind == "crash":
            rec.bad("unknown run", "run output %r gives %r %r" % (i, x, x.out))


def i02_compress(unit, rec):
    """the output is compressed between any two source lines of the command"""
    form, running = unit
    data = "caf\u00e9 \u20ac\n".encode() * 3
    k = 0
    while True:
        cd, var = setup()
        r = run_(0, "a", not running)
        record(cd, [r])
        path = os.path.join(var, "runs", "a", r["id"], "output.txt")
        store(path, data, "plain")
        fired, n = [], [0]

        def act():
            if form == "gz":
                cli.write(path + ".gz", gzip.compress(data, 1))
            else:
                cli.write(path + ".xz", lzma.compress(data, preset=0))
            os.remove(path)

        def trace(frame, ev, arg):
            fn = frame.f_code.co_filename
            if not fn.startswith(os.path.dirname(dsari.__file__)):
                return None
            if ev == "line":
                if n[0] == k and not fired:
                    fired.append("%s:%d" % (os.path.basename(fn), frame.f_lineno))
                    act()
                n[0] += 1
            return trace
        sys.settrace(trace)
        try:
            x = cli.info(cd, "run", "output", r["id"])
        finally:
            sys.settrace(None)
        rec.step()
        rec.state(unit, k)
        if not fired:
            break
        if x.rc != 0 or x.out != text(data):
            rec.bad("compress", "run output while the output is compressed with %s (at %s) gives %r %r" % (form, fired[0], x, x.out))
            return
        rec.trace()
        k += 1
    rec.count("compress_points", k)


class Stop(BaseException):
    pass


def i02_tail(unit, rec):
    """run tail follows exactly the output of the running runs asked for"""
    combo, sel = unit
    cd, var = setup()
    runs = [run_(i, j, **dict(KINDS[k][1])) for i, (j, k, out) in enumerate(combo)]
    record(cd, runs)
    want = []
    args = [runs[i]["id"] if i < len(runs) else "nope" for i in sel]
    late = run_(7, "b 1", False)
    if not sel or max(sel) == len(runs):
        args = args and args + [late["id"]]
    for r, (j, k, out) in zip(runs, combo):
        p = os.path.join(var, "runs", r["job"], r["id"], "output.txt")
        if out is not None:
            cli.write(p, out)
        if out is not None and r["stop"] is None and (not args or r["id"] in args):
            want.append(p)
    calls = []

    def execvp(f, a):
        calls.append(list(a))
        raise Stop()

    def sleep(x):
        """nothing to follow yet; another run starts"""
        if calls or started:
            raise Stop()
        started.append(late)
        record(cd, [late])
        p = os.path.join(var, "runs", late["job"], late["id"], "output.txt")
        cli.write(p, "x")
        if (not args or late["id"] in args):
            want.append(p)
    started = []
    old = os.execvp, time.sleep
    os.execvp, time.sleep = execvp, sleep
    try:
        cli.info(cd, "run", "tail", *args)
    except Stop:
        pass
    finally:
        os.execvp, time.sleep = old
    rec.step()
    rec.state(unit)
    rec.trace()
    files = [x for c in calls for x in c[1:] if not x.startswith("-")]
    if sorted(files) != sorted(want) or (calls and calls[0][0] != "tail"):
        rec.bad("tail", "run tail %r of %r follows %r, expected %r" % (args, combo, calls, want))


def i02(c):
    th = c.tier == "thorough"
    standins.hook_sqlite()
    contents = [b""] + [b"".join(x) for n in range(1, 4 if th else 3) for x in itertools.product(ATOMS, repeat=n)]
    big = [("\u20ac" * 30000).encode(), b"x" + ("\u20ac" * 30000).encode(), b"xy" + ("\U0001f600" * 40000).encode() + b"\xf0\x9f", b"line\n" * 50000, bytes(range(256)) * 300]
    units = []
    for job in ("a", "b 1", "gone"):
        for running in (False, True):
            for i in range(0, len(contents), 40):
                if th or (i // 40 + running) % 2 == 0 or job == "a":
                    units.append(("content", (job, running, contents[i:i + 40])))
            units.append(("content", (job, running, big)))
            for what in ("no directory", "no file", "directory", "directory.gz", "directory.xz"):
                units.append(("missing", (job, running, what)))
    for form in ("gz", "xz"):
        for running in (False, True):
            units.append(("compress", (form, running)))
    units += tail_units()
    for combo in ([("a", 0)], [("gone", 4), ("a", 1)], [("b 1", 0), ("a", 0)]):
        units.append(("race", ("output", combo, "finish")))
    fn = {"race": i01_race, "content": i02_content, "missing": i02_missing, "compress": i02_compress, "tail": i02_tail}
    tot = sweep.sweep(units, lambda u, r: fn[u[0]](u[1], r), c.wall(150, 3000))
    return sweep.finish(c, tot, "every concatenation of up to %d of %d byte strings, stored plain, as gzip (one or two members) and as xz, of running and completed runs "
                        "of configured and removed jobs; the file being compressed between any two source lines" % (3 if th else 2, len(ATOMS)),
                        ["standard output is UTF-8"], units=len(units))


def run(c):
    return {"I01": i01, "I02": i02}[c.prop](c)


def replay(prop, path):
    with open(path) as f:
        for v in json.load(f)["violations"]:
            print(v["what"])
    return 1
