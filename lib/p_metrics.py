"""M01, M02: the Prometheus exporter against the recorded runs.

M01: a state is a run table; the exported text (dsari-prometheus-exporter --dump, through main()) is parsed and every
sample compared with an independent computation.  M02: a state is (run table, configuration, clock, what may still be
cached); transitions are requests, recordings, clock advances and reloads, in all orders up to a depth, on the WSGI
application main() serves; SIGHUP is raised at every source line of a request.
"""
import os, sys, json, itertools, datetime, time, uuid, shutil, logging, math, signal, subprocess, re
from fractions import Fraction

import vos, sweep, cli, standins
import dsari
import dsari.config
import dsari.database
import dsari.prometheus_exporter as exporter

UTC = datetime.timezone.utc
HERE = os.path.dirname(os.path.abspath(dsari.__file__))
T0 = 1600000000 * 10 ** 6


def at(us):
    return datetime.datetime.fromtimestamp(0, UTC) + datetime.timedelta(microseconds=us)


# ------------------------------------------------------------------------------------------- the exposition format
NAME = re.compile(r"[a-zA-Z_:][a-zA-Z0-9_:]*\Z")
LABEL = re.compile(r'([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\\n]|\\\\|\\"|\\n)*)"(,|\Z)')
TYPES = ("counter", "gauge", "summary", "histogram", "untyped")


class Malformed(Exception):
    pass


def parse(text):
    """{(name, labels): value} and {name: type}; raises Malformed"""
    if not text.endswith("\n"):
        raise Malformed("does not end with a line end")
    samples, types, helps, done, family = {}, {}, set(), set(), None

    def enter(name, line):
        nonlocal family
        base = name
        for suf in ("_sum", "_count", "_bucket"):
            if name.endswith(suf) and types.get(name[:-len(suf)]) in ("summary", "histogram"):
                base = name[:-len(suf)]
        if base != family:
            if base in done:
                raise Malformed("%s is not in one block: %r" % (base, line))
            if family is not None:
                done.add(family)
            family = base
    for line in text[:-1].split("\n"):
        if line.startswith("# HELP ") or line.startswith("# TYPE "):
            _, what, name, rest = line.split(" ", 3)
            if not NAME.match(name):
                raise Malformed("bad name: %r" % line)
            if name in (helps if what == "HELP" else types):
                raise Malformed("declared twice: %r" % line)
            enter(name, line)
            if any(n == name for n, _ in samples):
                raise Malformed("declared after its samples: %r" % line)
            if what == "HELP":
                helps.add(name)
            else:
                if rest not in TYPES:
                    raise Malformed("bad type: %r" % line)
                types[name] = rest
            continue
        if line.startswith("#"):
            continue
        m = re.match(r"([^\s{]+)(?:\{(.*)\})? (\S+)\Z", line)
        if not m or not NAME.match(m.group(1)):
            raise Malformed("bad line: %r" % line)
        labels, rest = {}, m.group(2) or ""
        while rest:
            l = LABEL.match(rest)
            if not l or l.group(1) in labels:
                raise Malformed("bad labels: %r" % line)
            labels[l.group(1)] = re.sub(r"\\(.)", lambda x: "\n" if x.group(1) == "n" else x.group(1), l.group(2))
            rest = rest[l.end():]
        try:
            v = float(m.group(3))
        except ValueError:
            raise Malformed("bad value: %r" % line)
        k = (m.group(1), tuple(sorted(labels.items())))
        if k in samples:
            raise Malformed("sampled twice: %r" % line)
        enter(m.group(1), line)
        if family not in types:
            raise Malformed("undeclared: %r" % line)
        samples[k] = v
    return samples, types


# ----------------------------------------------------------------------------------------------- what is expected
def us(x):
    return (x - at(0)) // datetime.timedelta(microseconds=1)


def quantile(xs, q):
    """linear interpolation between the closest ranks"""
    xs, q = sorted(xs), Fraction(q)
    k = (len(xs) - 1) * q
    i = int(k)
    lo, hi = xs[i], xs[min(i + 1, len(xs) - 1)]
    return lo + (hi - lo) * (k - i)


def expected_done(job, runs, quantiles):
    """finished-run samples of one job"""
    mine = [r for r in runs if r["job"] == job and r["stop"] is not None]
    j = ("job_name", job)
    e = {("dsari_run_count", (j,)): len(mine), ("dsari_run_success_count", (j,)): sum(r["code"] == 0 for r in mine),
         ("dsari_run_failure_count", (j,)): sum(r["code"] != 0 for r in mine)}
    if mine:
        for name, a, b in (("duration", "start", "stop"), ("latency", "sched", "start")):
            d = [Fraction(r[b] - r[a], 10 ** 6) for r in mine]
            e[("dsari_run_%s_seconds_sum" % name, (j,))] = sum(d)
            e[("dsari_run_%s_seconds_count" % name, (j,))] = len(d)
            for q in quantiles:
                e[("dsari_run_%s_seconds" % name, (j, ("quantile", float(q))))] = quantile(d, q)
        top = max(r["stop"] for r in mine)
        last = [r for r in mine if r["stop"] == top]
        for name, f in (("exit_code", "code"), ("schedule_time", "sched"), ("start_time", "start"), ("stop_time", "stop")):
            e[("dsari_last_run_" + name, (j,))] = [Fraction(r[f], 1 if f == "code" else 10 ** 6) for r in last]
    return e


def expected_running(job, runs):
    e = {}
    for r in runs:
        if r["job"] == job and r["stop"] is None:
            k = (("job_name", job), ("run_id", r["id"]))
            e[("dsari_running_run_schedule_time", k)] = Fraction(r["sched"], 10 ** 6)
            e[("dsari_running_run_start_time", k)] = Fraction(r["start"], 10 ** 6)
    return e


def key(k):
    return (k[0], tuple((n, float(v) if n == "quantile" else v) for n, v in k[1]))


def near(got, want):
    return any(abs(Fraction(got) - w) <= max(Fraction(1, 10 ** 6), abs(w) / 10 ** 9) for w in (want if isinstance(want, list) else [want]))


OTHER = {"dsari_time", "dsari_exporter_collect_seconds", "dsari_version_info"}


def split(samples):
    """finished-run part per job, running part"""
    done, running = {}, {}
    for k, v in samples.items():
        k = key(k)
        if k[0] in OTHER:
            continue
        if k[0].startswith("dsari_running_"):
            running[k] = v
        else:
            done[k] = v
    return done, running


def differ(got, want):
    if set(got) != set(want):
        return "exports %r which is not expected" % sorted(set(got) - set(want), key=repr)[:3] if set(got) - set(want) else "does not export %r" % sorted(set(want) - set(got), key=repr)[:3]
    for k in got:
        if not near(got[k], want[k]):
            return "exports %s %s = %r, expected %s" % (k[0], k[1], got[k], [float(x) for x in want[k]] if isinstance(want[k], list) else float(want[k]))


WANT_TYPES = {"dsari_run_count": "counter", "dsari_run_success_count": "counter", "dsari_run_failure_count": "counter", "dsari_run_duration_seconds": "summary",
              "dsari_run_latency_seconds": "summary"}


# -------------------------------------------------------------------------------------------------------- worlds
class World:
    def __init__(self, jobs=("a", "b 1", "z"), db="sqlite3"):
        os.chdir(cli.scratch())
        self.cd, self.var, self.db = cli.fresh("etc"), cli.fresh("var"), db
        self.base = {"data_dir": self.var}
        if db != "sqlite3":
            standins.drop(db, os.path.join(cli.scratch(), "server"))
            self.base["database"] = standins.settings(db, os.path.join(cli.scratch(), "server"))
        self.configure(jobs)
        self.conn = dsari.database.get_database(dsari.config.get_config(self.cd))
        self.runs = []

    def configure(self, jobs):
        self.jobs = list(jobs)
        cli.write(os.path.join(self.cd, "dsari.json"), json.dumps(dict(self.base, jobs={j: {"command": ["x"]} for j in jobs})))

    def run(self, job, sched, start, stop=None, code=0):
        k = len(self.runs)
        r = {"job": job, "id": str(uuid.UUID(int=(1000 - k) * 7919)), "sched": sched, "start": start, "stop": stop, "code": code}
        self.put(r, False)
        if stop is not None:
            self.put(r, True)
        self.runs.append(r)
        return r

    def put(self, r, done):
        x = dsari.Run(dsari.Job(r["job"]), id=r["id"])
        x.schedule_time, x.start_time, x.trigger_type, x.trigger_data, x.run_data = at(r["sched"]), at(r["start"]), "schedule", {}, {}
        if done:
            x.stop_time, x.exit_code = at(r["stop"]), r["code"]
            self.conn.insert_run(x)
        else:
            self.conn.insert_running_run(x)

    def close(self):
        c = getattr(self.conn, "db_conn", None)
        if c is not None:
            c.close()


def quiet():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)


def dump(w, *args):
    return cli.call(exporter.main, ["--config-dir", w.cd, "--dump"] + list(args), "dsari-prometheus-exporter")


def check_text(text, w, quantiles, running=True):
    """None, or what is wrong"""
    try:
        samples, types = parse(text)
    except Malformed as e:
        return "malformed: %s" % e
    done, run_ = split(samples)
    want = {}
    for j in w.jobs:
        want.update(expected_done(j, w.runs, quantiles))
    d = differ(done, want)
    if d:
        return d
    want = {}
    for j in w.jobs:
        want.update(expected_running(j, w.runs))
    d = differ(run_, want if running else {})
    if d:
        return d
    for k, t in WANT_TYPES.items():
        if types.get(k, t) != t:
            return "%s is declared as %s" % (k, types[k])
    if not near(samples.get(("dsari_time", ()), -1), Fraction(vos.CLOCK, 10 ** 6)):
        return "dsari_time is %r" % samples.get(("dsari_time", ()))


# ---------------------------------------------------------------------------------------------------------- M01
# (job, exit code or None if running, latency, duration, clock set back)
KINDS = [("a", 0, 0, 5 * 10 ** 6, False), ("a", 3, 250000, 0, False), ("a", 137, 10 ** 9, 61000001, False), ("a", 0, 1, 7 * 10 ** 6, True), ("a", 1, 3 * 10 ** 6, 2 * 10 ** 6, True),
         ("b 1", 0, 0, 10 ** 9 + 1, False), ("b 1", 255, 1500000, 3, False), ("a", None, 250000, None, False), ("b 1", None, 0, None, True), ("gone", 0, 1, 1, False), ("gone", None, 1, None, False)]
QSETS = [("0.01,0.1,0.5,0.9,0.99", True), ("0.5", False), ("0,1", False), ("0.25,0.75,0.333", False), ("1,0.5,0", False)]


def add(w, i, kind):
    job, code, lat, dur, back = kind
    sched = T0 + i * 100 * 10 ** 6 + 123456 - (1000 * 10 ** 6 if back else 0)
    w.run(job, sched, sched + lat, None if code is None else sched + lat + dur, code)


def m01_seq(unit, rec):
    db, tz, combos = unit
    os.environ["TZ"] = tz
    time.tzset()
    try:
        for combo in combos:
            w = World(db=db)
            for i, k in enumerate(combo):
                add(w, i, KINDS[k])
            if db == "mongodb":
                for r in w.runs:        # milliseconds
                    for f in ("sched", "start", "stop"):
                        if r[f] is not None:
                            r[f] = r[f] // 1000 * 1000
            vos.CLOCK = T0 + 5000 * 10 ** 6 + 654321
            rec.state(db, tz, combo)
            for qs, default in QSETS:
                for running in ((True, False) if default else (True,)):
                    x = dump(w, *(([] if default else ["--quantiles", qs]) + ([] if running else ["--no-running"])))
                    rec.step()
                    err = "fails: %r" % x if x.rc != 0 else check_text(x.out, w, qs.split(","), running)
                    if err:
                        rec.bad("metrics", "metrics (quantiles %s%s) of runs %s on %s: %s" % (qs, "" if running else ", no running", [KINDS[k] for k in combo], db, err))
                        return
            rec.trace()
            vos.CLOCK = None
            w.close()
    finally:
        os.environ["TZ"] = "UTC"
        time.tzset()
        vos.CLOCK = None
        quiet()
    rec.sample(runs=[KINDS[k] for k in combo], metrics=x.out[:300])


def m01_many(unit, rec):
    n, order, job = unit
    w = World(jobs=("a", job) if job != "a" else ("a",))
    durs = [(i * i * 37 % 1009) * 10 ** 5 + i for i in range(n)] if order == "mixed" else [i * 10 ** 6 for i in range(n)] if order == "up" else [(n - i) * 10 ** 6 for i in range(n)] if order == "down" \
        else [10 ** 6] * n
    for i, d in enumerate(durs):
        s = T0 + i * 10 ** 6
        w.run(job, s, s + d // 3, s + d // 3 + d, (0, 1, 0, 2)[i % 4])
    vos.CLOCK = T0 + 10 ** 10
    rec.state(unit)
    qs = "0.01,0.1,0.5,0.9,0.99,0.333,0,1,0.75,0.001,0.999"
    x = dump(w, "--quantiles", qs)
    rec.step()
    err = "fails: %r" % x if x.rc != 0 else check_text(x.out, w, qs.split(","))
    if err:
        rec.bad("metrics", "metrics of %d runs of %r (durations %s): %s" % (n, job, order, err))
    rec.trace()
    w.close()
    quiet()


def script(args, env, home):
    py = sys.executable
    e = {"PATH": "/usr/bin:/bin", "HOME": home, "DSARI_HOME": home, "PYTHONPATH": os.path.dirname(HERE), "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "LANG": "C.UTF-8"}
    e.update(env)
    return subprocess.run([py] + args, env=e, capture_output=True, text=True, timeout=60)


def m01_script(unit, rec):
    """the installed program and the WSGI application, in a process of their own, with and without a usable default"""
    how, usable = unit
    w = World()
    add(w, 0, KINDS[1])
    add(w, 1, KINDS[7])
    home = cli.fresh("home")
    if not usable:
        shutil.rmtree(home)
        cli.write(home, "")
    rec.state(unit)
    if how == "script":
        x = script(["-c", "import sys; from dsari.prometheus_exporter import main; sys.exit(main())", "--config-dir", w.cd, "--dump"], {}, home)
    elif how == "module":
        x = script(["-m", "dsari.prometheus_exporter", "--config-dir", w.cd, "--dump"], {}, home)
    else:
        x = script(["-c", "import sys\nfrom dsari.prometheus_exporter import wsgi_application as w\nst = []\n"
                    "b = b''.join(w({'PATH_INFO': '/x', 'REQUEST_METHOD': 'GET'}, lambda s, h: st.append(s)))\n"
                    "assert st == ['200 OK'], st\nsys.stdout.write(b.decode())"], {"WSGI_ARGS": json.dumps(["--config-dir", w.cd, "--metrics-path", "/x"])}, home)
    rec.step()
    rec.trace()
    if not usable:
        os.remove(home)
    if x.returncode != 0:
        rec.bad("script", "%s with %s default directories fails: %s" % (how, "usable" if usable else "unusable", x.stderr[-400:]))
        return
    vos.CLOCK = int(parse(x.stdout)[0].get(("dsari_time", ()), 0) * 10 ** 6)
    err = check_text(x.stdout, w, QSETS[0][0].split(","))
    if err:
        rec.bad("script", "%s: %s" % (how, err))
    vos.CLOCK = None


def m01(c):
    th = c.tier == "thorough"
    units = []
    combos = [x for n in range(0, 3) for x in itertools.product(range(len(KINDS)), repeat=n)]
    c3 = list(itertools.product(range(len(KINDS)), repeat=3))
    plain = combos + (c3 if th else [x for x in itertools.product(range(7), repeat=3)])
    if th:
        plain += list(itertools.product(range(5), repeat=4))
    for i in range(0, len(plain), 25):
        units.append(("seq", ("sqlite3", "UTC", plain[i:i + 25])))
    for db, tz in (("sqlite3", "America/New_York"), ("mysql", "UTC"), ("mysql", "Asia/Kolkata"), ("postgresql", "America/New_York"), ("mongodb", "UTC")):
        l = combos + (c3 if th else [])
        for i in range(0, len(l), 25):
            units.append(("seq", (db, tz, l[i:i + 25])))
    for n in (list(range(1, 40)) + [100, 101, 102] if th else [1, 2, 3, 4, 5, 9, 10, 11, 12, 100, 101, 102]):
        for order in ("mixed", "up", "down", "same"):
            units.append(("many", (n, order, "a")))
    for job in ("b 1", "x:y", " z", "@", "A" * 64, "le", "quantile", "a+b-c_d.e"):
        units.append(("many", (3, "mixed", job)))
    for how in ("script", "module", "wsgi"):
        for usable in (True, False):
            units.append(("script", (how, usable)))
    fn = {"seq": m01_seq, "many": m01_many, "script": m01_script}
    tot = sweep.sweep(units, lambda u, r: fn[u[0]](u[1], r), c.wall(200, 3400))
    return sweep.finish(c, tot, "every sequence of up to 2 runs out of %d kinds (3 out of 7; thorough: 3 and 4), on every backend and in several zones, with several quantile sets; "
                        "histories up to 102 runs with all quantile positions; job names; the program, module and WSGI entry points" % len(KINDS),
                        ["quantiles are between 0 and 1, given once each"], units=len(units))


# ---------------------------------------------------------------------------------------------------------- M02
class Served:
    """the application main() would serve"""

    def __init__(self, w, args):
        self.app = None
        import wsgiref.simple_server as ss
        outer = self

        class Srv:
            def __init__(self, app):
                self.app = app

            def set_app(self, app):
                self.app = app

            def serve_forever(self, *a):
                outer.app = self.app

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def __getattr__(self, n):
                return lambda *a, **k: None

        def make_server(host, port, app, **k):
            outer.where = (host, port)
            return Srv(app)
        old = ss.make_server
        ss.make_server = make_server
        try:
            r = cli.call(exporter.main, ["--config-dir", w.cd] + list(args), "dsari-prometheus-exporter")
        finally:
            ss.make_server = old
        quiet()
        if self.app is None:
            raise RuntimeError("main() served nothing: %r" % r)

    def get(self, path="/metrics", query="", method="GET"):
        got = []
        env = {"PATH_INFO": path, "QUERY_STRING": query, "REQUEST_METHOD": method, "SCRIPT_NAME": "", "SERVER_NAME": "x", "SERVER_PORT": "80", "SERVER_PROTOCOL": "HTTP/1.0"}
        if query is None:
            del env["QUERY_STRING"]

        def start(status, headers, exc_info=None):
            got.append((status, headers))
        err, sys.stderr = sys.stderr, open(os.devnull, "w")
        try:
            body = b"".join(self.app(env, start))
        finally:
            sys.stderr.close()
            sys.stderr = err
        if len(got) != 1:
            raise RuntimeError("start_response called %d times" % len(got))
        return got[0][0], {k.lower(): v for k, v in got[0][1]}, body


def hup():
    signal.raise_signal(signal.SIGHUP)


class Model:
    """which finished-run tables may be shown"""

    def __init__(self, w, cache):
        self.w, self.cache, self.hist = w, cache * 10 ** 6, []
        self.configs = [list(w.jobs)]           # the configurations that may be in force
        self.pending = None                     # what a reload replaced, until a request had the chance to act on it
        self.note()

    def note(self):
        """the run table as of now"""
        self.hist.append((vos.CLOCK, [dict(r) for r in self.w.runs]))

    def tables(self):
        """the tables in force at some instant not longer ago than the cache time and not before the last reload"""
        out = []
        for i, (t, runs) in enumerate(self.hist):
            end = self.hist[i + 1][0] if i + 1 < len(self.hist) else None
            if end is None or end >= vos.CLOCK - self.cache:
                out.append(runs)
        return out

    def spoilt(self):
        """an invalid configuration may have come before the program got to a pending reload"""
        if self.pending:
            self.configs = self.pending[0] + self.configs
            self.hist = self.pending[1] + self.hist

    def reload(self):
        if self.pending is None:
            self.pending = (list(self.configs), list(self.hist))
        self.hist = self.hist[-1:]
        self.hist = [(vos.CLOCK, self.hist[0][1])]
        self.configs = [list(self.w.jobs)]

    def check(self, resp, running=None):
        self.pending = None
        status, headers, body = resp
        if not status.startswith("200"):
            return "answered %s" % status
        if headers.get("content-length") != str(len(body)):
            return "declares length %s, sends %d" % (headers.get("content-length"), len(body))
        if not headers.get("content-type", "").startswith("text/plain"):
            return "sends %s" % headers.get("content-type")
        try:
            samples, types = parse(body.decode("utf-8"))
        except (Malformed, UnicodeDecodeError) as e:
            return "malformed: %s" % e
        done, run_ = split(samples)
        errs = []
        for jobs in self.configs:
            for runs in self.tables():
                want = {}
                for j in jobs:
                    want.update(expected_done(j, runs, QSETS[0][0].split(",")))
                e = differ(done, want)
                if e is None:
                    break
                errs.append(e)
            else:
                continue
            break
        else:
            return "finished runs: %s (%d acceptable states)" % (errs[-1], len(errs))
        errs = []
        for jobs in self.configs:
            for runs in running or [self.w.runs]:
                want = {}
                for j in jobs:
                    want.update(expected_running(j, runs))
                e = differ(run_, want)
                if e is None:
                    return None
                errs.append(e)
        return "running runs: %s" % errs[-1]


CACHE = 120
OPSM = {"q": "request", "f": "a run of a is recorded", "b": "a run of b 1 is recorded", "s": "a run of a starts", "e": "the running run finishes", "1": "119.5 s pass", "2": "0.4 s pass", "3": "120.1 s pass",
        "h": "SIGHUP", "n": "SIGHUP with job n added", "r": "SIGHUP with job a removed", "x": "SIGHUP with an invalid configuration", "X": "SIGHUP with a broken file", "4": "another path is requested"}


def m02_seq(unit, rec):
    cache, db, prefix, alphabet, depth = unit
    try:
        for tail in itertools.product(alphabet, repeat=depth):
            seq = tuple(prefix) + tail
            if "q" not in seq:
                continue
            m02_one(cache, db, seq + ("q",), rec)
            if rec.violations:
                return
    finally:
        vos.CLOCK = None
    rec.sample(sequence=", ".join(OPSM[o] for o in seq))


def m02_one(cache, db, seq, rec):
    vos.CLOCK = T0
    w = World(jobs=("a", "b 1"), db=db)
    w.run("a", T0 - 20 * 10 ** 6, T0 - 19 * 10 ** 6, T0 - 10 ** 6, 1)
    s = Served(w, [] if cache == 120 else ["--job-cache-time", str(cache)])
    m = Model(w, cache)
    good = open(os.path.join(w.cd, "dsari.json")).read()
    for i, op in enumerate(seq):
        vos.CLOCK += 1000               # things take time
        rec.state(cache, db, seq[:i + 1])
        err = None
        if op == "q":
            try:
                err = m.check(s.get())
            except Exception as e:
                err = "request fails: %r" % e
            rec.step()
        elif op == "4":
            try:
                st, h, b = s.get("/other")
                if not st.startswith("404") or h.get("content-length") != str(len(b)):
                    err = "another path is answered %s %r" % (st, h)
            except Exception as e:
                err = "another path fails: %r" % e
            rec.step()
        elif op in "fb":
            w.run("a" if op == "f" else "b 1", vos.CLOCK - 3 * 10 ** 6, vos.CLOCK - 2 * 10 ** 6, vos.CLOCK, 0)
            m.note()
        elif op == "s":
            w.run("a", vos.CLOCK - 10 ** 6, vos.CLOCK)
            m.note()
        elif op == "e":
            for r in w.runs:
                if r["stop"] is None:
                    r["stop"], r["code"] = vos.CLOCK, 2
                    w.put(r, True)
                    m.note()
                    break
        elif op in "123":
            vos.CLOCK += {"1": 119500000, "2": 400000, "3": 120100000}[op]
        elif op in "hnrxX":
            if op == "n":
                w.configure(w.jobs + ["n"] if "n" not in w.jobs else w.jobs)
            elif op == "r":
                w.configure([j for j in w.jobs if j != "a"])
            elif op in "xX":
                good = open(os.path.join(w.cd, "dsari.json")).read()
                cli.write(os.path.join(w.cd, "dsari.json"), json.dumps({"data_dir": w.var, "jobs": {"a": {"schedule": 5}, "q": {"command": ["x"]}}}) if op == "x" else "{")
            try:
                hup()
            except Exception as e:
                err = "SIGHUP fails: %r" % e
            if op in "xX":
                m.spoilt()
                if err is None:
                    try:
                        err = m.check(s.get())
                    except Exception as e:
                        err = "request fails: %r" % e
                cli.write(os.path.join(w.cd, "dsari.json"), good)
            else:
                m.reload()
        if err:
            rec.bad("serving", "after %s (cache %s s, %s): %s" % (", ".join(OPSM[o] for o in seq[:i + 1]), cache, db, err))
            break
    rec.trace()
    w.close()


def m02_signal(unit, rec):
    """SIGHUP at every source line of a request, or a run completing between two statements of it"""
    kind, scen, nth = unit
    k = 0
    try:
        while True:
            vos.CLOCK = T0
            w = World(jobs=("a", "b 1"))
            w.run("a", T0 - 20 * 10 ** 6, T0 - 19 * 10 ** 6, T0 - 10 ** 6, 1)
            live = w.run("a", T0 - 9 * 10 ** 6, T0 - 8 * 10 ** 6)
            s = Served(w, [])
            m = Model(w, CACHE)
            fired, n = [], [0]
            if scen == "cached":
                s.get()
            elif scen == "reloading":
                hup()
            vos.CLOCK += 10 ** 6
            rec.state(unit, k)
            before = [dict(r) for r in w.runs]
            running = [before]
            if kind == "finish":
                w.conn.db_conn.execute("PRAGMA busy_timeout=0")

            def act(where):
                fired.append(where)
                if kind == "same":
                    hup()
                elif kind == "changed":
                    m.configs.append(["a", "b 1", "n"])
                    w.configure(["a", "b 1", "n"])
                    hup()
                elif kind == "twice":
                    hup()
                    hup()
                elif kind == "invalid":
                    cli.write(os.path.join(w.cd, "dsari.json"), "{")
                    hup()

            def trace(frame, ev, arg):
                if not frame.f_code.co_filename.startswith(HERE):
                    return None
                if ev == "line":
                    if n[0] == k and not fired:
                        act("%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                    n[0] += 1
                return trace

            def look(what):
                if n[0] == k and not fired:
                    live["stop"], live["code"] = vos.CLOCK, 0
                    try:
                        w.put(live, True)
                        fired.append(what)
                        running.append([dict(r) for r in w.runs])
                        m.note()
                    except Exception as e:
                        live["stop"], live["code"] = None, 0
                        w.conn.db_conn.rollback()
                        n[0] -= 1
                        if "locked" not in str(e):
                            raise
                n[0] += 1
            what = "%s while a request is served (%s)" % ({"same": "SIGHUP", "changed": "SIGHUP with a job added", "twice": "SIGHUP twice", "invalid": "SIGHUP with a broken configuration",
                                                           "finish": "a run completes"}[kind], scen)
            err = None
            if kind == "finish":
                standins.observer = look
            else:
                sys.settrace(trace)
            try:
                resp = s.get() if nth == 0 else s.get("/other")
            except Exception as e:
                err = "the request fails: %r" % e
            finally:
                sys.settrace(None)
                standins.observer = None
            rec.step()
            if not fired:
                break
            if err is None and nth == 0:
                err = m.check(resp, running=running)
            elif err is None and not resp[0].startswith("404"):
                err = "another path is answered %s" % resp[0]
            if err is None:
                # the next one shows the new state
                if kind == "invalid":
                    pass
                elif kind != "finish":
                    m.reload()
                for i in range(2):
                    vos.CLOCK += 10 ** 6
                    try:
                        err = err or m.check(s.get())
                    except Exception as e:
                        err = "a later request fails: %r" % e
                    rec.step()
                if kind == "invalid" and err is None:
                    w.configure(["a", "b 1", "n"])
                    hup()
                    m.reload()
                    vos.CLOCK += 10 ** 6
                    err = m.check(s.get())
            if err:
                rec.bad("signal %s" % kind, "%s at %s: %s" % (what, fired[0], err))
                return
            rec.trace()
            w.close()
            k += 1
    finally:
        vos.CLOCK = None
        sys.settrace(None)
        standins.observer = None
    rec.count("signal_points", k)


PATHS = [("/metrics", True), ("/metrics/", False), ("/", False), ("", False), ("/metricsx", False), ("/Metrics", False), ("//metrics", False), ("/metrics/../metrics", False), ("/m\u00e9", False), ("/other", False)]


def m02_paths(unit, rec):
    path, custom = unit
    vos.CLOCK = T0
    w = World()
    w.run("a", T0 - 20 * 10 ** 6, T0 - 19 * 10 ** 6, T0 - 10 ** 6, 1)
    s = Served(w, ["--metrics-path", custom] if custom else [])
    m = Model(w, CACHE)
    rec.state(unit)
    for query in ("", "a=b", "%ff=%00&&=&x", None):
        for method in ("GET", "POST"):
            try:
                st, h, b = r = s.get(path, query, method)
            except Exception as e:
                rec.bad("paths", "%s %r?%r fails: %r" % (method, path, query, e))
                return
            rec.step()
            if path == (custom or "/metrics"):
                e = m.check(r)
                if e:
                    rec.bad("paths", "%s %r?%r: %s" % (method, path, query, e))
                    return
            elif not st.startswith("404") or h.get("content-length") != str(len(b)):
                rec.bad("paths", "%s %r (metrics at %r) is answered %s %r" % (method, path, custom, st, h))
                return
    rec.trace()
    vos.CLOCK = None
    w.close()


def m02(c):
    th = c.tier == "thorough"
    standins.hook_sqlite()
    units = []
    ops = "qfbse123hnrxX4"
    core = "qfse13hnx"
    for p in ops:
        units.append(("seq", (CACHE, "sqlite3", (p,), ops, 2)))
    for p in itertools.product(core, repeat=2):
        if th:
            for q in core:
                units.append(("seq", (CACHE, "sqlite3", p + (q,), core, 2)))
        else:
            units.append(("seq", (CACHE, "sqlite3", p, "qfe13hx" if p[0] == "q" or p[1] == "q" else "qf3", 2)))
    for cache in (0, 0.5, 1000):
        for p in "qfs13h":
            units.append(("seq", (cache, "sqlite3", (p,), "qfe123h", 3 if th else 2)))
    for db in ("mysql", "postgresql", "mongodb"):
        for p in "qfsn":
            units.append(("seq", (CACHE, db, (p,), "qfbe3hn", 3 if th else 2)))
    for kind in ("same", "changed", "twice", "invalid", "finish"):
        for scen in ("first", "cached", "reloading"):
            for nth in ((0,) if kind == "finish" else (0, 1)):
                units.append(("signal", (kind, scen, nth)))
    for p, _ in PATHS:
        units.append(("paths", (p, None)))
        units.append(("paths", (p, "/other")))
    fn = {"seq": m02_seq, "signal": m02_signal, "paths": m02_paths}
    units.sort(key=lambda u: u[0] != "signal")
    tot = sweep.sweep(units, lambda u, r: fn[u[0]](u[1], r), c.wall(200, 3400), limit=600)
    return sweep.finish(c, tot, "every sequence of up to %d operations (requests, recordings, clock advances around the cache time, reloads of valid, changed and invalid configurations), several cache "
                        "times, every backend; SIGHUP at every source line of a request and a run completing between any two of its statements; paths" % (5 if th else 4),
                        ["one request at a time", "the clock is not set back"], units=len(units))


def run(c):
    signal.signal(signal.SIGHUP, signal.SIG_IGN)
    standins.install()
    return {"M01": m01, "M02": m02}[c.prop](c)


def replay(prop, path):
    with open(path) as f:
        for v in json.load(f)["violations"]:
            print(v["what"])
    return 1
