"""B03: several programs on one SQLite database, over all interleavings of their statements up to a preemption bound.

Each program is a thread running a script on the real database class; it stops before every statement, fetch, commit
and close of its connection, and before every look at or creation of a directory, and goes on when the scheduler says
so.  A statement that finds the database locked waits (as SQLite does, if the program allows it to wait at all) until
another program has moved.  Every interleaving with at most so many preemptions is executed; the results are compared
with the contents of the database that an independent connection saw after each step.
"""
import os, sys, json, shutil, sqlite3, threading, datetime, itertools

import vos, sweep, cli

UTC = datetime.timezone.utc
_connect0 = sqlite3.connect


class Stop(BaseException):
    """this execution is over"""


class Sched:
    """one execution, following a list of choices and then continuing without preemption"""

    def __init__(self, prefix, bound, after):
        self.prefix, self.bound, self.after = prefix, bound, after
        self.choices = []           # (options, taken)
        self.threads, self.cur, self.stuck = [], None, False
        self.steps = 0
        self.used = self.waited = 0
        self.trail = []

    def run(self, fns):
        for i, f in enumerate(fns):
            t = Prog(self, i, f)
            self.threads.append(t)
        for t in self.threads:
            t.th.start()
        self.done = threading.Semaphore(0)
        self.hand(self.pick(None))
        self.done.acquire()
        for t in self.threads:
            t.th.join()

    def pick(self, me):
        """who goes on; me: the thread which is asking, if it could itself"""
        ready = [t for t in self.threads if not t.over and not t.waits]
        if not ready:
            rest = [t for t in self.threads if not t.over]
            if not rest:
                return None
            # everybody waits for a lock: the first one's patience ends
            rest[0].waits, rest[0].denied = False, True
            return rest[0]
        if me is not None and me in ready:
            opts = [me] + ([t for t in ready if t is not me] if self.used < self.bound else [])
        else:
            opts = ready
            me = None
        k = len(self.choices)
        c = 0
        if len(opts) > 1:
            if k < len(self.prefix):
                c = self.prefix[k]
                if c >= len(opts):
                    raise vos.Divergence("choice %d of %d" % (c, len(opts)))
            self.choices.append((len(opts), c))
        t = opts[c]
        if me is not None and t is not me:
            self.used += 1
        return t

    def hand(self, t):
        if t is None:
            self.cur = None
            self.done.release()
            return
        self.cur = t
        t.go.release()


class Prog:
    def __init__(self, s, n, fn):
        self.s, self.n, self.fn = s, n, fn
        self.go = threading.Semaphore(0)
        self.over = self.waits = self.denied = False
        self.error, self.reads, self.at = None, [], "start"
        self.th = threading.Thread(target=self.main, daemon=True)

    def main(self):
        _me.prog = self
        self.go.acquire()
        try:
            self.fn(self)
        except BaseException as e:
            self.error = e
        self.s.after()
        self.over = True
        self.wake()
        self.s.hand(self.s.pick(None))

    def wake(self):
        for t in self.s.threads:
            if t is not self:
                t.waits = False

    def switch(self, t):
        if t is not self:
            self.s.hand(t)
            self.go.acquire()

    def point(self, what):
        """before something others could see or change"""
        s = self.s
        if self.at != "start":
            if not self.at.startswith(("SELECT", "fetch", "next", "stat")):
                s.after()           # what the last one did
            self.wake()
        self.at = what
        s.steps += 1
        if s.steps > 3000:
            raise vos.Hang("no end")
        self.switch(s.pick(self))
        s.trail.append((self.n, what))

    def do(self, what, f, patience):
        self.point(what)
        while True:
            try:
                return f()
            except sqlite3.OperationalError as e:
                if "locked" not in str(e) and "busy" not in str(e) or self.denied or patience < 1:
                    raise
            self.waits = True
            self.s.waited += 1
            self.switch(self.s.pick(None))


_me = threading.local()


def prog():
    return getattr(_me, "prog", None)


def word(sql):
    return " ".join(str(sql).split())[:50]


class Cur(sqlite3.Cursor):
    def execute(self, sql, *a):
        p = prog()
        f = super().execute
        if p is None:
            return f(sql, *a)
        return p.do(word(sql), lambda: f(sql, *a), self.connection.patience)

    def executemany(self, sql, *a):
        p = prog()
        f = super().executemany
        if p is None:
            return f(sql, *a)
        return p.do(word(sql), lambda: f(sql, *a), self.connection.patience)

    def executescript(self, sql):
        p = prog()
        f = super().executescript
        if p is None:
            return f(sql)
        for part in str(sql).split(";"):
            if part.strip():
                p.do(word(part), lambda: f(part), self.connection.patience)
        return self

    def fetchone(self):
        p = prog()
        f = super().fetchone
        return f() if p is None else p.do("fetchone", f, self.connection.patience)

    def fetchall(self):
        p = prog()
        f = super().fetchall
        return f() if p is None else p.do("fetchall", f, self.connection.patience)

    def __next__(self):
        p = prog()
        f = super().__next__
        return f() if p is None else p.do("next", f, self.connection.patience)


class Conn(sqlite3.Connection):
    patience = 0

    def cursor(self, factory=Cur):
        return super().cursor(factory)

    def execute(self, *a):
        return self.cursor().execute(*a)

    def executemany(self, *a):
        return self.cursor().executemany(*a)

    def executescript(self, *a):
        return self.cursor().executescript(*a)

    def commit(self):
        p = prog()
        f = super().commit
        return f() if p is None else p.do("commit", f, self.patience)

    def rollback(self):
        p = prog()
        f = super().rollback
        return f() if p is None else p.do("rollback", f, self.patience)

    def __exit__(self, et, ev, tb):
        (self.commit if et is None else self.rollback)()
        return False

    def close(self):
        p = prog()
        if p is not None:
            p.point("close")
        super().close()


def connect(*a, **k):
    p = prog()
    if p is None:
        return _connect0(*a, **k)
    a = list(a)
    patience = a.pop(1) if len(a) > 1 else k.pop("timeout", 5.0)
    a.insert(1, 0)
    k.setdefault("factory", Conn)
    c = p.do("connect", lambda: _connect0(*a, **k), patience)
    c.patience = patience
    return c


def _os(name):
    r = getattr(os, name)

    def f(*a, **k):
        p = prog()
        if p is not None:
            p.point(name)
        return r(*a, **k)
    f.__name__ = name
    setattr(os, name, f)


sqlite3.connect = connect
for _n in ("mkdir", "stat", "open", "rename", "replace", "unlink", "remove", "rmdir", "listdir", "scandir", "access"):
    _os(_n)

import dsari                # noqa: E402
import dsari.config         # noqa: E402
import dsari.database       # noqa: E402


# ---------------------------------------------------------------- programs
def t(k):
    return datetime.datetime(2020, 6, 1, 12, 0, 0, 250000, tzinfo=UTC) + datetime.timedelta(seconds=61 * k)


def ident(k):
    return "0aa80b81-2eb3-4bb5-8d9f-0f0c5f4f%04d" % k


def made(cfg, k, job, code=0):
    r = dsari.Run(cfg.jobs.get(job) or dsari.Job(job), id=ident(k))
    r.schedule_time, r.start_time, r.stop_time, r.exit_code = t(k), t(k), t(k + 3), code
    r.trigger_type, r.trigger_data, r.run_data = "schedule", {"n": k}, {}
    return r


def row(r, running):
    return (r.id, r.job.name, None if running else r.exit_code, r.start_time.timestamp(), None if running else r.stop_time.timestamp(), r.trigger_data.get("n"))


class Script:
    """what one program does; ops:  open | clear | start k job | finish k job code | runs | running | prev job | jobs j | close"""

    def __init__(self, ops):
        self.ops = ops

    def __call__(self, where, cfg, log):
        def body(p):
            d = p.d = None
            for o in self.ops:
                b = log.now()
                if o[0] == "open":
                    d = dsari.database.get_database(cfg)
                elif o[0] == "clear":
                    d.clear_runs_running()
                elif o[0] == "start":
                    d.insert_running_run(made(cfg, o[1], o[2]))
                elif o[0] == "finish":
                    d.insert_run(made(cfg, *o[1:]))
                elif o[0] == "runs":
                    p.reads.append((o, b, {row(r, False) for r in d.get_runs()}))
                elif o[0] == "running":
                    p.reads.append((o, b, {row(r, True) for r in d.get_runs(runs_running=True)}))
                elif o[0] == "jobs":
                    p.reads.append((o, b, {row(r, False) for r in d.get_runs(job_names=[o[1]])}))
                elif o[0] == "prev":
                    p.reads.append((o, b, [None if r is None else row(r, False) for r in d.get_previous_runs(cfg.jobs.get(o[1]) or dsari.Job(o[1]))]))
                elif o[0] == "close":
                    d.child_close_fd()
                if len(p.reads) and len(p.reads[-1]) == 3:
                    p.s.after()
                    p.reads[-1] += (log.now(),)
                p.d = d         # keeps its connection, as a program does
        return body


class Log:
    """contents of the database after each step"""

    def __init__(self, file):
        self.file, self.c, self.states = file, None, []
        self.look()

    def now(self):
        return len(self.states) - 1

    def look(self):
        if self.c is None:
            try:
                if not os.path.getsize(self.file):
                    raise OSError
            except OSError:
                s = (None, None)
                if not self.states or self.states[-1] != s:
                    self.states.append(s)
                return
            self.c = _connect0(self.file, timeout=0, check_same_thread=False)
        out = []
        for q in ("SELECT run_id, job_name, exit_code, start_time, stop_time, trigger_data FROM runs",
                  "SELECT run_id, job_name, NULL, start_time, NULL, trigger_data FROM runs_running"):
            try:
                out.append(tuple(sorted((a[0], a[1], a[2], a[3], a[4], json.loads(a[5]).get("n")) for a in self.c.execute(q).fetchall())))
            except sqlite3.OperationalError as e:
                if "no such table" in str(e):
                    out.append(None)
                elif "locked" in str(e):
                    return              # the writer is not through
                else:
                    raise
        out = tuple(out)
        if not self.states or self.states[-1] != out:
            self.states.append(out)

    def close(self):
        if self.c is not None:
            self.c.close()


def quiet(f):
    """f outside of the scheduler"""
    def g(*a):
        p = prog()
        _me.prog = None
        try:
            return f(*a)
        finally:
            _me.prog = p
    return g


def prepare(start, where, cfgs):
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(os.path.join(where, "etc"))
    var = os.path.join(where, "var", "lib")
    file = os.path.join(var, "dsari.sqlite3")
    if start != "no directory":
        os.makedirs(var)
    if start == "empty file":
        open(file, "w").close()
    elif start not in ("no directory", "no file"):
        src = os.path.join(cli.scratch(), "race." + start.replace(" ", "_"))
        if not os.path.exists(src):
            cfg = config(where)
            cfg.database["file"] = src + ".new"
            d = dsari.database.get_database(cfg)
            if start == "runs":
                for k, j, c in ((1, "a", 3), (2, "a", 0), (3, "b", 0), (0, "a", 3)):
                    d.insert_run(made(cfg, k, j, c))
                d.insert_running_run(made(cfg, 4, "a"))
                d.insert_running_run(made(cfg, 5, "gone"))
            elif start.startswith("running"):
                for k in range(int(start[7:])):
                    d.insert_running_run(made(cfg, 20 + k, "ab"[k % 2]))
            elif start == "only runs":
                d.insert_run(made(cfg, 1, "a", 0))
                d.db_conn.execute("DROP TABLE runs_running")
            d.db_conn.close()
            os.rename(src + ".new", src)
        shutil.copy(src, file)
    return file


_CONF = {}


def config(where):
    key = (os.getpid(), where)
    if key not in _CONF:
        cd = os.path.join(cli.scratch(), "etc.race")
        cli.write(os.path.join(cd, "dsari.json"), json.dumps({"data_dir": os.path.join(where, "var", "lib"),
                                                              "jobs": {j: {"command": ["x"]} for j in ("a", "b")}}))
        _CONF[key] = cd
    return dsari.config.get_config(_CONF[key])


_CFG = {}


def config_of(n, where):
    """program n's configuration, read once by each worker"""
    if (n, where) not in _CFG:
        _CFG[n, where] = config(where)
    return _CFG[n, where]


def same(a, b):
    return len(a) == len(b) and all(x[:3] == y[:3] and x[5] == y[5] and all((u is None) == (v is None) and (u is None or abs(u - v) < 1e-4) for u, v in ((x[3], y[3]), (x[4], y[4])))
                                    for x, y in zip(sorted(a, key=lambda r: r[0]), sorted(b, key=lambda r: r[0])))


def judge_read(r, states):
    o, b, got, e = r
    seen = states[max(b, 0):e + 1]
    if o[0] in ("runs", "running", "jobs"):
        cand = [[x for x in (s[1 if o[0] == "running" else 0] or ()) if o[0] != "jobs" or x[1] == o[1]] for s in seen]
        if not any(same(got, c) for c in cand):
            return "%s gives %r, which the database never was meanwhile: %r" % (" ".join(map(str, o)), sorted(got), cand)
        return None
    for name, g, f in zip(("previous", "previous good", "previous bad"), got, (lambda x: True, lambda x: x[2] == 0, lambda x: x[2] != 0)):
        cand = []
        for s in seen:
            mine = sorted((x for x in s[0] or () if x[1] == o[1] and f(x)), key=lambda x: x[4])
            cand.append(mine[-1:])
        if not any(same([g] if g else [], c) for c in cand):
            return "%s run of %s is %r, which it never was meanwhile: %r" % (name, o[1], g, cand)
    return None


def expected(start, scripts):
    """(runs, running) once all have ended: ids"""
    done, running = set(), set()
    if start == "runs":
        done, running = {ident(k) for k in range(4)}, {ident(4), ident(5)}
    elif start.startswith("running"):
        running = {ident(20 + k) for k in range(int(start[7:]))}
    elif start == "only runs":
        done = {ident(1)}
    for s in scripts:
        if ("clear",) in s:
            running = set()         # those left over; nobody else clears
    for s in scripts:
        for o in s:
            if o[0] == "start":
                running.add(ident(o[1]))
            elif o[0] == "finish":
                running.discard(ident(o[1]))
                done.add(ident(o[1]))
    return done, running


def unit_fn(unit, rec):
    start, scripts, bound, first = unit
    where = os.path.join(cli.scratch(), "race")
    prefix = list(first)
    cfgs = None
    n = waited = 0
    while True:
        file = prepare(start, where, cfgs)
        log = Log(file)
        s = Sched(prefix, bound, quiet(log.look))
        s.run([Script(x)(where, config_of(i, where), log) for i, x in enumerate(scripts)])
        log.look()
        n += 1
        waited += s.waited
        rec.step(s.steps)
        rec.trace()
        for st in log.states:
            rec.state(start, st)
        bad = None
        for p in s.threads:
            if isinstance(p.error, (vos.Divergence,)):
                raise RuntimeError("not deterministic: %r" % (p.error,))
            if p.error is not None:
                bad = "program %d (%s) fails at %r: %r" % (p.n + 1, ", ".join(o[0] for o in scripts[p.n]), p.at, p.error)
            for r in p.reads:
                bad = bad or judge_read(r, log.states) if len(r) == 4 else bad
        if bad is None:
            want = expected(start, scripts)
            got = tuple(None if x is None else {r[0] for r in x} for x in log.states[-1])
            for name, g, w in zip(("completed", "running"), got, want):
                if g != w:
                    bad = "at the end the %s runs are %r, expected %r" % (name, sorted(g or ()), sorted(w))
            for a in log.states:
                both = {x[0] for x in a[0] or ()} & {x[0] for x in a[1] or ()}
                if both:
                    bad = bad or "while it completes, run %r is both running and completed" % sorted(both)
            for a, b in zip(log.states, log.states[1:]):
                lost = {x[0] for x in a[0] or ()} - {x[0] for x in b[0] or ()}
                if lost:
                    bad = bad or "completed runs %r vanish" % sorted(lost)
                gone = {x[0] for x in a[1] or ()} & {ident(k) for k in range(6, 1000)}
                gone -= {x[0] for x in b[1] or ()} | {x[0] for x in b[0] or ()}
                if gone:
                    bad = bad or "while it completes, run %r is neither running nor completed" % sorted(gone)
        log.close()
        for p in s.threads:
            c = getattr(getattr(p, "d", None), "db_conn", None)
            p.d = None
            p.s = None
            del c
        if bad:
            rec.bad("%s: %s" % (start, bad[:60]), "%s; programs %r; order %s: %s" % (
                start, scripts, " ".join("%d:%s" % (a + 1, b.split(" ")[0]) for a, b in s.trail), bad), choices=[c for _, c in s.choices])
            if len(rec.violations) >= 3:
                return
        # next
        ch = s.choices
        while len(ch) > len(first) and ch[-1][1] + 1 >= ch[-1][0]:
            ch.pop()
        if len(ch) <= len(first):
            break
        prefix = [c for _, c in ch[:-1]] + [ch[-1][1] + 1]
    rec.count("interleavings", n)
    rec.count("waits for a lock", waited)
    rec.sample(start=start, programs=scripts, preemptions=bound, interleavings=n)
    shutil.rmtree(where, ignore_errors=True)


# ---------------------------------------------------------------- what is explored
DAEMON = (("open",), ("clear",), ("prev", "a"), ("start", 6, "a"), ("finish", 6, "a", 0), ("prev", "a"))
DAEMON1 = tuple(o for o in DAEMON if o[0] != "clear")       # clearing is for the only daemon of a database
DAEMON2 = (("open",), ("start", 7, "b"), ("prev", "b"), ("finish", 7, "b", 2), ("prev", "b"))
TWO = (("open",), ("clear",), ("start", 6, "a"), ("start", 8, "b"), ("finish", 8, "b", 0), ("finish", 6, "a", 1))
READER = (("open",), ("runs",), ("running",))
INFO = (("open",), ("jobs", "a"))
RENDER = (("open",), ("running",), ("runs",), ("runs",))
FIN = (("open",), ("finish", 20, "a", 0), ("finish", 22, "a", 3))
OPEN = (("open",),)
STARTS = ["no directory", "no file", "empty file", "only runs", "no runs", "runs"]


def units(th):
    out = []

    def add(start, scripts, bound):
        out.append((start, scripts, bound, ()))
    for st in STARTS:
        add(st, (DAEMON, READER), 3 if th else 2)
        add(st, (READER, READER), 3 if th else 2)
        add(st, (DAEMON1, DAEMON2), 3 if th else 2)
        add(st, (OPEN, OPEN), 5 if th else 3)
        add(st, (DAEMON, RENDER, INFO), 2 if th else 1)
        add(st, (OPEN, OPEN, OPEN), 3 if th else 2)
    add("running5", (FIN, READER), 3 if th else 2)
    add("running150", (FIN, (("open",), ("running",))), 2 if th else 1)
    for st in ("runs", "no file"):
        add(st, (TWO, RENDER), 3 if th else 2)
        add(st, (TWO[:1] + TWO[2:], DAEMON2), 3 if th else 2)
    out.sort(key=lambda u: -sum(len(x) for x in u[1]) ** u[2])      # the long ones first
    return out


def run(c):
    th = c.tier == "thorough"
    us = units(th)
    tot = sweep.sweep(us, unit_fn, c.wall(200, 3000), limit=2400 if th else 400)
    return sweep.finish(c, tot, "every interleaving, at most so many preemptions (see counters and samples), of the statements, fetches, commits and "
                        "directory accesses of two or three programs using one database, from every start state",
                        ["a statement that finds the database locked is retried when another program has moved, as SQLite's waiting does",
                         "SQLite itself is the real library; its own file system accesses are not interleaved"], units=len(us))


def replay(prop, path):
    with open(path) as f:
        for v in json.load(f)["violations"]:
            print(v["what"])
    return 1
