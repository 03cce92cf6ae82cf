"""Scenario driver for the real dsari daemon under the virtual OS, with a reference scheduler and monitors.

The daemon is started through dsari.daemon.main().  Everything observable at its boundary (process starts with
their command line and environment, waits, kills, files opened and removed, database contents) is fed to a
reference model; each deviation from the model is a violation tagged with the properties it contradicts.
"""
import os, re, sys, io, json, time, signal, sqlite3, shutil, pickle, datetime, itertools

import vos
import explore
import cronref

TOL = 2.5            # seconds: "promptly", "about a second"
NOTICE = 61.0        # a trigger is noticed within this
HELD = 300.0         # a held back run starts within this after it could
INFLIGHT = 0.02
SIG = {"hup": 1, "int": 2, "quit": 3, "usr1": 10, "term": 15}
ALL = ("D01", "D02", "D03", "D04", "D05", "D06", "D07", "D08", "D09", "D10", "D11", "D12")
REPO = os.environ.get("DSARI_REPO", "/repo")

_base = None


def scratch_base():
    global _base
    if _base is None:
        import tempfile, atexit
        d = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _base = tempfile.mkdtemp(prefix="dsarimc.", dir=d)
        me = os.getpid()

        def clean():
            if os.getpid() == me:
                shutil.rmtree(_base, ignore_errors=True)
        atexit.register(clean)
    return _base


def epoch(s):
    return datetime.datetime.strptime(s, "%Y-%m-%dT%H:%M:%S.%f").replace(
        tzinfo=datetime.timezone.utc).timestamp()


_next_cache = {}


def next_occurrence(job, t):
    schedule, zone = job["schedule"], job.get("schedule_timezone")
    k = (schedule, zone, int(t))
    if k not in _next_cache and schedule.startswith("RRULE:"):
        # every minute, until a moment in UTC
        parts = dict(x.split("=") for x in schedule[6:].split(";"))
        assert set(parts) <= {"FREQ", "BYSECOND", "UNTIL"} and parts["FREQ"] == "MINUTELY" and not zone
        n = (int(t) // 60 + 1) * 60 + int(parts["BYSECOND"]) - (60 if int(t) % 60 < int(parts["BYSECOND"]) else 0)
        if "UNTIL" in parts and n > datetime.datetime.strptime(parts["UNTIL"] + "+0000", "%Y%m%dT%H%M%SZ%z").timestamp():
            n = None
        _next_cache[k] = n
    if k not in _next_cache:
        c = cronref.Cron(schedule)
        # all occurrences are whole seconds: the next one after t is the next one after floor(t)
        tz = datetime.timezone.utc
        if zone:
            import zoneinfo
            tz = zoneinfo.ZoneInfo(zone)
        _next_cache[k] = c.next(int(t), tz, days=800, gaps=False)
    return _next_cache[k]


def exitcode(status):
    return 128 + (status & 0x7f) if status & 0x7f else status >> 8


JOB_DEFAULTS = {"schedule": None, "concurrency_groups": [], "concurrent_runs": False, "max_execution": None,
                "max_execution_grace": 60.0, "environment": {}, "command_append_run": False}


HERE = os.path.dirname(os.path.abspath(__file__))


class HarnessError(BaseException):
    pass


class Pend:
    __slots__ = ("job", "due", "hi", "kind", "respawn", "data", "env", "able", "blocked", "n", "exact")

    def sig(self, base):
        return (self.job, round(self.due - base, 1), self.kind, self.respawn, self.blocked)


class Running:
    __slots__ = ("job", "id", "vpid", "group", "start", "sched", "kind", "data", "cfg", "limits", "graces",
                 "term_at", "kill_at", "reaped", "exited", "ret", "cfg_at", "early_kill_ok", "spec", "mine")


STATUS = (("running", re.compile(r"\[(.+) ([0-9a-f-]{36})\] PID (-?\d+) running since (.+?) \((.*)\)$")),
          ("group", re.compile(r"\[(.+) ([0-9a-f-]{36})\] Concurrency group: (.+) \((-?\d+) out of (-?\d+)\)$")),
          ("next", re.compile(r"\[(.+) ([0-9a-f-]{36})\] Next run \((.+?)\): (.+?) \((-?)(.*)\)$")))


def moment(text):
    """a date and time, as seconds since the epoch"""
    return datetime.datetime.fromisoformat(text).timestamp()


def span(text):
    """the seconds of '[N days, ]H:MM:SS[.f]'"""
    m = re.match(r"(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d(?:\.\d+)?)$", text)
    if not m or m[1] and int(m[1]) < 0:
        raise ValueError(text)
    return int(m[1] or 0) * 86400 + int(m[2]) * 3600 + int(m[3]) * 60 + float(m[4])


class Log(io.StringIO):
    """what the daemon logs; what it says of its status is compared with the model when it is said"""
    mon = None

    def write(self, text):
        if self.mon is not None and self.mon.quit_at and vos.W is not None:
            for line in text.split("\n"):
                for kind, pat in STATUS:
                    m = pat.search(line)
                    if m:
                        # behind the log's own prefix
                        self.mon.on_status(vos.W, kind, (m[1].rsplit("[", 1)[-1],) + m.groups()[1:])
        return super().write(text)


class Monitor(vos.NullHooks):
    def __init__(self, scen, root):
        self.scen = scen
        self.root = root
        self.etc = os.path.join(root, "etc")
        self.var = os.path.join(root, "var")
        self.db = os.path.join(self.var, "dsari.sqlite3")
        self.viol = []
        self.history = []
        self.states = []
        self.transitions = 0
        self.counters = {}
        self.cfg_disk = 0
        self.cfg = None
        self.pending = []
        self.running = {}          # vpid -> Running (not yet reaped)
        self.done = {}             # id -> Running (reaped), expected completed
        self.recorded = {}         # id -> row, verified
        self.ids = set()
        self.pend_n = 0
        self.loaded = False
        self.shutdown = None
        self.hup_at = None
        self.last_reload = None
        self.usr1_at = None
        self.quit_at = []
        self.said = []
        self.said_of = None
        self.trig = {}             # path -> (job, variant, written)
        self.events = set()        # kinds of events that happened
        self.killed = False
        self.restarts = 0
        self.uuid_base = 0
        self.ended = False
        self.fresh = True
        self.line_seen = {}
        self.base = epoch(scen["start"])
        self.dbsig = None
        self.used = {}
        self.maybe = {}
        self.opened = {}
        self.trace_off = False
        self.spanned = 0
        self.err = None

    # ------------------------------------------------------------ bookkeeping
    def now(self, w):
        return w.now / 1e6

    def log(self, w, txt):
        if len(self.history) < 400:
            self.history.append("%+8.3f %s" % (self.now(w) - self.base, txt))

    def bad(self, w, props, msg):
        props = set([props] if isinstance(props, str) else props)
        for ev, p in (("hup", "D10"), ("kill", "D05"), ("shutdown", "D09"), ("line", "D11")):
            if ev in self.events and not (ev == "shutdown" and "D09" in props):
                props.add(p)
        if "shutdown" not in self.events:
            props.discard("D09")
        if len(self.viol) < 30:
            self.viol.append((sorted(props), msg, round(self.now(w) - self.base, 3)))
        self.log(w, "*** %s: %s" % (",".join(sorted(props)), msg))

    def count(self, k):
        self.counters[k] = self.counters.get(k, 0) + 1

    # ------------------------------------------------------------ files
    def setup(self):
        os.makedirs(self.etc)
        os.makedirs(self.var)
        self.write_config(0)
        for e in self.scen.get("setup", []):
            self.write_trigger(e, self.base)

    def write_config(self, k):
        c = self.scen["configs"][k]
        if isinstance(c, str):
            raw = c
        else:
            c = json.loads(json.dumps(c))
            c.pop("_invalid", None)
            c.setdefault("data_dir", self.var)
            raw = json.dumps(c)
        with open(os.path.join(self.etc, "dsari.json"), "w") as f:
            f.write(raw)
        self.cfg_disk = k

    def parse_cfg(self, k):
        c = self.scen["configs"][k]
        if isinstance(c, str) or c.get("_invalid"):
            return None
        jobs = {}
        for n, j in c.get("jobs", {}).items():
            d = dict(JOB_DEFAULTS)
            d.update(j)
            jobs[n] = d
        for g, j in c.get("job_groups", {}).items():
            for n in j["job_names"]:
                d = dict(JOB_DEFAULTS)
                d.update(j)
                jobs[n] = d
        groups = {}
        for j in jobs.values():
            for g in j["concurrency_groups"]:
                groups[g] = 1
        for g, d in c.get("concurrency_groups", {}).items():
            groups[g] = d.get("max", 1)
        return {"jobs": jobs, "groups": groups, "kill_runs": c.get("shutdown_kill_runs", False),
                "grace": c.get("shutdown_kill_grace"), "k": k}

    def write_trigger(self, name, now):
        v = self.scen["triggers"][name]
        d = os.path.join(self.var, "trigger", v["job"])
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, v.get("file", "trigger.json"))
        raw = v["raw"] if "raw" in v else json.dumps(v.get("data", {}))
        with open(fn + "~", "wb") as f:
            f.write(raw.encode("utf-8", "surrogateescape") if isinstance(raw, str) else raw)
        ns = int(round(now * 1e6)) * 1000
        os.utime(fn + "~", ns=(ns, ns))
        os.replace(fn + "~", fn)
        self.trig[fn] = (v["job"], name, now)

    # ------------------------------------------------------------ model
    def add_pending(self, job, due, kind, respawn, data=None, env=None, exact=False):
        p = Pend()
        p.job, p.due, p.kind, p.respawn, p.data, p.env = job, due, kind, respawn, data or {}, env or {}
        p.hi = due if exact else due + 1.0
        p.exact = exact
        p.able = None
        p.blocked = False
        self.pend_n += 1
        p.n = self.pend_n
        self.pending.append(p)

    def model_reload(self, w, first=False):
        c = self.parse_cfg(self.cfg_disk)
        if c is None:
            self.log(w, "reload of an invalid configuration")
            return
        now = self.now(w)
        self.recompute(w)
        self.cfg = c
        self.last_reload = now
        self.pending = []
        for n in sorted(c["jobs"]):
            j = c["jobs"][n]
            if j["schedule"]:
                t = next_occurrence(j, now)
                if t is not None:
                    self.add_pending(n, t, "schedule", True)
        for r in self.running.values():
            if r.job in c["jobs"]:
                r.cfg = c["jobs"][r.job]
                r.cfg_at = now
                r.limits.append(r.cfg["max_execution"])
                r.graces.append(r.cfg["max_execution_grace"])
        for fn, (job, v, at) in list(self.trig.items()):
            self.trig[fn] = (job, v, max(at, now) if job in c["jobs"] else at)
        self.log(w, "configuration %d applies" % self.cfg_disk)
        self.recompute(w)

    def alive(self, w):
        return [r for r in self.running.values() if not w.procs[r.vpid].zombie]

    def group_free(self, job, counted):
        gs = self.cfg["jobs"][job]["concurrency_groups"]
        if not gs:
            return True
        return any(sum(1 for r in counted if r.group == g) < self.cfg["groups"][g] for g in gs)

    def recompute(self, w):
        """which pending runs could start now (as far as the daemon can know: until reaped, a run counts)"""
        if not self.cfg:
            return
        now = self.now(w)
        counted = list(self.running.values())
        for p in self.pending:
            if p.job not in self.cfg["jobs"]:
                continue
            if now < p.hi:
                continue
            j = self.cfg["jobs"][p.job]
            ok = (j["concurrent_runs"] or not any(r.job == p.job for r in counted)) and \
                self.group_free(p.job, counted)
            if ok:
                if p.able is None:
                    # without a change of the model in between, it was able from its due time on
                    p.able = p.hi if not p.blocked else now
            else:
                p.able = None
                p.blocked = True

    def tick(self, w):
        """deadlines"""
        now = self.now(w)
        stall = w.last_stall_end / 1e6
        self.recompute(w)
        if self.cfg is None:
            if now - max(self.base, stall) > TOL and self.loaded is False:
                self.bad(w, ALL, "the daemon has not started")
            return
        if self.shutdown is None:
            for p in self.pending:
                if p.able is None:
                    continue
                lim = max(p.able, stall, self.last_reload) + (HELD if p.blocked else TOL)
                if now > lim:
                    props = {"D03"}
                    j = self.cfg["jobs"].get(p.job, JOB_DEFAULTS)
                    if j["concurrency_groups"]:
                        props.add("D01")
                    if j["concurrent_runs"]:
                        props.add("D02")
                    if p.kind == "file":
                        props.add("D06")
                    self.bad(w, props, "run of %s due at %+.3f (%s) has not started, although nothing held it back "
                             "since %+.3f" % (p.job, p.due - self.base, p.kind, p.able - self.base))
                    p.able = now + 1e6
            for fn, (job, v, at) in list(self.trig.items()):
                if job not in self.cfg["jobs"]:
                    continue
                lim = at + NOTICE
                if self.usr1_at is not None and self.usr1_at >= at:
                    lim = min(lim, self.usr1_at + TOL)
                if now > max(lim, stall + TOL):
                    props = {"D06", "D07"} if self.scen["triggers"][v].get("usable", True) else {"D07"}
                    if self.usr1_at is not None and self.usr1_at >= at and now < at + NOTICE:
                        props.add("D11")
                    self.bad(w, props, "trigger %s for %s has not been picked up" % (v, job))
                    del self.trig[fn]
            if self.hup_at is not None and now > max(self.hup_at, stall) + TOL:
                self.bad(w, {"D10", "D11"}, "SIGHUP at %+.3f had no effect" % (self.hup_at - self.base))
                self.hup_at = None
        for q in list(self.quit_at):
            t, ids, pos, due = q
            if now > max(t, stall) + TOL:
                self.quit_at.remove(q)
                txt = self.stderr_text()[pos:]
                miss = [i for i in ids if i not in txt and any(r.id == i for r in self.running.values())]
                if miss:
                    self.bad(w, {"D11", "D12"}, "SIGQUIT did not report the run in progress")
                elif any(p.n in due for p in self.pending) and self.shutdown is None and "Next run (" not in txt:
                    self.bad(w, {"D11", "D12"}, "SIGQUIT did not report the next runs")
        for r in self.running.values():
            p = w.procs[r.vpid]
            if p.zombie:
                if now > max(p.exited_at / 1e6, stall) + TOL:
                    if r.exited is None:
                        r.exited = now
                        self.bad(w, {"D04", "D11"} if "line" in self.events else {"D04"},
                                 "run of %s ended at %+.3f but has not been collected"
                                 % (r.job, p.exited_at / 1e6 - self.base))
                continue
            mx, gr = r.cfg["max_execution"], r.cfg["max_execution_grace"]
            if mx is not None:
                due = max(r.start + mx, r.cfg_at, stall)
                if r.term_at is None and now > due + TOL:
                    self.bad(w, "D08", "run of %s exceeds max_execution since %+.3f and was not sent SIGTERM"
                             % (r.job, r.start + mx - self.base))
                    r.term_at = now
                elif r.term_at is not None and r.kill_at is None and \
                        now > max(max(r.start + mx, r.term_at) + gr, r.cfg_at, stall) + TOL:
                    self.bad(w, "D08", "run of %s exceeds max_execution_grace and was not sent SIGKILL" % r.job)
                    r.kill_at = now
            if self.shutdown is not None and self.cfg["kill_runs"]:
                if r.term_at is None and now > max(self.shutdown, stall) + TOL:
                    self.bad(w, {"D09", "D11"}, "shutdown did not send SIGTERM to the run of %s" % r.job)
                    r.term_at = now
                elif r.term_at is not None and r.kill_at is None and self.cfg["grace"] is not None and \
                        now > max(max(self.shutdown, r.term_at) + self.cfg["grace"], stall) + 2 * TOL:
                    self.bad(w, {"D09"}, "shutdown_kill_grace passed and the run of %s was not sent SIGKILL" % r.job)
                    r.kill_at = now
        if self.shutdown is not None and not self.running and not self.ended:
            t0 = max([self.shutdown, stall, self.last_end])
            if now > t0 + TOL:
                self.bad(w, {"D09", "D11"}, "the daemon has not exited although no run is left")
                self.ended = True

    last_end = 0.0

    def snapshot(self, w):
        b = self.now(w)
        st = (self.cfg_disk, self.cfg["k"] if self.cfg else None,
              sorted(p.sig(b) for p in self.pending),
              sorted((r.job, str(r.group), round(r.start - b, 1), r.kind, r.term_at is not None, r.kill_at is not None,
                      w.procs[r.vpid].zombie,
                      None if w.procs[r.vpid].exit_at is None else round(w.procs[r.vpid].exit_at / 1e6 - b, 1))
                     for r in self.running.values()),
              sorted((j, v) for j, v, a in self.trig.values()), self.shutdown is not None,
              round(b - int(b / 60) * 60, 1))
        self.states.append(explore.state_hash(st))

    # ------------------------------------------------------------ database
    def read_db(self, w):
        w.mute = True
        try:
            c = sqlite3.connect("file:%s?mode=ro" % self.db, uri=True, timeout=0.0)
            try:
                run = c.execute("select run_id, job_name, schedule_time, start_time, trigger_type, trigger_data, "
                                "run_data from runs_running").fetchall()
                done = c.execute("select run_id, job_name, schedule_time, start_time, stop_time, exit_code, "
                                 "trigger_type, trigger_data, run_data from runs").fetchall()
                # one snapshot of both
                run2 = c.execute("select run_id, job_name, schedule_time, start_time, trigger_type, trigger_data, "
                                 "run_data from runs_running").fetchall()
            finally:
                c.close()
            return (run2, done) if run2 == run else None
        except sqlite3.OperationalError as e:
            if "locked" in str(e) or "no such table" in str(e) or "unable to open" in str(e):
                return None
            raise
        finally:
            w.mute = False

    def db_check(self, w, strict, also=None):
        """strict: nothing is in flight, the tables must equal the model"""
        d = self.read_db(w)
        if d is None:
            if strict and self.loaded:
                self.bad(w, {"D04"}, "the database cannot be read while the daemon sleeps")
            return
        run, done = d
        rids = [r[0] for r in run]
        dids = [r[0] for r in done]
        exp_run = {r.id: r for r in self.running.values()}
        if also is not None:
            exp_run[also.id] = also
        for i, r in exp_run.items():
            if i not in rids:
                if i in dids and not strict and r.reaped:
                    pass
                else:
                    self.bad(w, "D04", "run of %s is in progress but not listed as running" % r.job)
            if rids.count(i) > 1:
                self.bad(w, "D04", "run listed as running twice")
            if i in dids:
                self.bad(w, "D04", "run of %s is in progress but already recorded as completed" % r.job)
        for i, r in self.done.items():
            n = dids.count(i)
            if n > 1:
                self.bad(w, "D04", "run of %s recorded %d times" % (r.job, n))
            if n == 0 and (strict or i not in rids):
                self.bad(w, "D04", "finished run of %s is not recorded" % r.job if strict else
                         "finished run of %s is neither running nor completed" % r.job)
            if n and i in rids:
                self.bad(w, "D04", "run of %s is listed as running and as completed" % r.job)
        extra = [i for i in rids if i not in exp_run and i not in self.done]
        if strict and extra:
            self.bad(w, {"D04", "D05"} if self.restarts else "D04", "a run is listed as running which is not")
        elif len(extra) > 1:
            self.bad(w, "D04", "runs are listed as running which are not")
        for row in run:
            r = exp_run.get(row[0])
            if r is not None:
                self.check_common(w, r, row[1], row[2], row[3], row[4], row[5])
        for row in done:
            i = row[0]
            if i in self.recorded:
                if self.recorded[i] != row:
                    self.bad(w, {"D04", "D05"}, "the record of a completed run changed")
                    self.recorded[i] = row
                continue
            r = self.done.get(i) or self.maybe.get(i)
            if r is None:
                if i not in exp_run:
                    self.bad(w, {"D04", "D05"} if self.restarts else "D04", "a run is recorded which never took place")
                self.recorded[i] = row
                continue
            self.recorded[i] = row
            self.check_common(w, r, row[1], row[2], row[3], row[6], row[7])
            p = w.procs[r.vpid]
            if not (row[4] is not None and row[4] >= row[3] and row[4] >= p.exited_at / 1e6 - 0.001
                    and row[4] <= r.reaped + 0.5):
                self.bad(w, "D04", "stop time %r is wrong (ended %r, collected %r)"
                         % (row[4], p.exited_at / 1e6, r.reaped))
            if row[5] != exitcode(p.status):
                self.bad(w, {"D04", "L02"}, "exit code %r recorded for wait status %d" % (row[5], p.status))
            try:
                rd = json.loads(row[8])
            except ValueError:
                rd = None
            want = {} if r.ret is None else {"return_data": r.ret}
            if rd != want:
                self.bad(w, {"D04", "D07"}, "run data %r recorded, expected %r" % (row[8], want))
        for i in self.recorded:
            if i not in dids:
                self.bad(w, {"D04", "D05"}, "the record of a completed run has disappeared")
                self.recorded = {k: v for k, v in self.recorded.items() if k in dids}
                break

    def check_common(self, w, r, job, sched, start, ttype, tdata):
        if job != r.job or ttype != r.kind:
            self.bad(w, "D04", "recorded job %r, trigger type %r; the run was %r, %r" % (job, ttype, r.job, r.kind))
        if abs(sched - r.sched) > 1e-3 or abs(start - r.start) > 1e-3:
            self.bad(w, "D04", "recorded times differ from those the run was given")
        try:
            d = json.loads(tdata)
        except (ValueError, TypeError):
            d = None
        if d != r.data:
            self.bad(w, {"D04", "D06"}, "recorded trigger data %r, expected %r" % (tdata, r.data))

    # ------------------------------------------------------------ hooks
    def spec_for(self, report, p):
        w = vos.W
        if "error" in report:
            return {}
        name = report["env"].get("JOB_NAME")
        durs = self.scen.get("dur", {}).get(name, [3])
        i = w.choose(len(durs), "dur:%s" % name)
        self.note_choice(i)
        sts = self.scen.get("status", {}).get(name, [0])
        k = w.choose(len(sts), "status:%s" % name)
        rets = self.scen.get("ret", {}).get(name, [None])
        q = w.choose(len(rets), "ret:%s" % name)
        term = self.scen.get("term", {}).get(name, ["die"])
        t = w.choose(len(term), "term:%s" % name)
        return {"dur": durs[i], "status": sts[k], "ret": rets[q], "term": term[t]}

    def note_choice(self, i):
        self.transitions += 1

    def on_start(self, w, p):
        now = self.now(w)
        self.recompute(w)
        rep = p.report
        self.fresh = True
        self.transitions += 1
        self.count("starts")
        self.line_seen = {}
        if "error" in rep:
            tags = set(ALL) | {"L01"}
            self.bad(w, tags, "the child process of a run did not become the job's command: %s" % rep["error"])
            r = Running()
            r.job, r.id, r.group, r.kind, r.data = "?", "?%d" % p.vpid, None, "?", {}
            r.start = r.sched = now
            r.mine = False
            p.orphan = False
            self.finish_start(w, p, r, JOB_DEFAULTS, None)
            return
        env = rep["env"]
        r = Running()
        r.mine = True
        r.job = env.get("JOB_NAME")
        r.id = env.get("RUN_ID")
        r.kind = env.get("TRIGGER_TYPE")
        r.group = env.get("CONCURRENCY_GROUP")
        try:
            r.sched, r.start = float(env["SCHEDULE_TIME"]), float(env["START_TIME"])
        except (KeyError, ValueError):
            r.sched = r.start = now
            self.bad(w, {"D03", "L01"}, "no usable SCHEDULE_TIME or START_TIME")
        self.log(w, "start %s %s (scheduled %+.3f)%s -> pid %d" % (
            r.job, r.kind, r.sched - self.base, " in " + r.group if r.group else "", p.vpid))
        if self.shutdown is not None and now > self.shutdown + INFLIGHT:
            self.bad(w, "D09", "run of %s started %.3f s after the shutdown signal" % (r.job, now - self.shutdown))
        if r.id in self.ids or not r.id:
            self.bad(w, {"D03", "D04"}, "run id used twice")
        self.ids.add(r.id)
        jc = self.cfg["jobs"].get(r.job) if self.cfg else None
        if jc is None:
            self.bad(w, {"D03", "D10"}, "run of %r started, which is not configured" % r.job)
            jc = JOB_DEFAULTS
        # overlap and groups, counting processes which are really in progress
        alive = self.alive(w)
        if not jc["concurrent_runs"] and any(x.job == r.job for x in alive):
            self.bad(w, "D02", "run of %s started while another one is in progress" % r.job)
        if jc["concurrency_groups"]:
            if r.group not in jc["concurrency_groups"]:
                self.bad(w, "D01", "run of %s is in group %r, its job lists %r"
                         % (r.job, r.group, jc["concurrency_groups"]))
            else:
                n = sum(1 for x in alive if x.group == r.group)
                if n >= self.cfg["groups"][r.group]:
                    self.bad(w, "D01", "run of %s started in group %s, which already has %d of %d runs"
                             % (r.job, r.group, n, self.cfg["groups"][r.group]))
        elif r.group is not None:
            self.bad(w, "D01", "run of %s is in group %r, its job lists none" % (r.job, r.group))
        # which pending run is it?
        cand = [q for q in self.pending if q.job == r.job and q.due - 1e-3 <= r.sched <= q.hi + 1e-3
                and q.kind == r.kind]
        if not cand:
            near = [q for q in self.pending if q.job == r.job]
            props = {"D03"}
            if r.kind == "file":
                props.add("D07")
            if r.kind == "file" or any(q.kind == "file" for q in near):
                props.add("D06")
            self.bad(w, props, "run of %s (%s, scheduled %+.3f) started; expected: %s" % (
                r.job, r.kind, r.sched - self.base,
                ", ".join("%s %+.3f" % (q.kind, q.due - self.base) for q in near) or "none"))
            pend = near[0] if near else None
        else:
            # equal due times (concurrent triggers): tell them apart by their environment
            best = [q for q in cand if all(env.get(k) == v for k, v in q.env.items())]
            pend = (best or cand)[0]
            if not best:
                self.bad(w, "D06", "environment of the trigger is missing: %r" % (pend.env,))
        if r.start < r.sched - 1e-6 or now < r.sched - 1e-6:
            self.bad(w, "D03", "run of %s started before its scheduled time" % r.job)
        if not (now - 1.0 <= r.start <= now + 1e-3):
            self.bad(w, {"D03", "D04"}, "START_TIME %.6f is not the time of the start %.6f" % (r.start, now))
        if pend is not None and pend.able is None and not pend.blocked and now - w.last_stall_end / 1e6 > TOL and \
                now > max(pend.hi, self.last_reload) + TOL:
            pass    # reported by tick
        want = [c for c in jc.get("command", [])] if isinstance(jc.get("command"), list) else None
        if want is not None:
            if jc["command_append_run"]:
                want = want + [r.job, r.id]
            if rep["argv"] != want:
                self.bad(w, {"D10", "L01"} if "hup" in self.events else {"L01"},
                         "command line %r, configured %r" % (rep["argv"], want))
        for k, v in jc["environment"].items():
            if pend is not None and k in pend.env:
                continue
            if env.get(k) != str(v):
                self.bad(w, {"D10", "L01"} if "hup" in self.events else {"L01"},
                         "environment %s=%r, configured %r" % (k, env.get(k), v))
        if pend is not None:
            r.data = pend.data
            self.pending.remove(pend)
        else:
            r.data = {}
        self.finish_start(w, p, r, jc, pend)
        if pend is not None and pend.respawn and jc["schedule"]:
            t = next_occurrence(jc, r.start)
            if t is not None:
                self.add_pending(r.job, t, "schedule", True)
        self.recompute(w)

    def finish_start(self, w, p, r, jc, pend):
        r.vpid = p.vpid
        r.cfg = jc
        r.cfg_at = 0.0
        r.limits = [jc["max_execution"]]
        r.graces = [jc["max_execution_grace"]]
        r.term_at = r.kill_at = r.reaped = r.exited = r.ret = None
        r.spec = p.spec
        self.running[p.vpid] = r
        if r.mine:
            self.db_check(w, False)

    def on_exit(self, w, p):
        self.transitions += 1
        self.line_seen = {}
        r = self.running.get(p.vpid)
        if r is None:
            return
        self.log(w, "pid %d ends, status %d" % (p.vpid, p.status))
        ret = p.spec.get("ret")
        if ret and "env" in p.report:
            d = p.report["env"]["RUN_DIR"]
            for fn, raw in ret["files"].items():
                if raw is None:
                    os.mkdir(os.path.join(d, fn))
                    continue
                with open(os.path.join(d, fn), "wb") as f:
                    f.write(raw.encode("utf-8", "surrogateescape") if isinstance(raw, str) else raw)
            r.ret = ret.get("want")

    def on_reap(self, w, p):
        self.transitions += 1
        self.count("reaps")
        self.line_seen = {}
        now = self.now(w)
        self.recompute(w)
        r = self.running.pop(p.vpid, None)
        if r is None:
            return
        self.log(w, "collected pid %d" % p.vpid)
        r.reaped = now
        self.last_end = now
        stall = w.last_stall_end / 1e6
        if r.exited is None and now > max(p.exited_at / 1e6, stall) + TOL:
            self.bad(w, "D04", "run of %s ended at %+.3f and was collected only now"
                     % (r.job, p.exited_at / 1e6 - self.base))
        if r.mine:
            self.done[r.id] = r
        self.recompute(w)

    def on_kill(self, w, p, sig):
        now = self.now(w)
        self.transitions += 1
        r = self.running.get(p.vpid)
        self.log(w, "signal %d sent to pid %d%s" % (sig, p.vpid, " (ended)" if p.zombie else ""))
        if r is None:
            return
        self.count("kills")
        lim = [x for x in r.limits if x is not None]
        over = bool(lim) and now >= r.start + min(lim) - 1e-6
        down = self.shutdown is not None and self.cfg["kill_runs"]
        if sig == 15:
            if r.term_at is not None:
                self.bad(w, {"D08", "D09"}, "run of %s was sent SIGTERM twice" % r.job)
            elif not over and not down:
                self.bad(w, {"D08", "D09"} if self.shutdown is not None else "D08",
                         "run of %s was sent SIGTERM %.3f s after its start without reason" % (r.job, now - r.start))
            r.term_at = now if r.term_at is None else r.term_at
        elif sig == 9:
            if r.kill_at is not None:
                self.bad(w, {"D08", "D09"}, "run of %s was sent SIGKILL twice" % r.job)
            else:
                ok = False
                if r.term_at is not None:
                    if over and now >= r.term_at + min(r.graces) - 1e-6:
                        ok = True
                    if down and self.cfg["grace"] is not None and now >= r.term_at + self.cfg["grace"] - 1e-6:
                        ok = True
                if not ok:
                    self.bad(w, {"D08", "D09"} if self.shutdown is not None else "D08",
                             "run of %s was sent SIGKILL without its grace having passed since SIGTERM" % r.job)
            r.kill_at = now if r.kill_at is None else r.kill_at
        else:
            self.bad(w, "D08", "run of %s was sent signal %d" % (r.job, sig))

    def on_bad_kill(self, w, pid, sig):
        self.bad(w, {"D08", "D09"}, "signal %d sent to pid %d, which is not a run in progress" % (sig, pid))

    def stderr_text(self):
        return self.err.getvalue() if self.err is not None else ""

    def on_deliver(self, w, sig):
        now = self.now(w)
        self.transitions += 1
        self.line_seen = {}
        self.log(w, "signal %d delivered" % sig)
        if sig == 1:
            self.events.add("hup")
            if self.shutdown is None and self.hup_at is None:
                self.hup_at = now
        elif sig in (2, 15):
            self.events.add("shutdown")
            if self.shutdown is None:
                self.shutdown = now
                self.last_end = max(self.last_end, now)
        elif sig == 10:
            self.usr1_at = now
        elif sig == 3:
            if self.shutdown is None or self.running:
                self.count("quits")
                self.quit_at.append((now, [r.id for r in self.running.values()], len(self.stderr_text()),
                                     [p.n for p in self.pending]))

    def on_open(self, w, path, mode, flags):
        if path in self.trig:
            # what is read is what was there at open
            self.opened[path] = (self.trig[path][1], w.now)
        if path == os.path.join(self.etc, "dsari.json") and not (flags or 0) & (os.O_WRONLY | os.O_RDWR):
            if not self.loaded:
                self.loaded = True
                self.model_reload(w, True)
            elif self.hup_at is not None and self.shutdown is None:
                self.hup_at = None
                self.line_seen = {}
                self.model_reload(w)
            elif self.last_reload is not None and self.now(w) - self.last_reload < 0.01:
                self.model_reload(w)

    def on_remove(self, w, path, event="os.remove"):
        t = self.trig.pop(path, None)
        if t is None or event != "os.remove":
            return
        self.transitions += 1
        self.count("triggers")
        self.line_seen = {}
        job, name, at = t
        for fn, o in self.trig.items():
            if o[0] == job:
                # was masked by the one just taken
                self.trig[fn] = (o[0], o[1], max(o[2], self.now(w)))
        o = self.opened.pop(path, None)
        if o is not None and w.now - o[1] < 50000 and o[0] != name:
            # overwritten between being read and being deleted: counts as one trigger
            name = o[0]
        v = self.scen["triggers"][name]
        self.log(w, "trigger %s taken" % name)
        other = os.path.join(os.path.dirname(path), "trigger.json")
        if path != other and other in self.trig and "line" not in self.events:
            self.bad(w, "D06", "trigger.yaml was taken although there was a trigger.json")
        if not self.cfg or job not in self.cfg["jobs"]:
            self.bad(w, {"D06", "D07"}, "trigger of an unconfigured job removed")
            return
        if self.shutdown is not None and self.now(w) > self.shutdown + INFLIGHT:
            return
        if not v.get("usable", True):
            return
        mt = os.stat(path).st_mtime
        due = v["due"] if v.get("due") is not None else mt
        if v.get("due_in") is not None:
            due = mt + v["due_in"]
        data = v["recorded"] if "recorded" in v else v.get("data", {})
        env = v.get("env", {})
        if self.cfg["jobs"][job]["concurrent_runs"]:
            self.add_pending(job, due, "file", False, data, env, exact=True)
        else:
            old = [p for p in self.pending if p.job == job]
            respawn = any(p.respawn for p in old)
            for p in old:
                self.pending.remove(p)
            self.add_pending(job, due, "file", respawn, data, env, exact=True)
        p = self.pending[-1]
        # it cannot start before it was noticed
        p.hi = max(p.hi, self.now(w))
        self.recompute(w)
        p.hi = due

    # random order only matters while something is due
    # ------------------------------------------------------------ the status shown on SIGQUIT
    def status(self):
        """what there is to say"""
        run = {(r.job, r.id) for r in self.running.values()}
        nxt = sorted((p.n, p.job, p.kind, p.due) for p in self.pending) if self.shutdown is None else []
        return run, {(r.job, r.id) for r in self.running.values() if r.group}, nxt

    def settled(self, now):
        """every signal that arrived before has been acted upon"""
        return self.hup_at is None and (self.shutdown is None or now > self.shutdown + TOL)

    def on_status(self, w, kind, f):
        now = self.now(w)
        self.count("status_" + kind)
        if not self.said:
            self.said_of = self.status() if self.settled(now) else None
        elif self.said_of is not None and self.said_of != self.status():
            self.said_of = None
        self.said.append((kind,) + f[:2])
        try:
            self.check_status(w, now, kind, f, lambda msg: self.bad(w, "D12", "the status shown: %s" % msg))
        except (ValueError, TypeError):
            self.bad(w, "D12", "the status shown has %r" % (f,))

    def check_status(self, w, now, kind, f, bad):
        r = next((r for r in self.running.values() if (r.job, r.id) == f[:2]), None)
        if kind in ("running", "group") and r is None:
            bad("run %s of %s (%s), which is not in progress" % (f[1], f[0], kind))
        elif kind == "running":
            if int(f[2]) != r.vpid:
                bad("run of %s with PID %s, it is %d" % (r.job, f[2], r.vpid))
            if abs(moment(f[3]) - r.start) > 1e-3:
                bad("run of %s in progress since %s, it started at %.6f" % (r.job, f[3], r.start))
            if abs(span(f[4]) - (now - r.start)) > 1:
                bad("run of %s in progress for %s, it started %.3f s ago" % (r.job, f[4], now - r.start))
        elif kind == "group":
            if f[2] != r.group:
                bad("run of %s in group %s, it is in %s" % (r.job, f[2], r.group))
            elif self.hup_at is None:
                n = sum(1 for x in self.running.values() if x.group == r.group)
                if int(f[3]) != n:
                    bad("%s runs in group %s, there are %d" % (f[3], r.group, n))
                if r.group in self.cfg["groups"] and int(f[4]) != self.cfg["groups"][r.group]:
                    bad("group %s allows %s, configured %d" % (r.group, f[4], self.cfg["groups"][r.group]))
        elif kind == "next" and self.settled(now):
            if self.shutdown is not None:
                bad("a next run of %s during a shutdown" % f[0])
                return
            due = moment(f[3])
            p = next((p for p in self.pending if p.job == f[0] and p.kind == f[2] and p.due - 1e-3 <= due <= p.hi + 1e-3), None)
            if p is None:
                bad("a next run of %s (%s) at %+.3f; expected: %s" % (f[0], f[2], due - self.base, [
                    (q.kind, round(q.due - self.base, 3)) for q in self.pending if q.job == f[0]]))
            left = -span(f[5]) if f[4] else span(f[5])
            if abs(left - (due - now)) > 1:
                bad("the next run of %s in %s%s, it is due in %.3f s" % (f[0], f[4], f[5], due - now))

    def judge_status(self, w):
        """between two waits: what was said, taken together"""
        said, of = self.said, self.said_of
        self.said, self.said_of = [], None
        if not said or of is None:
            return
        self.count("statuses")
        run, grp, nxt = of
        for kind, want, what in (("running", run, "the runs in progress"), ("group", grp, "the runs in a group")):
            have = {x[1:] for x in said if x[0] == kind}
            if have != want:
                self.bad(w, "D12", "the status shown has %s as %s; expected: %s" % (sorted(have), what, sorted(want)))
        have = sorted(x[1] for x in {x for x in said if x[0] == "next"})
        if have != sorted(x[1] for x in nxt):
            self.bad(w, "D12", "the status shown has next runs of %s; expected: %s" % (have, sorted(x[1] for x in nxt)))

    def relevant(self, seq):
        w = vos.W
        now = self.now(w)
        due = [p for p in self.pending if p.due <= now]
        if not due:
            return False
        ts = [getattr(e, "schedule_time", None) for e in seq]
        if all(t is not None for t in ts):
            return sum(1 for t in ts if t.timestamp() <= now) > 1
        return True

    # ------------------------------------------------------------ events
    def menu(self, w):
        out = []
        for e in self.scen.get("menu", []):
            k = e.split(":")[0]
            lim = self.scen.get("max", {}).get(k)
            if lim is not None and self.used.get(k, 0) >= lim:
                continue
            if k == "exit" and not any(r.job == e.split(":")[1] and not w.procs[r.vpid].zombie
                                       for r in self.running.values()):
                continue
            if k == "touch":
                continue
            out.append(e)
        return out

    def apply(self, w, ev, frame=None):
        self.transitions += 1
        self.count("events")
        self.log(w, "event %s" % ev)
        for e in ev.split("+"):
            k, _, arg = e.partition(":")
            self.used[k] = self.used.get(k, 0) + 1
            if k in SIG:
                if k == "hup" and arg:
                    w.mute = True
                    self.write_config(int(arg))
                    w.mute = False
                w.deliver(SIG[k], frame)
            elif k == "trig":
                w.mute = True
                self.write_trigger(arg, self.now(w))
                w.mute = False
            elif k == "stall":
                w.stall(float(arg))
                self.log(w, "stalled for %s s" % arg)
            elif k == "kill":
                self.db_check(w, False)
                self.events.add("kill")
                if arg:
                    w.mute = True
                    self.write_config(int(arg))
                    w.mute = False
                raise vos.SimKill("killed")
            elif k == "exit":
                job, _, st = arg.partition(":")
                for r in self.running.values():
                    p = w.procs[r.vpid]
                    if r.job == job and not p.zombie:
                        p.exit_at, p.status = w.now, int(st or 0)
                        break
                w.settle()
            elif k == "stray":
                # a process of which the daemon knows nothing became its child (it may be process 1) and ended
                w.stray(int(arg or 0))
            elif k == "unlink":
                for fn in [f for f, t in self.trig.items() if t[0] == arg]:
                    w.mute = True
                    try:
                        os.unlink(fn)
                    except OSError:
                        pass
                    w.mute = False
                    del self.trig[fn]
            else:
                raise ValueError(ev)

    def on_pump(self, w):
        if not self.loaded and self.now(w) - self.base > 5:
            pass
        self.fresh = False
        self.judge_status(w)
        self.tick(w)
        self.db_check(w, True)
        self.snapshot(w)
        menu = self.menu(w)
        if menu:
            i = w.choose(len(menu) + 1, "pump:" + ",".join(menu))
            if i:
                self.apply(w, menu[i - 1])
        for sig in self.scen.get("always", []):
            w.deliver(SIG[sig])

    # ------------------------------------------------------------ line-level events
    def line_event(self, w, frame):
        """called before every traced line (or opcode); offers the line menu where the situation is new"""
        lm = self.scen["line_menu"]
        win = self.scen.get("line_window")
        if win is not None:
            t = self.now(w) - self.base
            if not any(a <= t <= b for a, b in win):
                return
        if self.scen.get("line_after") and not (self.events & set(self.scen["line_after"])):
            return
        mx = self.scen.get("line_max")
        if mx is not None and self.used.get("line", 0) >= mx:
            if not self.scen.get("db_lines") and not self.scen.get("line_hook"):
                self.trace_off = True
            return
        key = []
        f = frame
        while f is not None:
            if f.f_code.co_filename.startswith(LIBDIR):
                key.append((f.f_code.co_name, f.f_lasti))
            f = f.f_back
        key = tuple(key)
        n = self.line_seen.get(key, 0)
        self.line_seen[key] = n + 1
        if n >= self.scen.get("line_cap", 1):
            return
        # a signal only counts once its handler is installed
        if self.scen.get("line_signals", True) and not all(
                callable(w.handlers.get(s)) for s in (1, 2, 3, 15, 10)):
            return
        span = self.scen.get("line_span")
        if span is not None and self.used.get("line", 0):
            self.spanned += 1
            if self.spanned > span:
                return
        i = w.choose(len(lm) + 1, "line:%s:%d:%s" % (frame.f_code.co_name, frame.f_lineno, ",".join(lm)))
        if i:
            self.used["line"] = self.used.get("line", 0) + 1
            self.events.add("line")
            self.log(w, "at %s:%d" % (frame.f_code.co_name, frame.f_lineno))
            self.apply(w, lm[i - 1], frame)

    def line_read(self, w, frame):
        """an outside reader looks at the database whenever its files changed"""
        sig = []
        for fn in (self.db, self.db + "-journal", self.db + "-wal"):
            try:
                s = os.stat(fn)
                sig.append((s.st_size, s.st_mtime_ns))
            except OSError:
                sig.append(None)
        if sig == self.dbsig:
            return
        self.dbsig = sig
        self.count("reads")
        self.db_check(w, False)


LIBDIR = os.path.join(REPO, "dsari") + os.sep


def warm(scen):
    """fill the cache of schedule occurrences before forking"""
    b = epoch(scen["start"])
    for c in scen["configs"]:
        if isinstance(c, str):
            continue
        for j in list(c.get("jobs", {}).values()) + list(c.get("job_groups", {}).values()):
            if isinstance(j, dict) and isinstance(j.get("schedule"), str) and not c.get("_invalid"):
                t = int(b)
                while t < b + scen.get("horizon", 200) + 400:
                    n = next_occurrence(j, t)
                    end = b + scen.get("horizon", 200) + 400 if n is None else min(n, b + 5000)
                    while t < end:
                        _next_cache[(j["schedule"], j.get("schedule_timezone"), t)] = n
                        t += 1


def make_tracer(mon, w, opcodes):
    lines = bool(mon.scen.get("line_menu"))
    reads = bool(mon.scen.get("db_lines"))
    tracer = mon.scen.get("line_hook")

    def local(frame, event, arg):
        if w.in_child or mon.trace_off:
            sys.settrace(None)
            return None
        if event == "line" or event == "opcode":
            if reads:
                mon.line_read(w, frame)
            if tracer:
                getattr(mon, tracer)(w, frame)
            if lines and (event == "opcode") == opcodes:
                mon.line_event(w, frame)
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(LIBDIR) and frame.f_code.co_name != "<module>":
            if opcodes:
                frame.f_trace_opcodes = True
            return local
        return None
    return glob


def incarnation(mon, w):
    """one life of the daemon; returns None (horizon), 'returned', or raises SimKill"""
    import dsari.daemon
    w.handlers = {}
    w.hooks = mon
    vos.W = w
    err = sys.stderr
    sys.stderr = mon.err = Log()
    mon.err.mon = mon
    argv = sys.argv
    sys.argv = ["dsari-daemon", "-c", mon.etc]
    vos.relevant = mon.relevant
    out = None
    try:
        if mon.scen.get("line_menu") or mon.scen.get("db_lines") or mon.scen.get("line_hook"):
            sys.settrace(make_tracer(mon, w, mon.scen.get("opcodes", False)))
        try:
            dsari.daemon.main()
        finally:
            sys.settrace(None)
        out = "returned"
    except vos.Horizon:
        pass
    except vos.Hang as e:
        mon.bad(w, ALL, "no progress: %s" % e)
        out = "hang"
    except (vos.SimKill, vos.Divergence):
        raise
    except BaseException as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if tb and os.path.dirname(tb[-1].filename) == HERE and not isinstance(e, (OSError, SystemExit)) \
                and not (os.path.basename(tb[-1].filename) == "vos.py" and isinstance(e, ValueError)):
            raise HarnessError(traceback.format_exc())
        at = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        mon.bad(w, ALL, "the daemon ended with %s: %s (%s)" % (type(e).__name__, e, at))
        out = "crash"
    finally:
        vos.W = None
        sys.argv = argv
        sys.stderr = err
    return out


def run_scenario(scen, devs):
    """one execution; the explorer calls this in a fresh process"""
    root = os.path.join(scratch_base(), "x%d" % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        return _run_scenario(scen, devs, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def result(mon, chooser, divergence=None):
    return {"trace": chooser.trace, "violations": mon.viol, "states": mon.states, "transitions": mon.transitions,
            "counters": mon.counters, "history": mon.history, "divergence": divergence}


def _life(mon, w):
    try:
        out = incarnation(mon, w)
    except vos.Divergence as e:
        return ("end", result(mon, w.chooser, str(e)))
    if out == "returned":
        mon.tick(w)
        if mon.shutdown is None:
            mon.bad(w, ALL, "the daemon ended by itself")
        if mon.running:
            mon.bad(w, {"D09", "D04"}, "the daemon ended with %d runs in progress" % len(mon.running))
        mon.db_check(w, True)
    elif out is None:
        mon.tick(w)
        mon.db_check(w, True)
    return ("end", result(mon, w.chooser))


def _run_scenario(scen, devs, root):
    chooser = explore.Chooser(devs)
    mon = Monitor(scen, root)
    w = vos.World(root, int(round(mon.base * 1e6)), int(scen.get("grid", 10) * 1e6),
                  int(scen.get("horizon", 200) * 1e6), chooser, mon.spec_for, mon)
    mon.setup()
    if not any("kill" in e for e in scen.get("menu", []) + scen.get("line_menu", [])):
        return _life(mon, w)[1]
    # lives in processes of their own: a kill runs no cleanup code
    while True:
        r, wr = os.pipe()
        pid = vos.real.fork()
        if pid == 0:
            try:
                os.close(r)

                def die(self, why):
                    world = vos.W
                    vos.W = None
                    world.handlers = {}
                    send(wr, ("killed", mon, world))
                mon_die[0] = die
                try:
                    out = _life(mon, w)
                except vos.SimKill as e:
                    # default action of a signal
                    w.handlers = {}
                    out = ("killed", mon, w)
                except BaseException:
                    import traceback
                    out = ("end", {"harness_error": traceback.format_exc()})
                send(wr, out)
            finally:
                vos.real._exit(0)
        os.close(wr)
        with os.fdopen(r, "rb") as f:
            blob = f.read()
        vos.real.waitpid(pid, 0)
        got = pickle.loads(blob)
        if got[0] == "end":
            return got[1]
        _, mon, w = got
        restart(mon, w)


mon_die = [None]


def send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    while data:
        n = os.write(fd, data)
        data = data[n:]
    vos.real._exit(0)


def restart(mon, w):
    """the state of the world after the daemon's death and before its next start"""
    for p in w.procs.values():
        p.orphan = True
    w.now += 1000000
    while w.next_grid <= w.now:
        w.next_grid += w.grid_us
    w.last_stall_end = w.now
    w.in_pump = False
    w.uuid_base += 1
    w.reads = 0
    mon.restarts += 1
    mon.killed = True
    mon.loaded = False
    mon.cfg = None
    mon.pending = []
    # a run that was collected but not yet recorded when the daemon died is lost; that is not a violation
    for i in list(mon.done):
        if i not in mon.recorded:
            mon.maybe[i] = mon.done.pop(i)
    mon.running = {}
    mon.hup_at = mon.usr1_at = None
    mon.quit_at = []
    mon.shutdown = None
    mon.log(w, "the daemon is started again")
    now = w.now / 1e6
    for fn, (job, v, at) in list(mon.trig.items()):
        mon.trig[fn] = (job, v, now)
    mon.line_seen = {}


_old_apply = Monitor.apply


def apply(self, w, ev, frame=None):
    try:
        return _old_apply(self, w, ev, frame)
    except vos.SimKill as e:
        if mon_die[0] is not None:
            mon_die[0](self, e.why)
        raise


Monitor.apply = apply
