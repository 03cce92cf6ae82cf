"""L01, L02, L03: what a run's process is given, and how its end is recorded.

The real daemon runs under the virtual OS (vos): its forked child is real up to the exec call, where argv, environment,
directory, descriptors, signal dispositions and process group are reported instead of executing.  States are
(configuration, trigger, history of completed runs); every combination within the bounds is executed and the report is
compared with an independent computation.  L02 additionally runs real processes under the real daemon.
"""
import os, sys, io, json, fcntl, itertools, time, shutil, signal, pickle, traceback, subprocess, sqlite3, pwd, shlex

import vos, sweep, cli, explore
import daemonmc as d
import dsari.daemon, dsari.config, dsari.database
import yaml, logging     # noqa: F401  loaded before forking

EVERY = "* * * * * 0"
START = d.epoch("2020-02-03T10:00:30.4")


def isolated(fn, *a):
    """in a process of its own"""
    r, w = os.pipe()
    pid = vos.real.fork()
    if pid == 0:
        try:
            os.close(r)
            hi = fcntl.fcntl(w, fcntl.F_DUPFD_CLOEXEC, 500)     # out of the way of the descriptors a scenario opens
            os.close(w)
            w = hi
            try:
                out = ("ok", fn(*a))
            except BaseException:
                out = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            vos.real._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        blob = f.read()
    vos.real.waitpid(pid, 0)
    k, v = pickle.loads(blob)
    if k == "error":
        raise RuntimeError(v)
    return v


class Hooks(vos.NullHooks):
    def __init__(self, spec, events):
        self.spec, self.events, self.starts, self.problems = spec, sorted(events, key=lambda e: e[0]), [], []

    def spec_for(self, report, p):
        return self.spec(report, len(self.starts))

    def on_start(self, w, p):
        self.starts.append({"at": w.now / 1e6, "report": p.report, "vpid": p.vpid, "reaped": None, "exited": None, "status": p.status})

    def on_exit(self, w, p):
        for s in self.starts:
            if s["vpid"] == p.vpid:
                s["exited"] = p.exited_at / 1e6

    def on_reap(self, w, p):
        for s in self.starts:
            if s["vpid"] == p.vpid:
                s["reaped"] = w.now / 1e6

    def on_bad_kill(self, w, pid, sig):
        self.problems.append("the daemon sends signal %s to %s" % (sig, pid))

    def on_pump(self, w):
        while self.events and self.events[0][0] <= w.now / 1e6:
            self.events.pop(0)[1](w)


def life(root, spec, events=(), start=START, horizon=70.0, env=None, fds=(), uuid_base=0, grid=5.0, before=None):
    """one life of the daemon on root/etc, root/var until the horizon; returns its starts"""
    os.chdir("/")
    hooks = Hooks(spec, events)
    w = vos.World(root, int(round(start * 1e6)), int(grid * 1e6), int(horizon * 1e6), explore.Chooser({}), hooks.spec_for, hooks, uuid_base)
    if env is not None:
        os.environ.clear()
        os.environ.update(env)
    fd = os.open("/dev/zero", os.O_RDONLY)      # what the daemon itself was given to read
    os.dup2(fd, 0, inheritable=True)
    if fd != 0:
        os.close(fd)
    for n in fds:
        fd = os.open("/dev/null", os.O_RDWR)
        os.dup2(fd, n, inheritable=True)
        if fd != n:
            os.close(fd)
    if before:
        before()
    vos.W = w
    err, argv = sys.stderr, sys.argv
    sys.stderr = io.StringIO()
    sys.argv = ["dsari-daemon", "-c", os.path.join(root, "etc")]
    out = "ended"
    try:
        dsari.daemon.main()
    except vos.Horizon:
        out = None
    except BaseException as e:
        if w.in_child:
            try:
                os.write(2, traceback.format_exc().encode("utf-8", "replace"))
            except OSError:
                pass
            w.child_report({"error": "no exec: %s: %s" % (type(e).__name__, e), "failed": True})
        out = "%s: %s (%s)" % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1][:3])
    finally:
        if w.in_child:
            w.child_escaped("return")
        vos.W = None
        sys.stderr, sys.argv = err, argv
    if out:
        hooks.problems.append("the daemon ended: %s" % out)
    return {"starts": hooks.starts, "problems": hooks.problems}


def mtime(path, t):
    ns = int(round(t * 1e6)) * 1000
    os.utime(path, ns=(ns, ns))


def trigger(root, job, data, name="trigger.json", usr1=True):
    def f(w):
        p = os.path.join(root, "var", "trigger", job, name)
        raw = json.dumps(data)
        cli.write(p + "~", raw)
        mtime(p + "~", w.now / 1e6)
        os.replace(p + "~", p)
        if usr1:
            w.deliver(signal.SIGUSR1)
    return f


def rows(root):
    c = sqlite3.connect(os.path.join(root, "var", "dsari.sqlite3"))
    c.row_factory = sqlite3.Row
    try:
        return [dict(r) for r in c.execute("SELECT * FROM runs")]
    finally:
        c.close()


def root_with(cfg):
    root = cli.fresh("L")
    os.makedirs(os.path.join(root, "var"))
    cli.write(os.path.join(root, "etc", "dsari.json"), json.dumps(dict({"data_dir": os.path.join(root, "var")}, **cfg)))
    return root


# ---------------------------------------------------------------------------------------------------------- L01
DAEMON_ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "MAILNAME": "leak", "LD_X": "leak", "PWD": "/leak", "JOB_NAME": "leak", "SHELL": "/bin/leak",
              "CONCURRENCY_GROUP": "leak", "PREVIOUS_RUN_ID": "leak", "JOB_GROUP": "leak", "BUILD_ID": "leak", "HOME": None, "DSARI_HOME": None}


def is_dir(p):
    return isinstance(p, str) and os.path.isdir(p)


def expect_env(root, cfg, name, jc, group, trig, st, daemon_env, known_user, conc, prev):
    """the documented environment"""
    rep = st["report"]
    var = os.path.join(root, "var")
    rid = st["id"]
    rd = os.path.join(var, "runs", name, rid)
    e = {"CI": "true", "DSARI": "true", "DATA_DIR": var, "JOB_NAME": name, "JOB_DIR": os.path.join(var, "runs", name), "RUN_ID": rid, "RUN_DIR": rd,
         "TRIGGER_TYPE": "file" if trig is not None else "schedule", "TRIGGER_DIR": os.path.join(var, "trigger"), "PATH": daemon_env.get("PATH", "/usr/bin:/bin"),
         "SCHEDULE_TIME": st["sched"], "START_TIME": st["start"]}
    if known_user:
        u = pwd.getpwuid(os.getuid())
        e["LOGNAME"], e["HOME"] = u.pw_name, u.pw_dir
    if conc:
        e["CONCURRENCY_GROUP"] = conc
    if group:
        e["JOB_GROUP"] = group
    if jc.get("jenkins_environment"):
        e.update({"BUILD_ID": rid, "BUILD_NUMBER": rid, "BUILD_TAG": "dsari-%s-%s" % (name, rid), "BUILD_URL": "file://%s/" % rd, "EXECUTOR_NUMBER": "0",
                  "JENKINS_URL": "file://%s/" % var, "NODE_NAME": "master", "WORKSPACE": rd})
    e.update(prev)
    for layer in (cfg.get("environment", {}), jc.get("environment", {}), (trig or {}).get("environment", {})):
        for k, v in layer.items():
            e[str(k)] = str(v)
    e["PWD"] = e["PWD"] if is_dir(e.get("PWD")) else rd
    return e


def compare_env(got, want):
    out = []
    for k in sorted(set(got) | set(want)):
        g, w = got.get(k), want.get(k)
        if isinstance(w, float):
            try:
                if abs(float(g) - w) > 2e-6:
                    out.append("%s=%r, expected %r" % (k, g, w))
            except (TypeError, ValueError):
                out.append("%s=%r, expected %r" % (k, g, w))
        elif g != w:
            out.append("%s=%r, expected %r" % (k, g, w) if k in got and k in want else "%s=%r is %s" % (k, g if k in got else w, "not documented" if k in got else "missing"))
    return out


def analyse(root, cfg, st, jobs, trigs, daemon_env, known_user, prev, out_content=None):
    """compare one start with the documentation; returns a list of differences"""
    rep = st["report"]
    if "error" in rep:
        return ["its process %s" % rep["error"]]
    out = []
    o = rep["fds"].get("1", "")
    parts = os.path.relpath(o, os.path.join(root, "var", "runs")).split("/")
    if len(parts) != 3 or parts[2] != "output.txt" or parts[0] not in jobs:
        return ["standard output is %r" % o]
    name, st["id"] = parts[0], parts[1]
    st["job"] = name
    jc, group = jobs[name]
    db = {r["run_id"]: r for r in st["rows"]}
    r = db.get(st["id"])
    if r is None:
        return ["run %r is not recorded" % st["id"]]
    st["sched"], st["start"] = r["schedule_time"], r["start_time"]
    trig = trigs.get(name) if r["trigger_type"] == "file" else None
    env = rep["env"]
    conc = None
    if jc.get("concurrency_groups"):
        conc = env.get("CONCURRENCY_GROUP")
        if conc not in jc["concurrency_groups"] and not any("CONCURRENCY_GROUP" in l for l in (cfg.get("environment", {}), jc.get("environment", {}), (trig or {}).get("environment", {}))):
            out.append("CONCURRENCY_GROUP is %r" % conc)
        conc = conc if conc in jc["concurrency_groups"] else jc["concurrency_groups"][0]
    want = expect_env(root, cfg, name, jc, group, trig, st, daemon_env, known_user, conc, prev)
    out += compare_env(env, want)
    cmd = jc["command"]
    cmd = list(cmd) if isinstance(cmd, list) else shlex.split(cmd)
    if jc.get("command_append_run"):
        cmd = cmd + [name, st["id"]]
    if rep["argv"] != cmd:
        out.append("command line %r, configured %r" % (rep["argv"], cmd))
    if "/" in cmd[0] and rep["path"] != cmd[0]:
        out.append("executes %r, configured %r" % (rep["path"], cmd[0]))
    if "/" not in cmd[0]:
        ok = [os.path.join(p, cmd[0]) for path in (want["PATH"], daemon_env.get("PATH", "/usr/bin:/bin")) for p in path.split(":")]
        first = [p for p in ok if os.access(p, os.X_OK)]
        if rep["path"] not in first:
            out.append("executes %r, found %r" % (rep["path"], first))
    if os.path.realpath(rep["cwd"]) != os.path.realpath(want["PWD"]):
        out.append("runs in %r, expected %r" % (rep["cwd"], want["PWD"]))
    rd = os.path.join(root, "var", "runs", name, st["id"])
    if not os.path.isdir(rd):
        out.append("its run directory does not exist")
    if set(rep["fds"]) != {"0", "1", "2"}:
        out.append("inherits descriptors %r" % rep["fds"])
    if rep["fds"].get("0") != "/dev/null" or (rep["acc"]["0"] & os.O_ACCMODE) == os.O_WRONLY:
        out.append("standard input is %r" % rep["fds"].get("0"))
    if rep["fds"].get("2") != o or not rep["same"]:
        out.append("standard error is %r, output %r" % (rep["fds"].get("2"), o))
    if (rep["acc"]["1"] & os.O_ACCMODE) == os.O_RDONLY or (rep["acc"]["2"] & os.O_ACCMODE) == os.O_RDONLY:
        out.append("output streams are not writable")
    try:
        with open(os.path.join(rd, "output.txt"), "rb") as f:
            s = f.read()
        if sorted(s) != sorted(b"OE"):
            out.append("one byte to each stream leaves %r in output.txt" % s[:200])
    except OSError as e:
        out.append("no output.txt: %s" % e)
    for s in ("HUP", "INT", "TERM", "QUIT", "PIPE", "USR1"):
        if rep["disp"].get(str(int(getattr(signal, "SIG" + s)))) == "ign":
            out.append("SIG%s is ignored" % s)
    if rep["mask"]:
        out.append("signals %s are blocked" % rep["mask"])
    if not rep["pgid_leader"]:
        out.append("does not lead a process group of its own")
    return out


def spec_short(report, n):
    return {"dur": 3, "status": 0}


def scenario_l01(sc):
    root = root_with(sc["cfg"])
    real_pwd = pwd.getpwuid

    def before():
        if not sc.get("known_user", True):
            def unknown(uid):
                raise KeyError("uid not found")
            pwd.getpwuid = unknown
        for s in sc.get("ignored", ()):
            vos.W = None
            vos.real.sig_signal(s, signal.SIG_IGN)
    env = {k: v for k, v in dict(DAEMON_ENV, **sc.get("denv", {})).items() if v is not None}
    trigs = sc.get("triggers", {})
    events = []
    for i, (j, t) in enumerate(sorted(trigs.items())):
        if t is not None:
            events.append((START + 5 + 5 * i, trigger(root, j, t, usr1=False)))
    if events:
        events.append((START + 5 + 5 * len(events), lambda w: w.deliver(signal.SIGUSR1)))
    for p in sc.get("dirs", ()):
        os.makedirs(os.path.join(root, p), exist_ok=True)
    res = life(root, sc.get("spec", spec_short), events, env=env, fds=sc.get("fds", ()), before=before, horizon=sc.get("horizon", 50.0))
    pwd.getpwuid = real_pwd
    res["root"] = root
    res["rows"] = rows(root)
    c = sqlite3.connect(os.path.join(root, "var", "dsari.sqlite3"))
    c.row_factory = sqlite3.Row
    res["rows"] += [dict(r) for r in c.execute("SELECT * FROM runs_running")]
    c.close()
    return res


def jobs_of(cfg):
    out = {n: (j, j.get("job_group")) for n, j in cfg.get("jobs", {}).items()}
    for g, j in cfg.get("job_groups", {}).items():
        for n in j["job_names"]:
            out[n] = (j, g)
    return out


def l01_one(sc, rec):
    rec.state(json.dumps(sc, sort_keys=True, default=str))
    res = isolated(scenario_l01, sc)
    jobs = jobs_of(sc["cfg"])
    trigs = {k: v for k, v in sc.get("triggers", {}).items() if v is not None}
    denv = {k: v for k, v in dict(DAEMON_ENV, **sc.get("denv", {})).items() if v is not None}
    errs = list(res["problems"])
    seen = {}
    for st in res["starts"]:
        st["rows"] = res["rows"]
        rec.step()
        prev = {}
        o = st["report"].get("fds", {}).get("1", "").split("/")
        job = o[-3] if len(o) > 3 else "?"
        mine = [s for s in seen.get(job, []) if s["reaped"] and s["reaped"] < st["at"]]
        for kind, cand in (("", mine), ("GOOD_", [s for s in mine if s["status"] == 0]), ("BAD_", [s for s in mine if s["status"] != 0])):
            if cand:
                last = max(cand, key=lambda s: s["reaped"])
                row = {r["run_id"]: r for r in res["rows"]}[last["id"]]
                prev.update({"PREVIOUS_%sRUN_ID" % kind: last["id"], "PREVIOUS_%sSCHEDULE_TIME" % kind: row["schedule_time"], "PREVIOUS_%sSTART_TIME" % kind: row["start_time"],
                             "PREVIOUS_%sSTOP_TIME" % kind: row["stop_time"], "PREVIOUS_%sEXIT_CODE" % kind: str(row["exit_code"])})
        e = analyse(res["root"], sc["cfg"], st, jobs, trigs, denv, sc.get("known_user", True), prev)
        if e:
            errs.append("start %d (%s): %s" % (len(seen), st.get("job"), "; ".join(e[:4])))
        seen.setdefault(st.get("job"), []).append(st)
    n = sc.get("starts")
    got = sorted(st.get("job") or "?" for st in res["starts"])
    if n is not None and set(got) != set(n):
        errs.append("started %r, expected %r" % (got, sorted(n)))
    if errs:
        rec.bad("launch", "%s: %s" % (json.dumps(sc, sort_keys=True, default=str)[:700], errs[0]))
        return False
    rec.trace()
    return True


VARS = ["PATH", "PWD", "RUN_ID", "HOME", "LOGNAME", "CI", "X_CUSTOM", "BUILD_ID", "TRIGGER_TYPE", "CONCURRENCY_GROUP", "JOB_GROUP", "START_TIME", "DATA_DIR", "PREVIOUS_RUN_ID", "RUN_DIR", "JOB_NAME", "MAILNAME"]
PWDS = ["/", "/tmp", "/nonexistent/dir", "/etc/passwd", "", "DIR"]
COMMANDS = [["/bin/true"], ["/bin/true", "", " ", "a b", "'q'", "\"", "$HOME", "*", "\u00e9", "\n", "--", "-x"], "/bin/true 'a b' \"c d\" e\\ f ''", "true x", ["/bin/sh", "-c", "exit 0"], ["true"]]
VALUES = ["v", "", "a=b", " sp ace ", "\u00e9\u20ac", "line\nbreak", "$HOME", 5, 1.5, -3]


def value(var, layer):
    return {"PATH": "/usr/bin:/bin:/%s" % layer, "PWD": "/", "START_TIME": "%s" % layer}.get(var, "%s of %s" % (var, layer))


def l01_scenarios(th):
    S = []

    def add(**sc):
        sc["known_user"] = sc.get("known_user", True)
        S.append(sc)
    base = {"command": ["/bin/true"], "schedule": EVERY}
    # every variable in every subset of the layers
    for v in VARS:
        for layers in itertools.product([0, 1], repeat=3):
            job = dict(base, environment={v: value(v, "job")} if layers[1] else {})
            cfg = {"jobs": {"a": job}}
            if layers[0]:
                cfg["environment"] = {v: value(v, "global"), "G": 1}
            t = {"x": 1}
            if layers[2]:
                t["environment"] = {v: value(v, "trigger")}
            add(cfg=cfg, triggers={"a": t}, starts=["a"])
            if th or v in ("PATH", "PWD", "X_CUSTOM", "BUILD_ID", "JOB_GROUP"):
                cfg = dict(cfg, jobs={"a": dict(job, jenkins_environment=True, job_group="grp", concurrency_groups=["g1"])})
                add(cfg=cfg, triggers={"a": t}, starts=["a"])
    # working directories
    for layer in ("global", "job", "trigger", "job and trigger"):
        for p in PWDS:
            job, cfg, t = dict(base), {}, {}
            q = "/tmp" if p == "DIR" else p
            if layer == "global":
                cfg["environment"] = {"PWD": q}
            if layer.startswith("job"):
                job["environment"] = {"PWD": q if layer == "job" else "/usr"}
            if layer.endswith("trigger"):
                t["environment"] = {"PWD": q}
            add(cfg=dict(cfg, jobs={"a": job}), triggers={"a": t}, starts=["a"])
    # options
    for app, jen, grp, cg, trg in itertools.product([False, True], [False, True], [None, "grp"], [None, ["g1"], ["g1", "g2"]], [False, True]):
        job = dict(base, command_append_run=app, jenkins_environment=jen)
        if grp:
            job["job_group"] = grp
        if cg:
            job["concurrency_groups"] = cg
        add(cfg={"jobs": {"a": job}}, triggers={"a": {}} if trg else {}, starts=["a"])
        j2 = {k: v for k, v in job.items() if k != "job_group"}
        add(cfg={"job_groups": {"jg": dict(j2, job_names=["a", "b 1"])}}, triggers={"a": {"environment": {"A": "1"}}} if trg else {}, starts=["a", "b 1"])
    for c in COMMANDS:
        for app in (False, True):
            add(cfg={"jobs": {"a": dict(base, command=c, command_append_run=app), "x.y:z@+": dict(base, command=c, command_append_run=not app)}}, triggers={"a": {}}, starts=["a", "x.y:z@+"])
    # values
    for val in VALUES:
        for layer in range(3):
            cfg = {"jobs": {"a": dict(base)}}
            t = {}
            if layer == 0:
                cfg["environment"] = {"V": val, "W ": val}
            elif layer == 1:
                cfg["jobs"]["a"]["environment"] = {"V": val, "lower_case": val}
            else:
                t["environment"] = {"V": val, "a-b.c": val}
            add(cfg=cfg, triggers={"a": t}, starts=["a"])
    # the daemon's own surroundings
    for denv in ({"PATH": None}, {"PATH": "/bin"}, {"PATH": ""}, {"PATH": "/usr/bin:/bin", "LANG": "leak", "TZ": "UTC"}):
        for known in (True, False):
            if denv.get("PATH", "x") == "" and not th:
                continue
            add(cfg={"jobs": {"a": dict(base), "b": dict(base, environment={"HOME": "/h"})}}, denv=denv, known_user=known, starts=["a", "b"])
    for fds in ((5,), (3, 4, 5, 6, 7, 8, 9, 10), (200,), (1000, 1023), tuple(range(3, 60))):
        add(cfg={"jobs": {"a": dict(base), "b": dict(base)}}, fds=list(fds), starts=["a", "b"])
    for sigs in ((signal.SIGHUP,), (signal.SIGINT, signal.SIGQUIT), (signal.SIGPIPE,), (signal.SIGTERM,), (signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGPIPE, signal.SIGUSR1)):
        add(cfg={"jobs": {"a": dict(base)}}, ignored=[int(s) for s in sigs], starts=["a"])
    # later runs, runs of several jobs: nothing leaks from one to another
    opts = [{}, {"command_append_run": True}, {"environment": {"A": "a", "PATH": "/usr/bin:/bin:/x"}}, {"jenkins_environment": True, "environment": {"PWD": "/"}}, {"concurrency_groups": ["g"], "job_group": "q"},
            {"concurrent_runs": True, "command_append_run": True}]
    for x, y in itertools.product(range(len(opts)), repeat=2):
        for t in ({}, {"environment": {"T": "t", "PWD": "/tmp", "A": "tt"}}):
            ja, jb = dict(base, **opts[x]), dict(base, command=["/bin/echo", "b"], **opts[y])
            ja["schedule"] = "* * * * * 0,20,40"
            add(cfg={"jobs": {"a": ja, "b": dict(jb, schedule="* * * * * 10,30")}, "environment": {"GLOBAL": "g"}}, triggers={"b": t} if t else {}, horizon=75.0)
    return S


def l01_unit(unit, rec):
    for sc in unit:
        if not l01_one(sc, rec):
            return
    rec.sample(scenario=sc)


MISSING = [["/nonexistent/program"], ["nonexistent-program"], ["/etc/passwd"], ["/"], [""]]


def l01_fail(unit, rec):
    """a command which cannot be executed: the run fails, nothing else happens"""
    cmd, append = unit
    cfg = {"jobs": {"a": {"command": cmd, "schedule": EVERY, "command_append_run": append}, "b": {"command": ["/bin/true"], "schedule": "* * * * * 10"}}}
    sc = {"cfg": cfg, "horizon": 110.0, "starts": []}
    rec.state(unit)
    res = isolated(scenario_l01, sc)
    rec.step(len(res["starts"]))
    rec.trace()
    errs = list(res["problems"])
    for st in res["starts"]:
        rep = st["report"]
        if "error" in rep and (rep.get("escaped") or not rep.get("failed")):
            errs.append("its process %s" % rep["error"])
    by = {}
    for r in res["rows"]:
        by.setdefault(r["job_name"], []).append(r.get("exit_code"))
    if len(by.get("b", [])) != 2 or any(x != 0 for x in by["b"]):
        errs.append("runs of the other job are recorded as %r" % by.get("b"))
    if len(by.get("a", [])) != 2 or any(not x for x in by["a"]):
        errs.append("runs are recorded as %r" % by.get("a"))
    if errs:
        rec.bad("no such command", "command %r: %s" % (cmd, errs[0]))


def l01(c):
    th = c.tier == "thorough"
    S = l01_scenarios(th)
    units = [("launch", S[i:i + 10]) for i in range(0, len(S), 10)]
    units += [("fail", (m, a)) for m in MISSING for a in (False, True)]
    units += [("real", (k,)) for k in range(2)]
    fn = {"launch": l01_unit, "fail": l01_fail, "real": l01_real}
    tot = sweep.sweep(units, lambda u, r: fn[u[0]](u[1], r), c.wall(250, 3400))
    return sweep.finish(c, tot, "%d configurations: %d variables in every subset of the three layers, working directories, every combination of the options which affect launching, "
                        "commands, values, surroundings of the daemon (PATH, user, descriptors, ignored signals), pairs of jobs over several runs; commands which cannot be executed; "
                        "each executed up to exec under the virtual OS, and a selection with real processes" % (len(S), len(VARS)),
                        ["exec itself is the kernel's", "fewer than 1024 descriptors are open in the daemon"], units=len(units))


# --------------------------------------------------------------------------------------------- the real daemon
class Real:
    """dsari-daemon as a real process with real children, in a scratch directory"""

    def __init__(self, cfg, env=None):
        self.root = root_with(cfg)
        e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": self.root, "DSARI_HOME": self.root, "PYTHONPATH": os.path.dirname(os.path.dirname(os.path.abspath(dsari.__file__))),
             "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "LANG": "C.UTF-8", "LEAK": "leak"}
        e.update(env or {})
        self.log = open(os.path.join(self.root, "log"), "wb")
        self.p = subprocess.Popen([sys.executable, "-c", "import sys; from dsari.daemon import main; sys.exit(main())", "-c", os.path.join(self.root, "etc")],
                                  env=e, stdin=open("/dev/zero"), stdout=self.log, stderr=self.log, start_new_session=True)

    def wait_db(self, sql, want, seconds=40):
        end = vos.real.time() + seconds
        while vos.real.time() < end and self.p.poll() is None:
            try:
                c = sqlite3.connect("file:%s?mode=ro" % os.path.join(self.root, "var", "dsari.sqlite3"), uri=True, timeout=5)
                try:
                    if c.execute(sql).fetchone()[0] >= want:
                        return True
                finally:
                    c.close()
            except sqlite3.Error:
                pass
            vos.real.sleep(0.05)
        return False

    def ready(self, seconds=30):
        """signal handlers are installed once the database exists and the first triggers were looked for"""
        end = vos.real.time() + seconds
        while vos.real.time() < end and self.p.poll() is None:
            try:
                with open("/proc/%d/status" % self.p.pid) as f:
                    m = [l for l in f if l.startswith("SigCgt:")][0]
                if int(m.split()[1], 16) & (1 << (signal.SIGUSR1 - 1)) and int(m.split()[1], 16) & (1 << (signal.SIGTERM - 1)):
                    return True
            except OSError:
                pass
            vos.real.sleep(0.02)
        return False

    def stop(self):
        try:
            if self.p.poll() is None:
                self.p.send_signal(signal.SIGTERM)
            try:
                self.p.wait(20)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
        finally:
            self.log.close()

    def text(self):
        with open(os.path.join(self.root, "log"), "rb") as f:
            return f.read().decode("utf-8", "replace")[-600:]


def l01_real(unit, rec):
    """a real child reports what it sees (validates what the virtual OS reports)"""
    (k,) = unit
    code = ("import os,sys,json,signal\n"
            "print(json.dumps({'argv': sys.argv[1:], 'env': dict(os.environ), 'cwd': os.getcwd(), 'fds': sorted(int(x) for x in os.listdir('/proc/self/fd') if os.path.exists('/proc/self/fd/' + x)),"
            " 'pg': os.getpgid(0) == os.getpid() or os.getpgid(0), 'in': os.readlink('/proc/self/fd/0'), 'sig': open('/proc/self/status').read()}))\n"
            "sys.stdout.flush()\nsys.stderr.write('END')\n")
    cfg = {"jobs": {"a": {"command": ["/usr/bin/python3", "-S", "-E", "-c", code, "arg 1"], "command_append_run": bool(k), "environment": {"A": "job"}, "jenkins_environment": bool(k)}}}
    r = Real(cfg)
    try:
        if not r.ready():
            rec.bad("real daemon", "the real daemon does not start: %s" % r.text())
            return
        cli.write(os.path.join(r.root, "var", "trigger", "a", "trigger.json~"), json.dumps({"environment": {"T": "t"}}))
        os.rename(os.path.join(r.root, "var", "trigger", "a", "trigger.json~"), os.path.join(r.root, "var", "trigger", "a", "trigger.json"))
        r.p.send_signal(signal.SIGUSR1)
        if not r.wait_db("SELECT count(*) FROM runs", 1):
            rec.bad("real daemon", "a triggered run is not recorded: %s" % r.text())
            return
    finally:
        r.stop()
    row = rows(r.root)[0]
    rd = os.path.join(r.root, "var", "runs", "a", row["run_id"])
    with open(os.path.join(rd, "output.txt")) as f:
        out = f.read()
    rec.state(unit)
    rec.step()
    rec.trace()
    errs = []
    try:
        if not out.endswith("}\nEND"):
            errs.append("output is %r" % out[-200:])
        got = json.loads(out[:out.rindex("}") + 1])
        want = expect_env(r.root, cfg, "a", cfg["jobs"]["a"], None, {"environment": {"T": "t"}}, {"id": row["run_id"], "sched": row["schedule_time"], "start": row["start_time"], "report": None},
                          {"PATH": "/usr/local/bin:/usr/bin:/bin"}, True, None, {})
        env = {x: y for x, y in got["env"].items() if x not in ("LC_CTYPE",)}
        errs += compare_env(env, want)
        if got["cwd"] != rd:
            errs.append("cwd %r" % got["cwd"])
        if got["argv"] != ["arg 1"] + (["a", row["run_id"]] if k else []):
            errs.append("argv %r" % got["argv"])
        if set(got["fds"]) - {0, 1, 2}:
            errs.append("descriptors %r" % got["fds"])
        if got["pg"] is not True:
            errs.append("process group %r" % got["pg"])
        if got["in"] != "/dev/null":
            errs.append("stdin %r" % got["in"])
        ign = int([l for l in got["sig"].split("\n") if l.startswith("SigIgn")][0].split()[1], 16)
        blk = int([l for l in got["sig"].split("\n") if l.startswith("SigBlk")][0].split()[1], 16)
        for s in ("HUP", "INT", "TERM", "QUIT", "USR1"):
            if (ign | blk) & (1 << (getattr(signal, "SIG" + s) - 1)):
                errs.append("SIG%s is ignored or blocked" % s)
        if row["exit_code"] != 0:
            errs.append("exit code %r" % row["exit_code"])
    except (ValueError, KeyError, IndexError) as e:
        errs.append("%r in %r" % (e, out[-500:]))
    if errs:
        rec.bad("real launch", "real process: %s" % "; ".join(errs[:4]))


# ---------------------------------------------------------------------------------------------------------- L02
def statuses():
    return [(n << 8, n) for n in range(256)] + [(s | core, 128 + s) for s in list(range(1, 32)) + list(range(34, 65)) for core in (0, 0x80)]


def scenario_l02(unit):
    root = root_with({"jobs": {"a": {"command": ["/bin/true"], "schedule": "* * * * * *"}}})
    res = life(root, lambda rep, n: {"dur": 0.2, "status": unit[n % len(unit)][0]}, horizon=len(unit) + 3.0)
    res["rows"] = rows(root)
    r = cli.info(os.path.join(root, "etc"), "run", "list", "--format", "json")
    res["listed"] = {k: v["exit_code"] for k, v in json.loads(r.out).items() if v["stop_time"]} if r.rc == 0 else None
    return res


def l02_unit(unit, rec):
    res = isolated(scenario_l02, unit)
    for p in res["problems"]:
        rec.bad("daemon", p)
        return
    db = {r["run_id"]: r["exit_code"] for r in res["rows"]}
    prev = None
    for n, st in enumerate(res["starts"]):
        status, want = unit[n % len(unit)]
        rec.state(status)
        rec.step()
        if "error" in st["report"]:
            rec.bad("child", st["report"]["error"])
            return
        env = st["report"]["env"]
        if prev is not None and env.get("PREVIOUS_EXIT_CODE") != str(prev[1]):
            rec.bad("exit code", "a run that ended with wait status %#x is reported to the next run as PREVIOUS_EXIT_CODE=%s, expected %d" % (prev[0], env.get("PREVIOUS_EXIT_CODE"), prev[1]))
            return
        prev = (status, want)
        if st["reaped"] is None:
            continue
        i = env["RUN_ID"]
        if db.get(i) != want or (res["listed"] or {}).get(i) != want:
            rec.bad("exit code", "a run that ended with wait status %#x is recorded with exit code %r and listed with %r, expected %d" % (status, db.get(i), (res["listed"] or {}).get(i), want))
            return
        rec.trace()
    if len([s for s in res["starts"] if s["reaped"]]) < len(unit):
        rec.bad("runs", "only %d of %d runs were collected" % (len([s for s in res["starts"] if s["reaped"]]), len(unit)))


def l02_real(unit, rec):
    """real processes under the real daemon"""
    kind, values, core = unit
    jobs = {}
    for v in values:
        name = "%s%d" % (kind, v)
        if kind == "exit":
            cmd, want = ["/bin/sh", "-c", "exit %d" % v], v
        elif kind == "sig":
            cmd, want = ["/usr/bin/python3", "-S", "-E", "-c", "import os,signal,resource\nresource.setrlimit(resource.RLIMIT_CORE, (%d, resource.getrlimit(resource.RLIMIT_CORE)[1]))\n"
                         "if %d not in (9, 19): signal.signal(%d, signal.SIG_DFL)\nos.kill(os.getpid(), %d)\nimport time; time.sleep(30)" % (0 if not core else 1 << 16, v, v, v)], 128 + v
        jobs[name] = ({"command": cmd}, want)
    r = Real({"jobs": {n: j for n, (j, _) in jobs.items()}})
    try:
        if not r.ready():
            rec.bad("real daemon", "the real daemon does not start: %s" % r.text())
            return
        for n in jobs:
            p = os.path.join(r.root, "var", "trigger", n, "trigger.json")
            cli.write(p + "~", "{}")
            os.rename(p + "~", p)
        r.p.send_signal(signal.SIGUSR1)
        if not r.wait_db("SELECT count(*) FROM runs", len(jobs), 60):
            rec.bad("real daemon", "not all of %d triggered runs are recorded: %s" % (len(jobs), r.text()))
            return
    finally:
        r.stop()
    for row in rows(r.root):
        rec.state("real", row["job_name"], core)
        rec.step()
        rec.trace()
        if row["exit_code"] != jobs[row["job_name"]][1]:
            rec.bad("real exit code", "real process %s is recorded with exit code %r, expected %r" % (row["job_name"], row["exit_code"], jobs[row["job_name"]][1]))
            return


def l02(c):
    th = c.tier == "thorough"
    st = statuses()
    units = [("status", st[i:i + 24]) for i in range(0, len(st), 24)]
    codes = list(range(256)) if th else [0, 1, 2, 63, 64, 126, 127, 128, 129, 130, 137, 143, 192, 254, 255]
    for i in range(0, len(codes), 64):
        units.append(("real", ("exit", codes[i:i + 64], False)))
    # signals whose default action ends a process
    fatal = [s for s in range(1, 32) if s not in (17, 18, 19, 20, 21, 22, 23, 28)] + [34, 50, 64]
    units.append(("real", ("sig", fatal, False)))
    if th:
        units.append(("real", ("sig", fatal, True)))
    fn = {"status": l02_unit, "real": l02_real}
    units.sort(key=lambda u: u[0] != "real")
    tot = sweep.sweep(units, lambda u, r: fn[u[0]](u[1], r), c.wall(150, 2000), limit=200)
    return sweep.finish(c, tot, "all 256 exit codes and all signals, with and without core dump, through the real daemon's collection, the run table, dsari-info and PREVIOUS_EXIT_CODE; "
                        "%d exit codes and every fatal signal with real processes" % len(codes), ["wait statuses are encoded as on Linux"], units=len(units))


# ---------------------------------------------------------------------------------------------------------- L03
DURS = [3, 63, 130]
STATS = [0, 256, 9]


def scenario_l03(sc):
    lives, zones = sc["lives"], sc.get("tz", "UTC")
    os.environ["TZ"] = zones
    time.tzset()
    jobs = {"a": dict({"command": ["/bin/true"], "concurrent_runs": sc["conc"]}, **({} if "trigs" in sc else {"schedule": EVERY})), "b": {"command": ["/bin/true"], "schedule": "* * * * * 30", "concurrent_runs": True}}
    root = root_with({"jobs": jobs})
    out, start, base = [], START, 0
    for k, pattern in enumerate(lives):
        it = {"a": 0, "b": 0}

        def spec(rep, n, pattern=pattern, it=it):
            j = rep.get("env", {}).get("JOB_NAME")
            i = it.get(j, 0)
            it[j] = i + 1
            if j == "b":
                return {"dur": (5, 61, 100)[i % 3], "status": (256, 0, 9)[(i + sc["b"]) % 3]}
            dur, st = pattern[i % len(pattern)]
            return {"dur": dur, "status": st}
        hz = 30.0 + 60 * len(pattern) + (5 if k < len(lives) - 1 else 2)
        events = []
        if "trigs" in sc:
            # triggers whose schedule times are not in the order of the runs
            for i in range(len(pattern)):
                at = start + 10 + 60 * i
                kind = sc["trigs"][i % len(sc["trigs"])]
                events.append((at, trigger(root, "a", {} if kind is None else {"schedule_time": at + kind})))
        res = isolated(life, root, spec, events, start, hz, None, (), k)
        for s in res["starts"]:
            s["life"] = k
        out.append(res)
        start += hz + 7
    return {"lives": out, "rows": rows(root)}


def l03_one(sc, rec):
    res = scenario_l03(sc)
    rec.state(json.dumps(sc, sort_keys=True))
    db = {r["run_id"]: r for r in res["rows"]}
    done = []       # in order of completion
    starts = []
    for lf in res["lives"]:
        if lf["problems"]:
            rec.bad("daemon", "%r: %s" % (sc, lf["problems"][0]))
            return False
        starts += lf["starts"]
    for n, st in enumerate(starts):
        rep = st["report"]
        if "error" in rep:
            rec.bad("child", rep["error"])
            return False
        env = rep["env"]
        st["id"], st["job"] = env["RUN_ID"], env["JOB_NAME"]
        st["code"] = 128 + (st["status"] & 0x7f) if st["status"] & 0x7f else st["status"] >> 8
        # completed: collected before this start, in the same life or an earlier one
        before = sorted((s for s in starts[:n] if s["job"] == st["job"] and s["reaped"] is not None and s["reaped"] < st["at"]), key=lambda s: s["reaped"])
        want = {}
        for kind, l in (("", before), ("GOOD_", [s for s in before if s["code"] == 0]), ("BAD_", [s for s in before if s["code"] != 0])):
            if l:
                s = l[-1]
                row = db.get(s["id"])
                if row is None:
                    rec.bad("lost", "%r: run %s is not recorded" % (sc, s["id"]))
                    return False
                e = s["report"]["env"]
                want.update({"PREVIOUS_%sRUN_ID" % kind: s["id"], "PREVIOUS_%sSCHEDULE_TIME" % kind: float(e["SCHEDULE_TIME"]), "PREVIOUS_%sSTART_TIME" % kind: float(e["START_TIME"]),
                             "PREVIOUS_%sSTOP_TIME" % kind: float(row["stop_time"]), "PREVIOUS_%sEXIT_CODE" % kind: str(s["code"])})
                if not s["exited"] - 1e-3 <= row["stop_time"] <= s["reaped"] + 1:
                    rec.bad("stop", "%r: run %s ended at %.3f and has stop time %.3f" % (sc, s["id"], s["exited"], row["stop_time"]))
                    return False
        got = {k: v for k, v in env.items() if k.startswith("PREVIOUS_")}
        diff = compare_env(got, want)
        rec.step()
        if diff:
            rec.bad("previous", "run %d (%s at %+.1f) of %s: %s" % (n, st["job"], st["at"] - START, json.dumps(sc), "; ".join(diff[:3])))
            return False
    rec.trace()
    return True


def l03_unit(unit, rec):
    for sc in unit:
        if not l03_one(sc, rec):
            return
    rec.sample(history=sc)


def l03(c):
    th = c.tier == "thorough"
    opts = list(itertools.product(DURS, STATS if th else STATS[:2]))
    S = []
    for n in ((1, 2, 3, 4) if th else (1, 2, 3)):
        for p in itertools.product(opts, repeat=n):
            S.append({"lives": [list(p) + [(3, 0)]], "conc": True, "b": len(S) % 3})
    short = list(itertools.product([3, 75], [0, 256]))
    for p in itertools.product(short, repeat=3 if th else 2):
        S.append({"lives": [list(p) + [(3, 0), (3, 256)]], "conc": False, "b": len(S) % 3})
    for p in itertools.product(short, repeat=4 if th else 3):
        for cut in range(1, len(p)):
            S.append({"lives": [list(p[:cut]), list(p[cut:]) + [(3, 0)]], "conc": bool(len(S) % 2), "b": len(S) % 3, "tz": "America/New_York" if len(S) % 5 == 0 else "UTC"})
    if th:
        for p in itertools.product(short, repeat=3):
            S.append({"lives": [[p[0]], [p[1]], [p[2]], [(3, 0)]], "conc": True, "b": len(S) % 3})
    for k in itertools.product([None, -86400, -70.5, 65], repeat=4 if th else 3):
        for st in itertools.product([0, 256], repeat=2):
            for du in ([3, 75], [75, 3]):
                S.append({"lives": [[(du[0], st[0]), (du[1], st[1]), (du[0], st[0]), (3, 9)][:len(k)] + [(3, 0)]], "conc": bool(len(S) % 2), "b": len(S) % 3, "trigs": list(k)})
    units = [S[i:i + 6] for i in range(0, len(S), 6)]
    tot = sweep.sweep(units, l03_unit, c.wall(200, 3400), limit=300)
    return sweep.finish(c, tot, "%d histories: every assignment of run lengths and outcomes to up to %d consecutive runs of a job (overlapping and not), beside another job, "
                        "with the daemon killed and restarted at every position; triggered runs with schedule times before, after and out of order of their starts" % (len(S), 4 if th else 3), ["stop times are distinct"], units=len(units))


def run(c):
    return {"L01": l01, "L02": l02, "L03": l03}[c.prop](c)


def replay(prop, path):
    with open(path) as f:
        for v in json.load(f)["violations"]:
            print(v["what"])
    return 1
