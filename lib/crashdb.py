"""D05, second part: the process of the daemon ending at every change it makes to a file of the run database.

A unit is a database found at the start and a sequence of the operations the daemon performs on it. The operations are
performed by the real code in a process which ends before the k-th change to a file below the data directory (write,
truncation, removal, renaming: counted by a preloaded library, crash.c), or in the middle of that write, for every k.
Another process then does what a restarted daemon does; in half of the histories it ends in turn at every change.
What it reads must be what the operations finished before the end made it, or that and the one under way.
"""
import os, sys, json, shutil, subprocess, itertools

HERE = os.path.dirname(os.path.abspath(__file__))
MODES = {0: "before it", 1: "one byte into it", 2: "half way through it", 3: "one byte short of its end"}

# what a database holds at first and what is then done
BASES = {"nothing": [], "empty": ["open"], "runs": ["open", "start 0 0", "finish 0 0", "start 1 0", "finish 1 0"],
         "stale": ["open", "start 0 0", "finish 0 0", "start 1 0", "start 2 0"],
         "long": ["open"] + ["%s %d 3000" % (w, i) for i in range(6) for w in ("start", "finish")] + ["start 6 3000"],
         "many": ["open"] + ["%s %d 40" % (w, i) for i in range(60) for w in ("start", "finish")]}
SEQUENCES = {"quick": [["open", "clear", "start 100 0", "finish 100 0"],
                       ["open", "clear", "start 100 0", "start 101 9000", "finish 101 9000", "finish 100 0"]],
             "thorough": [["open", "clear", "start 100 70000", "finish 100 70000"],
                          ["open", "clear"] + ["start %d 1500" % i for i in range(100, 104)] +
                          ["finish %d 1500" % i for i in (103, 101, 100, 102)]]}


def units(tier):
    """(database, operations, mode, depth, part, parts)"""
    out, q = [], SEQUENCES["quick"]
    for s in q + (SEQUENCES["thorough"] if tier == "thorough" else []):
        for b in BASES:
            for m in MODES:
                deep = m in (0, 2) and s in q and b != "many" if tier == "thorough" else \
                    m == 0 and s == q[0] and b in ("nothing", "stale")
                n = 16 if deep else 1
                out += [(b, s, m, 2 if deep else 1, i, n) for i in range(n)]
    return sorted(out, key=lambda x: -x[3])


def explore(c, scratch, wall):
    """coverage and violations of all units of the tier"""
    import concurrent.futures, time
    t = {"units": 0, "transitions": 0, "executions": 0, "states": 0, "points": 0, "unexplored_units": 0}
    errors, end = [], time.monotonic() + wall
    so = build(scratch)
    stop = []

    def one(u):
        left = end - time.monotonic()
        if stop or left < 1:
            return u, None
        try:
            return u, run_unit(so, u, scratch, left)
        except subprocess.TimeoutExpired:
            return u, None
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("DSARI_MC_PROCS") or min(8, os.cpu_count() or 1))) as pool:
        for u, r in pool.map(one, units(c.tier)):
            if r is None:
                t["unexplored_units"] += 1
            elif "error" in r:
                errors.append("%s: %s" % (u, r["error"]))
            else:
                t["units"] += 1
                for k in ("transitions", "executions", "states", "points"):
                    t[k] += r[k]
                for v in r["violations"]:
                    stop.append(1)
                    c.violation("crash %s" % v, v, unit=u)
    return t, errors


def build(where):
    so = os.path.join(where, "crash.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(HERE, "crash.c"), "-ldl"], check=True,
                   stdout=subprocess.DEVNULL)
    return so


def run_unit(so, unit, home, wall=600):
    """the worker's answer, or an error text"""
    env = dict(os.environ, LD_PRELOAD=so, HOME=home)
    p = subprocess.run([sys.executable, os.path.join(HERE, "crashdb.py"), json.dumps(unit)], env=env, timeout=wall,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        return json.loads(p.stdout.decode().splitlines()[-1])
    except Exception:
        return {"error": "rc=%s %s" % (p.returncode, p.stderr.decode()[-1500:])}


# ---- the worker

def worker(base, ops, mode, depth, part=0, parts=1):
    import ctypes, datetime, tempfile, traceback, sqlite3
    import dsari, dsari.config, dsari.database
    lib = ctypes.CDLL(None)
    lib.crash_seen.restype = ctypes.c_long
    lib.crash_arm.argtypes = (ctypes.c_char_p, ctypes.c_long, ctypes.c_int)
    top = tempfile.mkdtemp(prefix="crash.", dir=os.environ["HOME"])
    etc, var, kept = [os.path.join(top, x) for x in ("etc", "var", "kept")]
    os.makedirs(etc)
    with open(os.path.join(etc, "dsari.json"), "w") as f:
        json.dump({"data_dir": var, "jobs": {"a": {"command": ["x"]}, "b": {"command": ["x"]}}}, f)
    t0 = datetime.datetime(2020, 2, 3, 4, 5, 6, 123456, tzinfo=datetime.timezone.utc)
    S = {"transitions": 0, "executions": 0, "states": set(), "violations": [], "points": 0}

    def expected(n, size, running):
        x = t0 + datetime.timedelta(seconds=n * 61, microseconds=n)
        r = {"job": "ab"[n % 2], "id": "run-%d" % n, "schedule_time": x, "start_time": x + datetime.timedelta(seconds=1),
             "trigger_type": "file", "trigger_data": {"n": n, "t": "t\u00e9" * (size // 2)}, "run_data": {}}
        if not running:
            r.update(stop_time=x + datetime.timedelta(seconds=9), exit_code=n % 3, run_data={"r": "x" * size})
        return r

    def make(cfg, n, size, running):
        e = expected(n, size, running)
        r = dsari.Run(cfg.jobs[e.pop("job")], id=e.pop("id"))
        for k, v in e.items():
            setattr(r, k, v)
        return r

    def model(state, op):
        runs, running = [dict(x) for x in state]
        w = op.split()
        if w[0] == "clear":
            running = {}
        elif w[0] == "start":
            running[int(w[1])] = int(w[2])
        elif w[0] == "finish":
            running.pop(int(w[1]), None)
            runs[int(w[1])] = int(w[2])
        return runs, running

    class Actor:
        def __init__(self):
            self.cfg = dsari.config.get_config(etc)
            self.db = None

        def do(self, op):
            w = op.split()
            if w[0] == "open":
                self.db = dsari.database.get_database(self.cfg)
            elif w[0] == "clear":
                self.db.clear_runs_running()
            elif w[0] == "start":
                self.db.insert_running_run(make(self.cfg, int(w[1]), int(w[2]), True))
            else:
                self.db.insert_run(make(self.cfg, int(w[1]), int(w[2]), False))

        def holds(self, state, running):
            """is this what the database shows?"""
            want = {}
            for n, size in state[1 if running else 0].items():
                want["run-%d" % n] = expected(n, size, running)
            got = {}
            for r in self.db.get_runs(runs_running=running):
                if r.id in got:
                    return "%s is listed twice" % r.id
                got[r.id] = r
            if set(got) != set(want):
                return "%s: %s, expected %s" % ("running" if running else "completed", sorted(got)[:8], sorted(want)[:8])
            for i, e in want.items():
                for k, v in e.items():
                    g = got[i].job.name if k == "job" else getattr(got[i], k, None)
                    if g != v:
                        return "%s of %s is %.80r, expected %.80r" % (k, i, g, v)
            return None

        def check(self, states):
            out = None
            for s in states:
                for s in (s, (s[0], {})):
                    x = self.holds(s, False) or self.holds(s, True)
                    if x is None:
                        return s
                    out = out or x
            raise Wrong(out)

    class Wrong(Exception):
        pass

    def child(fn):
        """what fn reports through a pipe, one line each, and how the process ended"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                fn(lambda t: os.write(w, (t + "\n").encode()))
                code = 0
            except Wrong as e:
                os.write(w, ("wrong: %s\n" % e).encode())
            except BaseException as e:
                lib.crash_arm(b"", -1, 0)
                os.write(w, ("wrong: %s: %s\n" % (type(e).__name__, e)).encode("utf-8", "replace"))
            finally:
                os._exit(code)
        os.close(w)
        out = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            out += x
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        S["executions"] += 1
        return out.decode().splitlines(), os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)

    def put(src):
        shutil.rmtree(var, ignore_errors=True)
        if os.path.isdir(src):
            shutil.copytree(src, var)

    def operate(ops, k, m, first=None):
        def fn(say):
            a = Actor()
            lib.crash_arm(var.encode(), k, m)
            for i, op in enumerate(ops):
                a.do(op)
                say("done %d" % i)
                if first and op == "open":
                    # what the restarted daemon finds: exactly one of the possible states
                    s = a.check(first)
                    say("found %s" % json.dumps(s))
            n = lib.crash_seen()
            lib.crash_arm(b"", -1, 0)
            say("seen %d" % n)
        return child(fn)

    after = ["open", "clear", "start 900 0", "finish 900 0"] if depth > 1 else \
        ["open", "clear", "start 900 0", "start 901 5000", "finish 901 5000", "finish 900 0"]

    def recover(states, what, deep):
        """restart on what was left; states: what may be found"""
        put(kept)
        lines, rc = operate(after, 0, 0, first=states)
        wrong(lines, rc, what)
        if rc:
            return
        S["transitions"] += len(after)
        total = [int(x[5:]) for x in lines if x.startswith("seen ")][0]

        def final(say):
            a = Actor()
            a.do("open")
            x = json.loads([x for x in lines if x.startswith("found ")][0][6:])
            x = [{int(k): v for k, v in y.items()} for y in x]
            for op in after:
                x = model(x, op)
            a.check([x])
            c = sqlite3.connect(os.path.join(var, "dsari.sqlite3"))
            r = c.execute("PRAGMA integrity_check").fetchone()[0]
            c.close()
            if r != "ok":
                raise Wrong("the database is damaged: " + r)
        l2, rc2 = child(final)
        wrong(l2, rc2, what)
        if not deep or rc2:
            return
        # and once more while recovering
        for k2 in range(1, total + 1):
            put(kept)
            l3, rc3 = operate(after, k2, mode)
            if rc3 != 99:
                continue
            shutil.rmtree(kept + "2", ignore_errors=True)
            os.rename(var, kept + "2")
            n = sum(x.startswith("done") for x in l3)
            poss = []
            for s in states:
                for i in (n, n + 1):
                    x = s
                    for op in after[:i]:
                        x = model(x, op)
                    poss.append(x)
            put(kept + "2")
            l4, rc4 = operate(after_more, 0, 0, first=poss)
            S["transitions"] += n + 1
            wrong(l4, rc4, what + ", and again at change %d of the restarted one" % k2)
            if S["violations"]:
                return

    after_more = ["open", "clear", "start 950 0", "finish 950 0"]

    def wrong(lines, rc, what):
        x = [y for y in lines if y.startswith("wrong")]
        if x or rc not in (0,):
            S["violations"].append("%s: after the restart: %s" % (what, x[0][7:] if x else "the process ended with %s" % rc))

    try:
        state = ({}, {})
        start = os.path.join(top, "start")
        shutil.rmtree(var, ignore_errors=True)
        if BASES[base]:
            lines, rc = operate(BASES[base], 0, 0)
            if rc:
                raise Exception("base: %s %s" % (rc, lines))
            for op in BASES[base]:
                state = model(state, op)
            os.rename(var, start)
        put(start)
        lines, rc = operate(ops, 0, 0)
        if rc:
            S["violations"].append("%s on '%s': %s" % (ops, base, lines[-1:]))
        total = 0 if rc else [int(x[5:]) for x in lines if x.startswith("seen ")][0]
        S["points"] = total
        for k in range(1 + part, total + 1, parts):
            put(start)
            lines, rc = operate(ops, k, mode)
            n = sum(x.startswith("done") for x in lines)
            S["transitions"] += n + 1
            if rc not in (0, 99):
                S["violations"].append("operations fail: %s" % lines[-1:])
                break
            shutil.rmtree(kept, ignore_errors=True)
            if os.path.isdir(var):
                os.rename(var, kept)
            a = state
            for op in ops[:n]:
                a = model(a, op)
            b = model(a, ops[n]) if n < len(ops) else a
            S["states"].add(json.dumps([a, k]))
            recover([a, b], "database '%s', killed at change %d of %d (%s), in '%s'" %
                    (base, k, total, MODES[mode], ops[n] if n < len(ops) else "the end"), depth > 1)
            if S["violations"]:
                break
    finally:
        shutil.rmtree(top, ignore_errors=True)
    S["states"] = len(S["states"])
    print(json.dumps(S))


if __name__ == "__main__":
    worker(*json.loads(sys.argv[1]))
