"""Deviation-bounded, exhaustive depth-first exploration of the choice points of an executable system.

Every execution is determined by the list of its non-default choices ("deviations").  All executions with at most
`bound` deviations are run, each exactly once, each in a freshly forked process.
"""
import os, sys, time, pickle, select, signal, struct, hashlib, contextlib, traceback

import vos, par


class Chooser:
    def __init__(self, devs):
        self.devs = {d[0]: d for d in devs}
        self.trace = []

    def choose(self, n, label):
        i = len(self.trace)
        alt = 0
        d = self.devs.get(i)
        if d is not None:
            if d[2] != n or d[3] != label:
                raise vos.Divergence("choice %d was %s/%d, is %s/%d" % (i, d[3], d[2], label, n))
            alt = d[1]
        self.trace.append((n, label))
        return alt


def in_child(fn, limit):
    """run fn() in a forked process, return its (pickled) value, or {'hang': True} / {'died': status}"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = vos.real.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            try:
                v = fn()
            except BaseException:
                v = {"harness_error": traceback.format_exc()}
            data = pickle.dumps(v, protocol=4)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            vos.real._exit(0)
    os.close(w)
    chunks = []
    end = vos.real.time() + limit
    hang = False
    while True:
        left = end - vos.real.time()
        if left <= 0:
            hang = True
            break
        rr, _, _ = vos.real.select([r], [], [], left)
        if not rr:
            hang = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if hang:
        try:
            vos.real.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                vos.real.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    _, st = vos.real.waitpid(pid, 0)
    if hang:
        return {"hang": True}
    try:
        return pickle.loads(b"".join(chunks))
    except Exception:
        return {"died": st}


def successors(devs, trace, bound):
    if len(devs) >= bound:
        return
    first = devs[-1][0] + 1 if devs else 0
    for i in range(first, len(trace)):
        n, label = trace[i]
        for alt in range(1, n):
            yield tuple(devs) + ((i, alt, n, label),)


class Stats:
    def __init__(self):
        self.executions = 0
        self.divergences = 0
        self.unexplored = 0
        self.transitions = 0
        self.states = set()
        self.violations = []
        self.counters = {}
        self.errors = []
        self.samples = []
        self.slow = 0.0
        self.rejected = 0
        self.others = []

    def merge(self, o):
        self.executions += o.executions
        self.divergences += o.divergences
        self.unexplored += o.unexplored
        self.transitions += o.transitions
        self.states |= o.states
        self.violations += o.violations
        self.errors += o.errors[:3]
        self.samples = (self.samples + o.samples)[:6]
        self.slow = max(self.slow, o.slow)
        self.rejected += o.rejected
        self.others = (self.others + o.others)[:6]
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v


_CFG = {}


def _worker(task):
    """explore a whole subtree"""
    scen, devs, bound, deadline, stop_after = task
    run_one, limit = _CFG["run_one"], _CFG["limit"]
    st = Stats()
    stack = [devs]
    while stack:
        if vos.real.time() > deadline:
            st.unexplored += len(stack)
            break
        d = stack.pop()
        t0 = vos.real.time()
        res = in_child(lambda: run_one(scen, d), limit)
        st.slow = max(st.slow, vos.real.time() - t0)
        if res.get("hang"):
            # once more, in case the machine was busy
            res = in_child(lambda: run_one(scen, d), limit * 2)
        if res.get("hang"):
            res = {"trace": [], "violations": [("ALL", "no progress: the execution did not end", 0)]}
        if "died" in res:
            st.errors.append("execution process died with status %r: %r" % (res["died"], d))
            continue
        if "harness_error" in res:
            st.errors.append(res["harness_error"])
            continue
        st.executions += 1
        st.counters["executions: " + scen["name"]] = st.counters.get("executions: " + scen["name"], 0) + 1
        if res.get("divergence"):
            st.divergences += 1
            continue
        st.states.update(res.get("states", ()))
        st.transitions += res.get("transitions", 0)
        for k, v in res.get("counters", {}).items():
            st.counters[k] = st.counters.get(k, 0) + v
        if len(st.samples) < 2 and len(d) == bound:
            st.samples.append({"scenario": scen["name"], "deviations": [[x[0], x[1], x[3]] for x in d],
                               "history": res.get("history", [])[:40]})
        if res["violations"] and not any(_CFG["relevant"](x) for x in res["violations"]):
            st.rejected += 1
            if len(st.others) < 3:
                st.others.append({"scenario": scen["name"], "devs": d, "violations": res["violations"][:5],
                                  "history": res.get("history", [])})
        elif res["violations"]:
            st.violations.append({"scenario": scen["name"], "devs": d, "violations": res["violations"],
                                  "history": res.get("history", [])})
            if len(st.violations) >= stop_after:
                st.unexplored += len(stack)
                break
            continue
        stack.extend(successors(d, res["trace"], bound))
    return st


def explore(scenarios, run_one, bound, wall, limit=60.0, procs=None, relevant=lambda v: True, stop_after=3):
    """bound: default bound; a scenario may carry its own 'bound'.  Returns Stats (violations limited)."""
    total = Stats()
    deadline = vos.real.time() + wall
    _CFG["run_one"], _CFG["limit"], _CFG["relevant"] = run_one, limit, relevant
    tasks = []
    # roots, then one task per single deviation
    roots = []
    for s in scenarios:
        roots.append((s, (), 0, deadline, stop_after))
    procs = procs or int(os.environ.get("DSARI_MC_PROCS") or min(8, os.cpu_count() or 1))
    warm_up(scenarios, run_one)
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()
    def lost(r):
        st = Stats()
        st.errors.append("a worker ended with status %r" % (r.status,))
        st.unexplored += 1
        return st
    for i, r in par.over(_root, [(s, deadline, stop_after) for s in scenarios], procs):
        st, trace = (lost(r), None) if isinstance(r, par.Died) else r
        total.merge(st)
        s = scenarios[i]
        if trace is not None and not st.violations:
            b = s.get("bound", bound)
            for d in successors((), trace, b):
                tasks.append((s, d, b, deadline, stop_after))
    # long subtrees (early first deviation) first
    tasks.sort(key=lambda t: (t[1][0][0], t[0]["name"]))
    with contextlib.closing(par.over(_worker, tasks, procs)) as results:
        for _, r in results:
            total.merge(lost(r) if isinstance(r, par.Died) else r)
            if len(total.violations) >= 20:
                total.unexplored += 1
                break
    return total


def warm_up(scenarios, run_one):
    """modules imported and patterns compiled during an execution are loaded before forking (speed only)"""
    import re, importlib

    def probe(s):
        run_one(s, ())
        return {"mods": sorted(sys.modules), "re": [k for k in re._cache if isinstance(k[1], (str, bytes))]}
    for s in scenarios[:3]:
        r = in_child(lambda: probe(s), 20)
        for m in r.get("mods", ()):
            if m not in sys.modules:
                try:
                    importlib.import_module(m)
                except Exception:
                    pass
        for k in r.get("re", ()):
            try:
                re.compile(k[1], k[2])
            except Exception:
                pass


def _root(a):
    s, deadline, stop_after = a
    run_one = _CFG["run_one"]
    st = Stats()
    res = in_child(lambda: run_one(s, ()), _CFG["limit"] * 2)
    if res.get("hang"):
        res = {"trace": [], "violations": [("ALL", "no progress: the execution did not end", 0)]}
    if "died" in res or "harness_error" in res:
        st.errors.append(res.get("harness_error", "died %r" % res.get("died")))
        return st, None
    st.executions = 1
    st.states.update(res.get("states", ()))
    st.transitions += res.get("transitions", 0)
    st.counters = dict(res.get("counters", {}))
    if res["violations"] and any(_CFG["relevant"](x) for x in res["violations"]):
        st.violations.append({"scenario": s["name"], "devs": (), "violations": res["violations"],
                              "history": res.get("history", [])})
        return st, None
    return st, res["trace"]


def state_hash(x):
    return struct.unpack("<q", hashlib.blake2b(repr(x).encode(), digest_size=8).digest())[0]
