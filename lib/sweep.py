"""Exhaustive evaluation of a finite list of work units on all cores.

A unit is enumerated completely by fn(unit, rec), which records the states it reached, the transitions (evaluations
of the real code whose result was compared with the reference) and violations.
"""
import os, sys, signal, traceback, contextlib

import vos, explore, par


class Rec:
    def __init__(self):
        self.states, self.transitions, self.validated = set(), 0, 0
        self.violations, self.samples, self.errors, self.counters = [], [], [], {}

    def state(self, *x):
        self.states.add(explore.state_hash(x))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """one complete history of the real code compared with the reference"""
        self.validated += n

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def bad(self, key, what, **detail):
        if len(self.violations) < 5:
            self.violations.append(dict(detail, key=key, what=what))

    def sample(self, **k):
        if len(self.samples) < 2:
            self.samples.append(k)


class Timeout(BaseException):
    pass


_F = {}


def _one(unit):
    rec = Rec()

    def h(s, f):
        raise Timeout()
    limit = _F["limit"]
    if vos.real.time() > _F["deadline"]:
        rec.counters["unexplored_units"] = 1
        return rec
    old = vos.real.sig_signal(signal.SIGALRM, h)
    try:
        for attempt in (1, 2):
            vos.real.sig_setitimer(signal.ITIMER_REAL, limit * attempt)
            try:
                _F["fn"](unit, rec)
            except Timeout:
                tb = "".join(traceback.format_exc().splitlines(True)[-12:])
                if attempt == 1:
                    rec = Rec()
                    continue
                rec.bad("timeout %.80r" % (unit,), "no end within %g s: %.200r" % (limit * attempt, unit), traceback=tb)
            break
    except Exception as e:
        if _F["program_errors"] and from_program(e):
            rec.bad("failure %.80r" % (unit,), "%.200r fails: %s" % (unit, traceback.format_exc().strip().splitlines()[-1]),
                    traceback=traceback.format_exc().splitlines()[-12:], unit=unit)
        else:
            rec.errors.append("%.300r: %s" % (unit, traceback.format_exc()))
    finally:
        vos.real.sig_setitimer(signal.ITIMER_REAL, 0)
        vos.real.sig_signal(signal.SIGALRM, old)
        vos.CLOCK = vos.RAND = None
    return rec


def from_program(e):
    """did the program itself raise this, rather than the harness?"""
    lib, tb, inside = os.path.dirname(os.path.abspath(__file__)), e.__traceback__, False
    prog = os.path.join(os.path.abspath(os.environ.get("DSARI_REPO", "/repo")), "dsari") + os.sep
    while tb is not None:
        fn = os.path.abspath(tb.tb_frame.f_code.co_filename)
        inside = True if fn.startswith(prog) else False if fn.startswith(lib) else inside
        tb = tb.tb_next
    return inside


def sweep(units, fn, wall, limit=120.0, procs=None, stop_after=10, program_errors=False):
    total = Rec()
    total.unexplored = 0
    _F.update(fn=fn, limit=limit, program_errors=program_errors, deadline=vos.real.time() + wall)
    procs = procs or int(os.environ.get("DSARI_MC_PROCS") or min(8, os.cpu_count() or 1))
    units = list(units)
    with contextlib.closing(par.over(_one, units, procs)) as results:
        for i, r in results:
            if isinstance(r, par.Died):
                total.errors.append("%.300r: the process checking it ended with status %r" % (units[i], r.status))
                continue
            total.states |= r.states
            total.transitions += r.transitions
            total.validated += r.validated
            total.violations += r.violations
            total.errors += r.errors
            total.samples = (total.samples + r.samples)[:6]
            for k, v in r.counters.items():
                total.counters[k] = total.counters.get(k, 0) + v
            if len(total.violations) >= stop_after:
                total.unexplored += 1
                break
    total.unexplored += total.counters.pop("unexplored_units", 0)
    return total


def finish(c, total, rule, assumptions=(), **more):
    seen = set()
    for v in total.violations:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        v = dict(v)
        c.violation(v.pop("key"), v.pop("what"), **v)
    cov = {"states": len(total.states), "transitions": total.transitions,
           "traces_validated_against_impl": total.validated, "counters": total.counters,
           "unexplored_units": total.unexplored, "exhaustive": total.unexplored == 0 and not total.errors,
           "rule": rule, "samples": total.samples[:4]}
    cov.update(more)
    return c.finish("model_checking", cov, assumptions, total.errors)
