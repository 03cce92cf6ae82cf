"""Virtual operating system under the real dsari code.

Imported before any dsari module.  While a World is active (vos.W is not None) the process, signal, clock,
randomness and uuid calls of the program go to that World; the file system and SQLite stay real (scratch
directory).  While no World is active everything passes through to the real functions.
"""
import os, sys, time, random, uuid, signal, select, json, errno, threading, fcntl, resource
import datetime as _dtmod

W = None            # the active World
CLOCK = None        # without a World: fixed time in microseconds
RAND = None         # without a World: function(a, b) giving the next random integer
relevant = None     # hook: does the order of this sequence matter now?


class Horizon(BaseException):
    """end of the explored horizon"""


class SimKill(BaseException):
    """the daemon is killed here (SIGKILL or default action of a signal)"""

    def __init__(self, why):
        self.why = why


class Hang(BaseException):
    """no progress"""


class Divergence(BaseException):
    """a replayed choice does not exist any more: nondeterminism in the harness"""


real = type("real", (), {})()
for _n in ("fork", "wait4", "waitpid", "wait", "wait3", "kill", "killpg", "execve", "execv", "_exit", "getpid"):
    setattr(real, _n, getattr(os, _n))
for _n in ("sleep", "time", "time_ns", "monotonic", "monotonic_ns", "perf_counter"):
    setattr(real, _n, getattr(time, _n))
for _n in ("signal", "getsignal", "pause", "setitimer", "alarm"):
    setattr(real, "sig_" + _n, getattr(signal, _n))
real.datetime = _dtmod.datetime
real.select = select.select
real.uuid4 = uuid.uuid4


# ---------------------------------------------------------------- clock
class _Meta(type(_dtmod.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real.datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, real.datetime)


class VDatetime(real.datetime, metaclass=_Meta):
    @classmethod
    def fromtimestamp(cls, t, tz=None):
        # CPython loses the fold of subclasses here
        r = real.datetime.fromtimestamp(t, tz)
        return cls(r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, r.tzinfo, fold=r.fold)

    def astimezone(self, tz=None):
        r = real.datetime(self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond,
                          self.tzinfo, fold=self.fold).astimezone(tz)
        return type(self)(r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, r.tzinfo, fold=r.fold)

    @classmethod
    def now(cls, tz=None):
        if W is None and CLOCK is not None:
            return cls.fromtimestamp(CLOCK / 1e6, tz)
        if W is None or W.in_child:
            return super().now(tz)
        return cls.fromtimestamp(W.read_clock() / 1e6, tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        if W is None and CLOCK is not None:
            return cls.fromtimestamp(CLOCK / 1e6, _dtmod.timezone.utc).replace(tzinfo=None)
        if W is None or W.in_child:
            return super().utcnow()
        return cls.fromtimestamp(W.read_clock() / 1e6, _dtmod.timezone.utc).replace(tzinfo=None)


_dtmod.datetime = VDatetime


def _t(name, f):
    r = getattr(real, name)

    def g():
        if W is None and CLOCK is not None:
            return f(CLOCK)
        if W is None or W.in_child:
            return r()
        return f(W.read_clock())
    g.__name__ = name
    setattr(time, name, g)


_t("time", lambda us: us / 1e6)
_t("time_ns", lambda us: us * 1000)
_t("monotonic", lambda us: us / 1e6 - 1e9)
_t("monotonic_ns", lambda us: us * 1000 - 10 ** 18)
_t("perf_counter", lambda us: us / 1e6 - 1e9)


def _sleep(d):
    if W is None:
        return real.sleep(d)
    if W.in_child:
        W.child_escaped("sleep")
    if d < 0:
        raise ValueError("sleep length must be non-negative")
    W.sleep(d)


time.sleep = _sleep


def _select(r, w, x, timeout=None):
    if W is None or W.in_child or r or w or x:
        return real.select(r, w, x, timeout)
    W.sleep(3600.0 if timeout is None else timeout)
    return ([], [], [])


select.select = _select
_real_event_wait = threading.Event.wait


def _event_wait(self, timeout=None):
    if W is None or W.in_child or self.is_set():
        return _real_event_wait(self, timeout)
    end = W.now + int((3600.0 if timeout is None else timeout) * 1e6)
    while not self.is_set() and W.now < end:
        W.sleep(min(0.05, (end - W.now) / 1e6))
    return self.is_set()


threading.Event.wait = _event_wait


# ---------------------------------------------------------------- processes
def _fork():
    if W is None:
        return real.fork()
    if W.in_child:
        W.child_escaped("fork")
    return W.fork()


os.fork = _fork


def _wait4(pid, options):
    if W is None:
        return real.wait4(pid, options)
    if W.in_child:
        W.child_escaped("wait")
    p, s = W.wait(pid, options)
    return (p, s, resource.getrusage(resource.RUSAGE_CHILDREN))


def _waitpid(pid, options):
    if W is None:
        return real.waitpid(pid, options)
    if W.in_child:
        W.child_escaped("wait")
    return W.wait(pid, options)


def _wait():
    return _waitpid(-1, 0)


def _wait3(options):
    return _wait4(-1, options)


def _kill(pid, sig):
    if W is None:
        return real.kill(pid, sig)
    return W.kill(pid, int(sig), "kill")


def _killpg(pid, sig):
    if W is None:
        return real.killpg(pid, sig)
    return W.kill(pid, int(sig), "killpg")


os.wait4, os.waitpid, os.wait, os.wait3, os.kill, os.killpg = _wait4, _waitpid, _wait, _wait3, _kill, _killpg


def _execve(path, argv, env):
    if W is None or not W.in_child:
        return real.execve(path, argv, env)
    if not os.path.exists(path):
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    if os.path.isdir(path) or not os.access(path, os.X_OK):
        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), path)
    # the conversions exec itself would make (and the errors it would raise)
    argv = [os.fsdecode(os.fsencode(a)) for a in argv]
    e2 = {}
    for k, v in dict(env).items():
        kb, vb = os.fsencode(k), os.fsencode(v)
        if b"\0" in kb or b"\0" in vb:
            raise ValueError("embedded null byte")
        if b"=" in kb or not kb:
            raise ValueError("illegal environment variable name")
        e2[os.fsdecode(kb)] = os.fsdecode(vb)
    if any("\0" in a for a in argv):
        raise ValueError("embedded null byte")
    W.child_exec(os.fsdecode(path), argv, e2)


def _execv(path, argv):
    return _execve(path, argv, os.environ)


os.execve, os.execv = _execve, _execv


# ---------------------------------------------------------------- signals
def _signal(signum, handler):
    if W is None:
        return real.sig_signal(signum, handler)
    old = W.handlers.get(int(signum), signal.SIG_DFL)
    W.handlers[int(signum)] = handler
    if W.in_child and handler in (signal.SIG_DFL, signal.SIG_IGN):
        real.sig_signal(signum, handler)
    return old


def _getsignal(signum):
    if W is None:
        return real.sig_getsignal(signum)
    return W.handlers.get(int(signum), signal.SIG_DFL)


def _pause():
    if W is None or W.in_child:
        return real.sig_pause()
    n = W.delivered
    while W.delivered == n:
        W.sleep(0.25)


signal.signal, signal.getsignal, signal.pause = _signal, _getsignal, _pause


# ---------------------------------------------------------------- randomness, ids
class VRandom:
    """random draws are explorer choices (identity / lowest first)"""


_real_random = {n: getattr(random, n) for n in
                ("shuffle", "sample", "choice", "randint", "randrange", "random", "uniform", "choices")}


def _perm(n):
    """choose a permutation of range(n): all of them up to n=3, else identity, reverse and rotations"""
    import itertools
    if n <= 1:
        return list(range(n))
    if n <= 3:
        perms = list(itertools.permutations(range(n)))
    else:
        base = list(range(n))
        perms = [base] + [base[i:] + base[:i] for i in range(1, n)] + [base[::-1]]
    return list(perms[W.choose(len(perms), "perm%d" % n)])


def _shuffle(x, *a):
    if W is None or W.in_child:
        return _real_random["shuffle"](x, *a)
    if len(x) < 2 or (relevant is not None and not relevant(x)):
        return
    p = _perm(len(x))
    x[:] = [x[i] for i in p]


def _sample(pop, k, **kw):
    if W is None or W.in_child:
        return _real_random["sample"](pop, k, **kw)
    pop = list(pop)
    if len(pop) < 2 or (relevant is not None and not relevant(pop)):
        return pop[:k]
    return [pop[i] for i in _perm(len(pop))][:k]


def _choice(seq):
    if W is None and RAND is not None:
        return seq[RAND(0, len(seq) - 1)]
    if W is None or W.in_child:
        return _real_random["choice"](seq)
    return seq[W.choose(len(seq), "choice%d" % len(seq))]


def _choices(pop, *a, k=1, **kw):
    if W is None or W.in_child:
        return _real_random["choices"](pop, *a, k=k, **kw)
    return [_choice(list(pop)) for _ in range(k)]


def _randint(a, b):
    if W is None and RAND is not None:
        return RAND(a, b)
    if W is None or W.in_child:
        return _real_random["randint"](a, b)
    return W.randint(a, b)


def _randrange(start, stop=None, step=1):
    if W is None and RAND is not None:
        r = range(start) if stop is None else range(start, stop, step)
        return r[RAND(0, len(r) - 1)]
    if W is None or W.in_child:
        return _real_random["randrange"](start, stop, step) if stop is not None else _real_random["randrange"](start)
    r = range(start) if stop is None else range(start, stop, step)
    return r[W.randint(0, len(r) - 1)]


def _random():
    if W is None and RAND is not None:
        return RAND(0, 2 ** 32 - 1) / 2.0 ** 32
    if W is None or W.in_child:
        return _real_random["random"]()
    return W.randint(0, 2 ** 32 - 1) / 2.0 ** 32


def _uniform(a, b):
    return a + (b - a) * _random()


random.shuffle, random.sample, random.choice, random.choices = _shuffle, _sample, _choice, _choices
random.randint, random.randrange, random.random, random.uniform = _randint, _randrange, _random, _uniform


def _uuid4():
    if W is None or W.in_child:
        return real.uuid4()
    W.uuid_n += 1
    return uuid.UUID(int=(0xd5a21000 << 96) | (0x4000 << 64) | (0x8000 << 48) | (W.uuid_base << 32) | W.uuid_n)


uuid.uuid4 = _uuid4


# ---------------------------------------------------------------- file audit
def _audit(event, args):
    w = W
    if w is None or w.in_child or w.mute:
        return
    if event == "open":
        path = args[0]
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if isinstance(path, str):
            w.on_open(path, args[1], args[2])
    elif event in ("os.remove", "os.rename", "os.truncate"):
        p = args[0]
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if isinstance(p, str) or hasattr(p, "__fspath__"):
            w.on_remove(os.fspath(p), event)


sys.addaudithook(_audit)


# ---------------------------------------------------------------- the world
class Proc:
    __slots__ = ("vpid", "report", "start", "exit_at", "status", "zombie", "reaped", "term", "kill", "spec",
                 "exited_at", "orphan", "n")


class World:
    in_child = False
    mute = False

    def __init__(self, root, start_us, grid_us, horizon_us, chooser, spec_for, hooks, uuid_base=0):
        self.root = root
        self.now = start_us
        self.start_us = start_us
        self.grid_us = grid_us
        self.next_grid = start_us + grid_us
        self.horizon = start_us + horizon_us
        self.chooser = chooser
        self.spec_for = spec_for
        self.hooks = hooks
        self.procs = {}
        self.handlers = {}
        self.delivered = 0
        self.uuid_n = 0
        self.uuid_base = uuid_base
        self.reads = 0
        self.calls_at = (start_us, 0)
        self.pumps = 0
        self.nfork = 0
        self.last_stall_end = start_us
        self.in_pump = False

    # -- choices
    def choose(self, n, label):
        if n <= 1:
            return 0
        return self.chooser.choose(n, label)

    def randint(self, a, b):
        if a == b:
            return a
        mid = a + (b - a) // 2
        return [a, b, mid][self.choose(3, "rand")]

    # -- clock
    def read_clock(self):
        self.now += 1
        self.reads += 1
        if self.reads > 400000:
            raise Hang("the daemon keeps running without ever sleeping or waiting")
        return self.now

    def sleep(self, d):
        if self.in_pump:
            self.now += int(d * 1e6)
            return
        target = self.now + max(1, int(round(d * 1e6)))
        if d < 0.25:      # poll acceleration: overshoot by at most 0.25 s, never past an interesting moment
            nxt = min([self.next_grid, self.now + 250000] +
                      [p.exit_at for p in self.procs.values() if not p.zombie and p.exit_at is not None])
            target = max(target, nxt)
        self.advance(target)

    def advance(self, target):
        self.reads = 0
        while True:
            nxt = min(target, self.next_grid)
            for p in self.procs.values():
                if not p.zombie and p.exit_at is not None and p.exit_at < nxt:
                    nxt = p.exit_at
            if nxt > self.now:
                self.now = nxt
            self.settle()
            if self.now >= self.horizon:
                raise Horizon()
            if self.now >= self.next_grid:
                self.next_grid += self.grid_us
                self.pump()
                # an event may have moved the clock (stall)
                while self.next_grid <= self.now:
                    self.next_grid += self.grid_us
                self.settle()
            if self.now >= target:
                return

    def pump(self):
        self.pumps += 1
        self.in_pump = True
        try:
            self.hooks.on_pump(self)
        finally:
            self.in_pump = False

    def settle(self):
        """processes whose time has come become zombies"""
        for p in self.procs.values():
            if not p.zombie and p.exit_at is not None and p.exit_at <= self.now:
                p.zombie = True
                p.exited_at = p.exit_at
                self.mute = True
                try:
                    self.hooks.on_exit(self, p)
                finally:
                    self.mute = False

    def stall(self, seconds):
        self.now += int(seconds * 1e6)
        self.last_stall_end = self.now
        self.settle()

    # -- processes
    def fork(self):
        rep = os.path.join(self.root, "report.%d" % self.nfork)
        self.nfork += 1
        sys.stdout.flush()
        t = self.now
        pid = real.fork()
        if pid == 0:
            sys.settrace(None)
            threading.settrace(None)
            self.in_child = True
            self.report_file = rep
            real.sig_setitimer(signal.ITIMER_REAL, 0)
            return 0
        real.waitpid(pid, 0)
        self.mute = True
        try:
            try:
                with open(rep) as f:
                    report = json.load(f)
                os.unlink(rep)
            except (OSError, ValueError):
                report = {"error": "child ended without exec"}
        finally:
            self.mute = False
        report["realpid"] = pid
        p = Proc()
        p.vpid = 4000000 + self.nfork
        p.report = report
        p.start = t
        p.zombie = p.reaped = False
        p.term, p.kill = [], []
        p.exited_at = None
        p.orphan = False
        p.n = self.nfork
        p.spec = self.spec_for(report, p)
        if "error" in report:
            p.exit_at, p.status = t, 256
        else:
            dur, p.status = p.spec.get("dur"), p.spec.get("status", 0)
            p.exit_at = None if dur is None else t + int(dur * 1e6)
        self.procs[p.vpid] = p
        self.hooks.on_start(self, p)
        return p.vpid

    def stray(self, status):
        p = Proc()
        p.vpid, p.report, p.start, p.spec, p.status = 900000 + len(self.procs), {}, self.now, {}, status
        p.exit_at = p.exited_at = self.now
        p.zombie, p.reaped, p.orphan, p.n = True, False, False, -1
        p.term, p.kill = [], []
        self.procs[p.vpid] = p

    def child_escaped(self, what):
        self.child_report({"error": "forked child went on as a daemon (%s)" % what, "escaped": True})

    def child_report(self, d):
        try:
            fd = os.open(self.report_file, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.write(fd, json.dumps(d).encode())
            os.close(fd)
        finally:
            real._exit(0)

    def child_exec(self, path, argv, env):
        fds = {}
        for n in os.listdir("/proc/self/fd"):
            n = int(n)
            try:
                fl = fcntl.fcntl(n, fcntl.F_GETFD)
                if n > 2 and (fl & fcntl.FD_CLOEXEC):
                    continue
                fds[str(n)] = os.readlink("/proc/self/fd/%d" % n)
            except OSError:
                pass
        disp = {}
        for s in range(1, 32):
            try:
                h = self.handlers.get(s, real.sig_getsignal(s))
            except ValueError:
                continue
            disp[str(s)] = "ign" if h is signal.SIG_IGN else "dfl"
        try:
            mask = sorted(int(s) for s in signal.pthread_sigmask(signal.SIG_BLOCK, []))
        except Exception:
            mask = []
        acc = {}
        for n in (0, 1, 2):
            try:
                acc[str(n)] = fcntl.fcntl(n, fcntl.F_GETFL) & (os.O_ACCMODE | os.O_APPEND)
            except OSError:
                acc[str(n)] = None
        same = False
        try:
            a, b = os.fstat(1), os.fstat(2)
            same = (a.st_dev, a.st_ino) == (b.st_dev, b.st_ino)
            # do both streams share one file offset?
            if same and acc["1"] is not None and os.path.isfile(fds.get("1", "")):
                os.write(1, b"O"), os.write(2, b"E")
        except OSError:
            pass
        self.child_report({"path": path, "argv": argv, "env": env, "cwd": os.getcwd(), "fds": fds, "disp": disp,
                           "mask": mask, "pgid_leader": os.getpgid(0) == real.getpid(), "acc": acc, "same": same,
                           "umask": None})

    def wait(self, pid, options):
        live = [p for p in self.procs.values() if not p.reaped and not p.orphan
                and (pid in (-1, 0) or p.vpid == pid)]
        if not live:
            raise ChildProcessError(errno.ECHILD, "No child processes")
        self.settle()
        while True:
            z = sorted((p for p in live if p.zombie), key=lambda p: (p.exited_at, p.vpid))
            if z:
                p = z[self.choose(len(z), "zombie%d" % len(z))] if len(z) > 1 else z[0]
                p.reaped = True
                self.hooks.on_reap(self, p)
                return (p.vpid, p.status)
            if options & os.WNOHANG:
                return (0, 0)
            self.sleep(0.05)

    def kill(self, pid, sig, how):
        if self.in_child:
            self.child_report({"error": "forked child sent signal %d" % sig, "escaped": True})
        p = self.procs.get(pid)
        if p is None or p.reaped or p.orphan:
            if sig != 0:
                self.hooks.on_bad_kill(self, pid, sig)
            raise ProcessLookupError(errno.ESRCH, "No such process")
        if sig == 0:
            return
        self.hooks.on_kill(self, p, sig)
        if p.zombie:
            return
        if sig == signal.SIGKILL:
            p.kill.append(self.now)
            # "slow": stuck in the kernel for a while even after SIGKILL
            p.exit_at, p.status = self.now + (25000000 if p.spec.get("term") == "slow" else 10000), 9
        elif sig == signal.SIGTERM:
            p.term.append(self.now)
            how = p.spec.get("term", "die")
            if how == "die":
                if p.exit_at is None or p.exit_at > self.now + 100000:
                    p.exit_at, p.status = self.now + 100000, 15
            elif isinstance(how, (int, float)):
                e = self.now + int(how * 1e6)
                if p.exit_at is None or p.exit_at > e:
                    p.exit_at, p.status = e, 7 << 8
        elif sig not in (signal.SIGCONT, signal.SIGCHLD):
            p.exit_at, p.status = self.now + 10000, sig

    # -- signals to the daemon
    def deliver(self, sig, frame=None):
        h = self.handlers.get(int(sig), signal.SIG_DFL)
        self.delivered += 1
        self.hooks.on_deliver(self, int(sig))
        if h is signal.SIG_IGN:
            return
        if h is signal.SIG_DFL or h is None:
            raise SimKill("signal %d with default action" % sig)
        h(int(sig), frame)

    # -- files
    def on_open(self, path, mode, flags):
        if path.startswith(self.root):
            self.hooks.on_open(self, path, mode, flags)

    def on_remove(self, path, event):
        if path.startswith(self.root):
            self.hooks.on_remove(self, path)


class NullHooks:
    def on_pump(self, w): pass
    def on_exit(self, w, p): pass
    def on_start(self, w, p): pass
    def on_reap(self, w, p): pass
    def on_kill(self, w, p, sig): pass
    def on_bad_kill(self, w, pid, sig): pass
    def on_deliver(self, w, sig): pass
    def on_open(self, w, path, mode, flags): pass
    def on_remove(self, w, path): pass


class hang_guard:
    """real-time limit for one execution"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def h(s, f):
            raise Hang("an execution did not finish within %g s of real time" % self.seconds)
        self.old = real.sig_signal(signal.SIGALRM, h)
        real.sig_setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        real.sig_setitimer(signal.ITIMER_REAL, 0)
        real.sig_signal(signal.SIGALRM, self.old)
        return False
