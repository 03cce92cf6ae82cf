"""Calling the programs' entry points in this process, and scratch directories."""
import sys, io, os, shutil, tempfile, contextlib

import vos
import dsari.config
import dsari.info

_base = None
BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None


def scratch():
    """a directory of this worker process"""
    global _base
    if _base is None or _base[0] != os.getpid():
        home = os.environ.get("DSARI_MC_HOME")
        root = os.path.join(BASE, "dsarimc-" + os.path.basename(home)) if BASE and home else home
        os.makedirs(root or tempfile.gettempdir(), exist_ok=True)
        _base = (os.getpid(), tempfile.mkdtemp(prefix="w.", dir=root))
    return _base[1]


def fresh(name="d"):
    p = os.path.join(scratch(), name)
    shutil.rmtree(p, ignore_errors=True)
    os.makedirs(p)
    return p


class Res:
    """rc: exit code (1 for an exception); kind: ok, config (invalid configuration), exit, crash"""

    def __init__(self, rc, kind, out, err, exc=None):
        self.rc, self.kind, self.out, self.err, self.exc = rc, kind, out, err, exc

    def __repr__(self):
        return "<%s rc=%s %r %.200r>" % (self.kind, self.rc, self.exc, self.err)


class _Out(io.TextIOWrapper):
    def __init__(self):
        super().__init__(io.BytesIO(), encoding="utf-8", newline="\n", write_through=True)

    def value(self):
        self.flush()
        return self.buffer.getvalue()


def call(main, argv, prog="prog"):
    out, err = _Out(), _Out()
    old = sys.argv
    sys.argv = [prog] + list(argv)
    rc, kind, exc = 0, "ok", None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                r = main()
                rc = r if isinstance(r, int) else 0 if r is None else 1
                kind = "ok" if rc == 0 else "exit"
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                kind = "ok" if rc == 0 else "exit"
            except dsari.config.ConfigError as e:
                rc, kind, exc = 1, "config", e
            except Exception as e:
                rc, kind, exc = 1, "crash", e
    finally:
        sys.argv = old
    return Res(rc, kind, out.value().decode("utf-8", "surrogateescape"), err.value().decode("utf-8", "replace"), exc)


def info(config_dir, *args):
    return call(dsari.info.main, ["--config-dir", config_dir] + list(args), "dsari-info")


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))
