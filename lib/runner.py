"""Common frame of all checks: environment, evidence, verdict."""
import os, sys, json, time, shutil, tempfile, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DSARI_REPO", "/repo")
T0 = time.time()


def bootstrap():
    """re-execute under the project's interpreter with a fixed environment"""
    if os.environ.get("DSARI_MC") == "1":
        return
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    home = tempfile.mkdtemp(prefix="dsarimc-home.")
    env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": home, "DSARI_HOME": home, "TZ": "UTC", "LANG": "C.UTF-8",
           "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
           "PYTHONPYCACHEPREFIX": "/nonexistent/pycache", "PYTHONPATH": REPO + ":" + os.path.join(VERIF, "lib"),
           "DSARI_MC": "1", "DSARI_MC_HOME": home, "DSARI_REPO": REPO, "PYTHONUTF8": "0",
           "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": os.environ.get("VERIF_TIER", "quick")}
    for k in ("DSARI_MC_WALL", "DSARI_MC_PROCS"):
        if k in os.environ:
            env[k] = os.environ[k]
    pid = os.fork()
    if pid == 0:
        os.execve(py, [py, "-u"] + sys.argv, env)
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(home, ignore_errors=True)
    shutil.rmtree(os.path.join("/dev/shm", "dsarimc-" + os.path.basename(home)), ignore_errors=True)
    os._exit(128 + (st & 0x7f) if st & 0x7f else st >> 8)


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % prop):
                    key, _, what = line.split(" ", 2)[2].partition(" ")
                    out.append((key[len("key="):], what))
    except OSError:
        pass
    return out


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = T0
        self.violations = []      # dicts with at least key, what

    def wall(self, quick, thorough):
        w = os.environ.get("DSARI_MC_WALL")
        return float(w) if w else (quick if self.tier == "quick" else thorough)

    def violation(self, key, what, **detail):
        d = {"key": key, "what": what}
        d.update(detail)
        self.violations.append(d)

    def finish(self, level, coverage, assumptions=(), errors=()):
        known = known_findings(self.prop)
        for k, what in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        new = [v for v in self.violations if not any(v["key"] == k for k, _ in known)]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": coverage,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new), "assumptions": list(assumptions)}
        if errors:
            ev["coverage"]["harness_errors"] = len(errors)
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", "%s.json" % self.prop), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
            f.write("\n")
        short = {k: v for k, v in coverage.items() if isinstance(v, (int, float, bool))}
        print("%s %s: %s, %.1f s" % (self.prop, self.tier, json.dumps(short), time.time() - self.t0))
        for e in list(errors)[:3]:
            print("harness error: %s" % e)
        if new:
            path = os.path.join(VERIF, "evidence", "replay", "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump({"property": self.prop, "violations": new[:20]}, f, indent=1, default=str)
                f.write("\n")
            for v in new[:5]:
                print("  %s" % v["what"])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            return 1
        if errors and len(errors) * 10 > coverage.get("executions", coverage.get("units", 0)):
            return 2
        return 0
