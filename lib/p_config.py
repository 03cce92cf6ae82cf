"""C01-C03: configuration loading, validation and dumping, through dsari-info, on finite fully enumerated domains.

A state is a configuration directory (as loaded); a transition is one run of dsari-info on it.
"""
import itertools, json, os, copy, math, datetime

import yaml

import vos, sweep, cli
import dsari.config

NOW = 1600000000 * 10 ** 6 + 123456
NOWDT = datetime.datetime(2020, 1, 13, 12, 0, tzinfo=datetime.timezone.utc)
JULY = datetime.datetime(2020, 7, 13, 12, 0, tzinfo=datetime.timezone.utc)


def dump(cd, *extra, fmt="json"):
    r = cli.info(cd, "config", "dump", "--format", fmt, *extra)
    if r.kind != "ok":
        return r, None
    return r, (json.loads(r.out) if fmt == "json" else yaml.safe_load(r.out))


def lay(files, name="etc"):
    os.chdir(cli.scratch())
    cd = cli.fresh(name)
    for fn, v in files.items():
        if not isinstance(v, (bytes, str)):
            v = yaml.safe_dump(v) if fn.endswith(".yaml") else json.dumps(v)
        cli.write(os.path.join(cd, fn), v)
    return cd


def same(a, b):
    """equal, telling apart 1, 1.0 and True"""
    if type(a) != type(b):
        return type(a) in (int, float) and type(b) in (int, float) and a == b
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and math.isnan(a):
        return math.isnan(b)
    return a == b


# ------------------------------------------------------------------------------------------------ C01
LAYERS = ["dsari.yaml", "dsari.json", "config.d/10.yaml", "config.d/9.yaml", "config.d/B.json", "config.d/a.json"]
DOCS = [{"x": 1}, {"x": {"k": 1}}, {"x": {"k": {"z": 2}, "l": [1, 2]}}, {"x": {"k": {"y": {"w": "s"}, "z": None}, "l": [3]}},
        {"x": {}}, {"x": "s", "y": {"k": [1]}}, {"x": [{"k": 1}]}, {"x": None}, {}]
JUNK = ["config.d/README", "config.d/c.yml", "config.d/d.json~", "config.d/e.json.bak", "config.d/f.JSONx", "dsari.yml", "other.json",
        "config.d/yaml", "config.d/json", "config.d/g.YAML", "config.d/h.Json", "config.d/.json.swp", "config.d/ijson", "config.d/k.yaml~"]


def merge(a, b):
    if not (isinstance(a, dict) and isinstance(b, dict)):
        return copy.deepcopy(b)
    out = copy.deepcopy(a)
    for k, v in b.items():
        out[k] = merge(out[k], v) if k in out else copy.deepcopy(v)
    return out


def c01_merge(unit, rec):
    layers, first = unit
    for rest in itertools.product([None] + list(range(len(DOCS))), repeat=len(layers) - 1):
        pick = (first,) + rest
        files, want = {}, {}
        for l, p in zip(layers, pick):
            if p is not None:
                files[l] = DOCS[p]
                want = merge(want, DOCS[p])
        for j in [JUNK[(sum(x or 0 for x in pick) * 3 + i) % len(JUNK)] for i in range(3)]:
            files[j] = "jobs: {{{ not for reading"
        cd = lay(files)
        rec.state(layers, pick)
        r, got = dump(cd, "--raw")
        rec.step()
        rec.trace()
        if not same(got, want):
            rec.bad("merge", "layers %r give %r, expected %r (%r)" % (files, got, want, r), files=files)
    rec.sample(files=files, merged=want)


class listing:
    """os.listdir / os.scandir of one directory answer in a given order"""

    def __init__(self, order):
        self.order = order

    def __enter__(self):
        self.l, self.s = os.listdir, os.scandir

        def key(n):
            n = os.fsdecode(n)
            return self.order.index(n) if n in self.order else len(self.order)

        def listdir(p="."):
            return sorted(self.l(p), key=key)

        class Scan:
            def __init__(s, p="."):
                with self.s(p) as it:
                    s.e = iter(sorted(it, key=lambda e: key(e.name)))

            def __iter__(s):
                return s

            def __next__(s):
                return next(s.e)

            def __enter__(s):
                return s

            def __exit__(s, *a):
                pass

            def close(s):
                pass
        os.listdir, os.scandir = listdir, Scan

    def __exit__(self, *a):
        os.listdir, os.scandir = self.l, self.s


def c01_order(unit, rec):
    names, junk = unit
    files = {"config.d/" + n: {"x": {"last": n, n: 1}, "environment": {"LAST": n}} for n in names}
    for j in junk:
        files["config.d/" + j] = "{{{"
    files["dsari.json"] = {"x": {"last": "main"}, "environment": {"LAST": "main", "M": "1"}}
    cd = lay(files)
    os.makedirs(os.path.join(cd, "config.d", "zz.json"), exist_ok=True)
    os.makedirs(os.path.join(cd, "config.d", "zz.yaml"), exist_ok=True)
    seq = sorted(n for n in names if n.endswith(".yaml")) + sorted(n for n in names if n.endswith(".json"))
    want = files["dsari.json"]
    for n in seq:
        want = merge(want, files["config.d/" + n])
    for order in itertools.permutations(names + junk + ["zz.json", "zz.yaml"][:1]):
        with listing(list(order)):
            r, got = dump(cd, "--raw")
            r2, eff = dump(cd)
        rec.state(names, order)
        rec.step(2)
        rec.trace()
        if not same(got, want) or eff is None or eff["environment"] != want["environment"]:
            rec.bad("order", "config.d %r listed as %r gives %r, expected %r (%r)" % (names, order, got, want, r))
    rec.sample(config_d=names, order=order, merged=want)


def c01_configd(unit, rec):
    """where config_d comes from"""
    y, j, d = unit
    files = {"extra/a.json": {"x": {"extra": 1}, "config_d": "ETC/third"}, "extra/b.yaml": {"x": {"extra_b": 1}},
             "config.d/a.json": {"x": {"std": 1}}, "third/a.json": {"x": {"third": 1}}}
    src = None
    cd = cli.fresh("etc")
    vals = {"extra": os.path.join(cd, "extra"), "none": None, "missing": os.path.join(cd, "nosuch"), "third": os.path.join(cd, "third"),
            "file": os.path.join(cd, "dsari.json")}
    eff = "std"
    for fn, v in (("dsari.yaml", y), ("dsari.json", j)):
        if v != "absent":
            doc = {} if v == "default" else {"config_d": vals[v]}
            doc["x"] = {fn: 1}
            files[fn] = doc
            if v != "default":
                eff = v
    if d != "absent":
        files["config.d/z.json"] = {"config_d": vals[d], "x": {"z": 1}}
    for fn, v in files.items():
        v = json.loads(json.dumps(v).replace("ETC", cd))
        files[fn] = v
        cli.write(os.path.join(cd, fn), yaml.safe_dump(v) if fn.endswith(".yaml") else json.dumps(v))
    where = {"std": "config.d", "extra": "extra", "third": "third"}.get(eff)
    want = {}
    for fn in ("dsari.yaml", "dsari.json"):
        want = merge(want, files.get(fn, {}))
    if where:
        here = [f for f in files if f.startswith(where + "/")]
        for f in sorted(f for f in here if f.endswith(".yaml")) + sorted(f for f in here if f.endswith(".json")):
            want = merge(want, files[f])
    r, got = dump(cd, "--raw")
    rec.state(unit)
    rec.step()
    rec.trace()
    if not same(got, want):
        rec.bad("config_d %r" % (unit,), "config_d %r in dsari.yaml, %r in dsari.json, %r in config.d gives %r, expected %r (%r)" % (y, j, d, got, want, r))


JOBOPTS = {"schedule": ["H * * * *", None], "schedule_timezone": ["Asia/Kolkata"], "max_execution": [5, 1.5], "max_execution_grace": [2],
           "environment": [{"A": "1"}, {}], "render_reports": [False], "command_append_run": [True], "jenkins_environment": [True],
           "job_group": ["other"], "concurrent_runs": [True], "concurrency_groups": [["g1"], ["g2", "g1"]]}


def optsets(k):
    for n in range(k + 1):
        for ks in itertools.combinations(sorted(JOBOPTS), n):
            for vs in itertools.product(*[JOBOPTS[x] for x in ks]):
                yield dict(zip(ks, vs))


def c01_groups(unit, rec):
    """a job group equals its jobs written out"""
    for opts in unit:
        for command in (["a", "b"], "a 'b c'"):
            for names in ([], ["j1"], ["j1", "j 2", "a"], ["solo", "j1"]):
                vos.CLOCK = NOW
                main = {"jobs": {"solo": {"command": ["x"]}}, "concurrency_groups": {"g1": {"max": 3}}, "environment": {"B": "2"}}
                g = dict(main, job_groups={"grp": dict(opts, command=command, job_names=names)})
                o = dict(main, jobs=dict(main["jobs"]))
                for n in names:
                    o["jobs"][n] = dict(opts, command=command, job_group="grp")
                _, a = dump(lay({"dsari.json": g}, "e1"))
                _, b = dump(lay({"dsari.yaml": o}, "e2"))
                vos.CLOCK = None
                rec.state("grp", opts, command, names)
                rec.step(2)
                rec.trace()
                if a is not None:
                    a["config_d"] = b["config_d"]
                if a is None or not same(a, b) or sorted(a["jobs"]) != sorted({"solo"} | set(names)):
                    rec.bad("group %r" % opts, "job group %r is %r, its jobs written out are %r" % (g, a, b))


def c01_typed(unit, rec):
    """effective options of layered documents equal those of the merged document"""
    layers, first = unit
    docs = [{"environment": {"A": "1"}, "jobs": {"j": {"command": ["c"], "max_execution": 5}}},
            {"environment": {"A": "2", "B": "3"}, "concurrency_groups": {"g": {"max": 2}}},
            {"jobs": {"j": {"command": ["d", "e"], "environment": {"J": "1"}, "concurrency_groups": ["g", "h"]}}, "shutdown_kill_runs": True},
            {"jobs": {"k": {"command": "x y", "schedule": "H H * * *"}}, "concurrency_groups": {"g": {}, "h": {"max": 5}}},
            {"environment": {"A": "4"}, "shutdown_kill_grace": 3, "database": {"extra": "1"}, "jobs": {"j": {"command": ["z"], "concurrent_runs": True}}}]
    for rest in itertools.product([None] + docs, repeat=len(layers) - 1):
        files, want = {}, {}
        for l, d in zip(layers, (docs[first],) + rest):
            if d is not None:
                files[l] = d
                want = merge(want, d)
        vos.CLOCK = NOW
        r, a = dump(lay(files, "e1"))
        r2, b = dump(lay({"dsari.json": want}, "e2"))
        vos.CLOCK = None
        rec.state(layers, files)
        rec.step(2)
        rec.trace()
        if a is not None:
            a["config_d"] = b and b["config_d"]
        if a is None or not same(a, b):
            rec.bad("typed", "layers %r are in effect %r (%r), expected %r" % (files, a, r, b))


def c01(c):
    th = c.tier == "thorough"
    k = 4 if th else 3
    units = []
    for layers in itertools.combinations(LAYERS, k):
        for first in [None] + list(range(len(DOCS))):
            units.append(("merge", (layers, first)))
    for layers in itertools.combinations(LAYERS, 4 if th else 3):
        for first in range(5):
            units.append(("typed", (layers, first)))
    pool = ["10.yaml", "9.yaml", "B.json", "a.json", "a.yaml", ".b.json", "Z z.json", "a-b.json", "a.b.yaml"]
    junks = [["c.yml"], ["c.json~"], ["README"], ["d.json.bak"], ["c.YAML"], ["c.JSON"]]
    for i, names in enumerate(itertools.combinations(pool, 4 if th else 3)):
        for junk in [[]] + (junks if th else junks[i % 6:i % 6 + 1]):
            units.append(("order", (list(names), junk)))
    for u in itertools.product(["absent", "default", "extra", "none", "missing", "third"], ["absent", "default", "extra", "none", "missing", "third"],
                               ["absent", "extra", "third", "none"]):
        units.append(("configd", u))
    opts = list(optsets(3 if th else 2))
    for i in range(0, len(opts), 10):
        units.append(("groups", opts[i:i + 10]))
    fn = {"merge": c01_merge, "order": c01_order, "configd": c01_configd, "groups": c01_groups, "typed": c01_typed}
    tot = sweep.sweep(units, lambda u, r: fn[u[0]](u[1], r), c.wall(200, 3000))
    return sweep.finish(c, tot, "every assignment of %d conflicting documents (or none) to every %d of the 6 layers; every listing "
                        "order of every %d config.d files; every place of config_d; every job group with up to %d options"
                        % (len(DOCS), k, 4 if th else 3, 3 if th else 2), ["observed through dsari-info config dump"], units=len(units))


# ------------------------------------------------------------------------------------------------ C02
class Raw(str):
    """literal text for a value, in JSON (only) or YAML (only)"""


A, R, E = "accept", "reject", "either"
VALUES = {  # name: (json text or None, yaml text, python value)
    "null": ("null", "null", None), "true": ("true", "true", True), "false": ("false", "false", False), "0": ("0", "0", 0), "1": ("1", "1", 1),
    "7": ("7", "7", 7), "-1": ("-1", "-1", -1), "1.5": ("1.5", "1.5", 1.5), "0.0": ("0.0", "0.0", 0.0), "1e3": ("1e3", "1.0e+3", 1000.0),
    "1e400": ("1e400", ".inf", math.inf), "nan": ("NaN", ".nan", math.nan), "10**30": ("1" + "0" * 30, "1" + "0" * 30, 10 ** 30),
    "''": ('""', "''", ""), "'x'": ('"x"', "x", "x"), "'1'": ('"1"', "'1'", "1"), "'a b'": ('"a b"', "a b", "a b"), "'true'": ('"true"', "'true'", "true"),
    "[]": ("[]", "[]", []), "['x']": ('["x"]', "[x]", ["x"]), "['x','y']": ('["x","y"]', "[x, y]", ["x", "y"]), "[1]": ("[1]", "[1]", [1]), "[null]": ("[null]", "[null]", [None]),
    "['x',2]": ('["x",2]', "[x, 2]", ["x", 2]), "[[]]": ("[[]]", "[[]]", [[]]), "[['x']]": ('[["x"]]', "[[x]]", [["x"]]), "[{}]": ("[{}]", "[{}]", [{}]),
    "{}": ("{}", "{}", {}), "{'A':'b'}": ('{"A":"b"}', "{A: b}", {"A": "b"}), "{'A':1}": ('{"A":1}', "{A: 1}", {"A": 1}),
    "{'A':1.5}": ('{"A":1.5}', "{A: 1.5}", {"A": 1.5}), "{'A':true}": ('{"A":true}', "{A: true}", {"A": True}), "{'A':null}": ('{"A":null}', "{A: null}", {"A": None}),
    "{'A':[]}": ('{"A":[]}', "{A: []}", {"A": []}), "{'A':{}}": ('{"A":{}}', "{A: {}}", {"A": {}}), "{'A':{'b':1}}": ('{"A":{"b":1}}', "{A: {b: 1}}", {"A": {"b": 1}}),
    "{1:'b'}": (None, "{1: b}", {1: "b"}), "{null:'b'}": (None, "{null: b}", {None: "b"}), "date": (None, "2020-01-02", datetime.date(2020, 1, 2)),
    "datetime": (None, "2020-01-02T03:04:05Z", 0), "binary": (None, "!!binary aGk=", b"hi"), "set": (None, "!!set {a}", {"a"}),
    "'* * * * *'": ('"* * * * *"', "'* * * * *'", "* * * * *"), "'RRULE:FREQ=DAILY'": ('"RRULE:FREQ=DAILY"', "'RRULE:FREQ=DAILY'", "RRULE:FREQ=DAILY"),
    "'UTC'": ('"UTC"', "UTC", "UTC"), "'Asia/Kolkata'": ('"Asia/Kolkata"', "Asia/Kolkata", "Asia/Kolkata"), "'No/Where'": ('"No/Where"', "No/Where", "No/Where"),
    "'x\\'y'": ('"x\'y"', '"x\'y"', "x'y"), "'\"q'": ('"\\"q"', "'\"q'", '"q'),
}
NUM = {"0", "1", "7", "1.5", "0.0", "1e3"}
INT = {"0", "1", "7"}
BOOL = {"true", "false"}
STR = {k for k, v in VALUES.items() if type(v[2]) is str}
ENV = {"{}", "{'A':'b'}", "{'A':1}", "{'A':1.5}"}


def typed(ok, value=lambda v: v, either=()):
    return lambda k: (A, value(VALUES[k][2])) if k in ok else (E, None) if k in either else (R, None)


def env(k):
    v = VALUES[k][2]
    return (A, {a: b if type(b) is str else str(b) for a, b in v.items()}) if k in ENV else (R, None)


def names_list(k):
    v = VALUES[k][2]
    if type(v) is not list:
        return (R, None)
    return (A, sorted(v)) if all(type(x) is str and x for x in v) else (R, None)


def command(k):
    v = VALUES[k][2]
    if type(v) is str:
        import shlex
        try:
            v = shlex.split(v)
        except ValueError:
            return (R, None)
        return (A, v) if v else (R, None)
    if type(v) is list and v and all(type(x) is str for x in v):
        return (A, v)
    return (R, None)


def schedule(k):
    v = VALUES[k][2]
    if v is None:
        return (A, None)
    return (A, v) if k in ("'* * * * *'", "'RRULE:FREQ=DAILY'") else (R, None)


def timezone(k):
    if k in ("'UTC'", "'Asia/Kolkata'"):
        return (A, VALUES[k][2])
    return (E, None) if k == "''" else (R, None)


def group_map(item):
    def f(k):
        v = VALUES[k][2]
        if type(v) is not dict:
            return (R, None)
        return item(k, v)
    return f


NEG = {"-1", "10**30"}
OPTIONS = {  # (section, option): verdict function giving the effective value
    ("main", "config_d"): lambda k: (E, None) if type(VALUES[k][2]) is str else (A, None) if k == "null" else (R, None),
    ("main", "data_dir"): lambda k: (E, None) if type(VALUES[k][2]) is str else (R, None),
    ("main", "template_dir"): typed(STR), ("main", "report_html_gz"): typed(BOOL), ("main", "report_run_output_start"): typed(INT, either=NEG),
    ("main", "report_run_output_end"): typed(INT, either=NEG), ("main", "shutdown_kill_runs"): typed(BOOL), ("main", "shutdown_kill_grace"): typed(NUM, either=NEG),
    ("main", "environment"): env,
    ("main", "database"): lambda k: (E, None) if type(VALUES[k][2]) is dict else (R, None),
    ("main", "jobs"): group_map(lambda k, v: (A, sorted(v)) if k == "{}" else (R, None)),
    ("main", "job_groups"): group_map(lambda k, v: (A, None) if k == "{}" else (R, None)),
    ("main", "concurrency_groups"): group_map(lambda k, v: (A, {a: {"max": 1} for a in v}) if k in ("{}", "{'A':{}}", "{'A':{'b':1}}") else (R, None)),
    ("group", "max"): typed(INT, either=NEG), ("group", None): group_map(lambda k, v: (E, None) if k in ("{1:'b'}", "{null:'b'}") else (A, {"max": 1})),
    ("job", "command"): command, ("job", "schedule"): schedule, ("job", "schedule_timezone"): timezone,
    ("job", "max_execution"): typed(NUM, either=NEG), ("job", "max_execution_grace"): typed(NUM, either=NEG), ("job", "environment"): env,
    ("job", "render_reports"): typed(BOOL), ("job", "command_append_run"): typed(BOOL), ("job", "jenkins_environment"): typed(BOOL),
    ("job", "job_group"): typed(STR), ("job", "concurrent_runs"): typed(BOOL), ("job", "concurrency_groups"): names_list,
    ("job", None): lambda k: (R, None),
}
JOBDEF = {"command": ["cmd"], "command_append_run": False, "environment": {}, "max_execution_grace": 60.0, "concurrency_groups": [],
          "render_reports": True, "jenkins_environment": False, "concurrent_runs": False}
MAINDEF = {"report_html_gz": False, "report_run_output_start": 0, "report_run_output_end": 0, "shutdown_kill_runs": False, "environment": {},
           "database": {"type": "sqlite3"}, "jobs": {}, "concurrency_groups": {}}


def doc(settings, fmt):
    """text of a configuration with the given {(section, option): value name}; None if not expressible"""
    i = 0 if fmt == "json" else 1
    main, job, group = {}, {"command": '["cmd"]'}, {}
    jt = gt = None
    for (sec, opt), k in settings.items():
        t = VALUES[k][i]
        if t is None:
            return None
        if opt is None and sec == "job":
            jt = t
        elif opt is None:
            gt = t
        else:
            {"main": main, "job": job, "group": group}[sec][opt] = t
    m = lambda d: "{" + ", ".join('"%s": %s' % kv for kv in d.items()) + "}"
    if "jobs" not in main and any(s == "job" for s, _ in settings):
        main["jobs"] = m({"j": jt or m(job)})
    if "concurrency_groups" not in main and any(s == "group" for s, _ in settings):
        main["concurrency_groups"] = m({"cg": gt or m(group)})
    return m(main)


def expected(settings):
    verdict, main, job, group = A, copy.deepcopy(MAINDEF), copy.deepcopy(JOBDEF), {"max": 1}
    skip = set()
    for so, k in settings.items():
        v, val = OPTIONS[so](k)
        if v == R:
            return R, None, ()
        if v == E:
            verdict = E
        sec, opt = so
        if opt is None:
            continue
        {"main": main, "job": job, "group": group}[sec][opt] = val
        if v == E or (sec, opt) in (("main", "config_d"), ("main", "job_groups")):
            skip.add(so)
    if any(s == "job" for s, _ in settings) and ("main", "jobs") not in settings:
        main["jobs"] = {"j": job}
        for g in job["concurrency_groups"] or ():
            main["concurrency_groups"].setdefault(g, {"max": 1})
    if any(s == "group" for s, _ in settings) and ("main", "concurrency_groups") not in settings:
        main["concurrency_groups"]["cg"] = group
    return verdict, main, skip


def strip(d):
    return {k: v for k, v in d.items() if v is not None} if isinstance(d, dict) else d


def judge(rec, what, want, cd, main=None, skip=(), files=None):
    """one configuration directory: want in accept/reject/either"""
    r = cli.info(cd, "config", "check")
    rec.step()
    if r.kind == "crash" or (r.rc == 0) != (r.kind == "ok"):
        rec.bad("crash " + what, "%s: config check fails with %r instead of a configuration error" % (what, r.exc), files=files)
        return None
    if want == A and r.rc != 0:
        rec.bad("refused " + what, "%s: a valid configuration is refused: %s" % (what, r.exc or r.err[-300:]), files=files)
        return None
    if want == R and r.rc == 0:
        rec.bad("accepted " + what, "%s: an invalid configuration is accepted" % what, files=files)
        return None
    if r.rc != 0:
        return None
    if main is not None and ("main", "database") in skip:
        return None
    r2, got = dump(cd)
    rec.step()
    if got is None:
        rec.bad("dump " + what, "%s: accepted, but config dump fails: %r" % (what, r2), files=files)
        return None
    if main is not None:
        g = strip(got)
        for k, v in main.items():
            if ("main", k) in skip or v is None:
                if v is None and ("main", k) not in skip and g.get(k) is not None:
                    rec.bad("value " + what, "%s: %s is %r, expected unset" % (what, k, g.get(k)), files=files)
                continue
            if k == "database":
                continue
            if k == "jobs" and isinstance(v, dict):
                for jn, jv in v.items():
                    gj = (g.get("jobs") or {}).get(jn, {})
                    for o, ov in jv.items():
                        if ("job", o) not in skip and not same(gj.get(o), ov):
                            rec.bad("value " + what, "%s: job option %s is %r, expected %r" % (what, o, gj.get(o), ov), files=files)
                if set(g.get("jobs", {})) != set(v):
                    rec.bad("value " + what, "%s: jobs are %r, expected %r" % (what, sorted(g["jobs"]), sorted(v)), files=files)
                continue
            if k == "concurrency_groups":
                for gn, gv in v.items():
                    if ("group", "max") not in skip and not same(g.get(k, {}).get(gn), gv):
                        rec.bad("value " + what, "%s: concurrency group %s is %r, expected %r" % (what, gn, g.get(k, {}).get(gn), gv), files=files)
                continue
            if not same(g.get(k), v) and not (k == "jobs" and v == [] and g.get(k) == {}):
                rec.bad("value " + what, "%s: %s is %r, expected %r" % (what, k, g.get(k), v), files=files)
    return got


def c02_types(unit, rec):
    for settings in unit:
        for fmt, fn in (("json", "dsari.json"), ("yaml", "dsari.yaml"), ("json", "config.d/a.json")):
            if fn.startswith("config.d") and ("main", "config_d") in settings:
                continue
            text = doc(settings, fmt)
            if text is None:
                continue
            want, main, skip = expected(settings)
            if want == E:
                main = main or {}
            vos.CLOCK = NOW
            cd = lay({fn: text})
            os.chdir(cli.fresh("cwd"))
            rec.state(fn, text)
            judge(rec, "%s: %s" % (fn, text), want, cd, main, skip, {fn: text})
            rec.trace()
    vos.CLOCK = None
    rec.sample(file=fn, text=text, verdict=want)


OKCHARS = set("- ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_+.:@")
ALPHA = ["a", "Z", "9", "_", "+", ".", ":", "@", "-", " ", "/", "\\", "\n", "\x00", "\u00e9", "*", "~", "%", "'", "\t", "#", "\u0660", "\u212a", "\u2028"]


def valid_name(n):
    return 0 < len(n) <= 64 and set(n) <= OKCHARS and n not in (".", "..")


def contexts(n):
    return {"job": {"jobs": {n: {"command": ["x"]}}}, "job_groups": {"job_groups": {n: {"command": ["x"], "job_names": ["j"]}}},
            "job_names": {"job_groups": {"g": {"command": ["x"], "job_names": ["ok", n]}}}, "cg": {"concurrency_groups": {n: {"max": 2}}},
            "job cg": {"jobs": {"j": {"command": ["x"], "concurrency_groups": ["ok", n]}}}}


def c02_names(unit, rec):
    for n in unit:
        v = valid_name(n)
        if v:
            assert os.path.dirname(os.path.normpath(os.path.join("/base/x", n))) == "/base/x"
        for ctx, d in contexts(n).items():
            cd = lay({"dsari.json": d})
            rec.state(ctx, n)
            got = judge(rec, "%s named %r" % (ctx, n), A if v else R, cd)
            rec.trace()
            if got is not None and v:
                names = got["jobs"] if ctx in ("job", "job_names") else got["concurrency_groups"] if ctx in ("cg", "job cg") else [got["jobs"]["j"]["job_group"]]
                if n not in names:
                    rec.bad("lost name", "%s named %r is %r in effect" % (ctx, n, names))
    rec.sample(name=n, valid=v)


BADSCHED = ["", "x", "* * * *", "* * * * * * * *", "60 * * * *", "* 24 * * *", "* * 32 * *", "* * * 13 *", "* * * * 8", "*/0 * * * *", "a * * * *",
            "5-1x * * * *", "@nope", "RRULE:", "RRULE:FREQ=NEVER", "RRULE:BYHOUR=1", "rrule:freq=daily;byhour=x", "RRULE:FREQ=DAILY;UNTIL=99999999",
            "H(5-60) * * * *", "H(10-5) * * * *", "H/0 * * * *", "H(0-5)/0 * * * *", "* H(0-24) * * *", "* * H(0-5) * *", "* * * R(1-13) *", "H() * * * *", "0 0 30 2 *", "0 0 31 4 * 0",
            "1 2 3 4 5 60", "* * * * * H(0-60)", "R(7-3) * * * *", "RRULE:FREQ=DAILY;NOPE=1", "RRULE:FREQ=DAILY;INTERVAL=0", "Hx * * * *", "H(1-2 * * * *", "H(29-1)/2 * * * *", "* R(9-3)/7 * * *", "H(0-60)/60 * * * *", "* * H(1-32)/32 * *", "* * * * H(5-8)/9", "* * * * * H(59-3)/5", "* * H(0-0)/2 * *"]
GOODSCHED = ["* * * * *", "*/5 * * * *", "H * * * *", "H/15 * * * *", "H(0-29)/10 H(0-7) * * *", "R H H * *", "@hourly", "@daily", "@midnight", "@weekly",
             "@monthly", "@yearly", "@annually", "0 0 29 2 *", "1,2,3 4-6 * jan-mar mon-fri", "0 0 * * 7", "0 0 * * 7 0", "* * * * * *", "1 2 3 4 5 6",
             "RRULE:FREQ=DAILY", "RRULE:FREQ=MONTHLY;BYMONTHDAY=2,16", "rrule:freq=weekly;byday=mo", "RRULE:FREQ=DAILY;UNTIL=20200101T000000", "RRULE:FREQ=DAILY;UNTIL=20200101T000000Z",
             "RRULE:FREQ=DAILY;UNTIL=20300101", "RRULE:FREQ=HOURLY;INTERVAL=6", "RRULE:FREQ=YEARLY", "RRULE:FREQ=MONTHLY;BYDAY=-1FR", "H H 31 12 *", "H H(22-23) 1,15 * H"]


def c02_schedules(unit, rec):
    name, tz = unit
    for s, want in [(s, R) for s in BADSCHED] + [(s, A) for s in GOODSCHED]:
        j = {"command": ["x"], "schedule": s}
        if tz:
            j["schedule_timezone"] = tz
        for t in (NOW, NOW + 86400 * 10 ** 6 * 200):
            vos.CLOCK = t
            cd = lay({"dsari.json": {"jobs": {name: j}}})
            rec.state(name, tz, s, t)
            judge(rec, "schedule %r of %r in %s" % (s, name, tz), want, cd)
            rec.trace()
    vos.CLOCK = None


def c02_structure(unit, rec):
    """required options and shapes"""
    what, files, want = unit
    rec.state(what)
    judge(rec, what, want, lay(files), files={k: repr(v) for k, v in files.items()})
    rec.trace()


def structures():
    j = {"command": ["x"]}
    out = [("no command", {"dsari.json": {"jobs": {"a": {}}}}, R), ("null command", {"dsari.json": {"jobs": {"a": {"command": None}}}}, R),
           ("group without command", {"dsari.json": {"job_groups": {"g": {"job_names": ["a"]}}}}, R),
           ("group without job_names", {"dsari.json": {"job_groups": {"g": dict(j)}}}, R),
           ("job_names null", {"dsari.json": {"job_groups": {"g": dict(j, job_names=None)}}}, R),
           ("job_names string", {"dsari.json": {"job_groups": {"g": dict(j, job_names="a")}}}, R),
           ("job_names map", {"dsari.json": {"job_groups": {"g": dict(j, job_names={"a": 1})}}}, R),
           ("job_names numbers", {"dsari.json": {"job_groups": {"g": dict(j, job_names=[1])}}}, R),
           ("job_names null item", {"dsari.json": {"job_groups": {"g": dict(j, job_names=[None])}}}, R),
           ("job_names nested", {"dsari.json": {"job_groups": {"g": dict(j, job_names=[["a"]])}}}, R),
           ("job_names empty", {"dsari.json": {"job_groups": {"g": dict(j, job_names=[])}}}, A),
           ("group not a map", {"dsari.json": {"job_groups": {"g": ["a"]}}}, R), ("group null", {"dsari.json": {"job_groups": {"g": None}}}, R),
           ("bad option in group", {"dsari.json": {"job_groups": {"g": dict(j, job_names=["a"], max_execution="x")}}}, R),
           ("bad schedule in group", {"dsari.json": {"job_groups": {"g": dict(j, job_names=["a"], schedule="x")}}}, R),
           ("yaml job name number", {"dsari.yaml": "jobs: {1: {command: [x]}}"}, R), ("yaml job name null", {"dsari.yaml": "jobs: {null: {command: [x]}}"}, R),
           ("yaml job name bool", {"dsari.yaml": "jobs: {yes: {command: [x]}}"}, R), ("yaml group name number", {"dsari.yaml": "concurrency_groups: {1: {max: 2}}"}, R),
           ("yaml job group name", {"dsari.yaml": "job_groups: {1: {command: [x], job_names: [a]}}"}, R),
           ("yaml date key", {"dsari.yaml": "jobs: {2020-01-01: {command: [x]}}"}, R),
           ("unknown options", {"dsari.json": {"nope": 1, "jobs": {"a": dict(j, nope=[1])}, "concurrency_groups": {"g": {"nope": {}}}}}, A),
           ("nothing", {}, A), ("empty json map", {"dsari.json": "{}"}, A), ("empty yaml", {"dsari.yaml": ""}, A), ("comment yaml", {"dsari.yaml": "# nothing\n"}, A),
           ("empty json", {"dsari.json": ""}, R), ("empty json in config.d", {"config.d/a.json": ""}, R), ("empty yaml in config.d", {"config.d/a.yaml": ""}, A)]
    for fn in ("dsari.json", "dsari.yaml", "config.d/a.json", "config.d/b.yaml"):
        for k in sorted(VALUES):
            t = VALUES[k][0 if fn.endswith("json") else 1]
            if t is None:
                continue
            v = VALUES[k][2]
            want = A if k in ("{}",) or type(v) is dict else R
            if k == "null" and fn.endswith("yaml"):
                want = A
            if k == "''" and fn.endswith("yaml"):
                want = R
            out.append(("%s is %s" % (fn, t), {fn: t}, want))
        for bad in ("{", "}", "[", "{\"jobs\": ", "\"", "jobs: [", "a: b: c", "\tx: 1", "{\"jobs\": {}},", "{'jobs': {}}", "&a", "*a", "%x", "@x", "- a\nb: c", "!!python/object:os.system {}", "!x y", "a: !x y",
                    "? ", "a: 1\n---\nb: 2\n", "\ufeff{", b"\xff\xfe{\x00}\x00", b"{\"environment\": {\"A\": \"\xff\"}}", b"\x80", b"{\"jobs\": \x00}", "[" * 2000, "{\"a\":" * 2000):
            if len(bad) > 500 and fn.endswith("yaml"):
                continue        # takes the parser too long
            out.append(("%s with %.40r" % (fn, bad), {fn: bad}, E if fn.endswith("yaml") and bad in ("{'jobs': {}}", "? ", "&a") else R))
    return out


BASEDOC = {"shutdown_kill_runs": True, "shutdown_kill_grace": 5, "environment": {"A": "b"},
           "jobs": {"j1": {"command": ["x", "y"], "schedule": "H H * * *", "concurrency_groups": ["g"], "max_execution": 3.5}},
           "concurrency_groups": {"g": {"max": 2}}}


def c02_mutations(unit, rec):
    """every text at one edit from a valid document loads exactly as a parser reads it, or is rejected"""
    fn, edits = unit
    for text in edits:
        try:
            v = json.loads(text) if fn.endswith("json") else yaml.safe_load(text)
            ok = isinstance(v, dict) or (v is None and fn.endswith("yaml"))
        except Exception:
            ok = False
        rec.state(fn, text)
        vos.CLOCK = NOW
        cd = lay({fn: text})
        r = cli.info(cd, "config", "dump", "--raw")
        rec.step()
        rec.trace()
        if r.kind == "crash":
            rec.bad("mutation crash", "%s %r fails with %r instead of a configuration error" % (fn, text, r.exc))
        elif not ok and r.rc == 0:
            rec.bad("mutation accepted", "%s %r is accepted" % (fn, text))
        elif r.rc == 0 and not same(json.loads(r.out), json.loads(json.dumps(v or {}))):
            rec.bad("mutation value", "%s %r is read as %s" % (fn, text, r.out))
        vos.CLOCK = None


def edits(text, chars):
    out = set()
    for i in range(len(text) + 1):
        out.add(text[:i])
        out.add(text[:i] + text[i + 1:])
        for c in chars:
            out.add(text[:i] + c + text[i + 1:])
            out.add(text[:i] + c + text[i:])
    return sorted(out)


def c02(c):
    th = c.tier == "thorough"
    units = []
    singles = [{so: k} for so in OPTIONS for k in VALUES]
    pairs = []
    sos = [so for so in OPTIONS if so[1]]
    for a, b in itertools.combinations(sos, 2):
        ka = sorted(VALUES) if th else ["null", "true", "7", "1.5", "'x'", "['x']", "{'A':'b'}", "'* * * * *'"]
        kb = ["null", "true", "7", "'x'", "['x']", "{'A':'b'}"]
        if {a, b} & {("main", "jobs")} and {a[0], b[0]} & {"job"} or {a, b} & {("main", "concurrency_groups")} and {a[0], b[0]} & {"group", "job"} or {a, b} & {("main", "job_groups")}:
            continue
        for x in ka:
            for y in kb:
                if th or OPTIONS[a](x)[0] == A and OPTIONS[b](y)[0] == A:
                    pairs.append({a: x, b: y})
    both = singles + pairs
    for i in range(0, len(both), 60):
        units.append(("types", both[i:i + 60]))
    names = [""] + ALPHA + [a + b for a in ALPHA for b in ALPHA] + ["..a", "...", "a..", "../x", "a/../b", "/etc", "a" * 63, "a" * 64, "a" * 65, "a" * 300, "\u00e9" * 40,
                                                                    "..\n", ".\n", "a\n", "a" * 64 + "\n", " .", ". ", "..\x00", "con", "-c", "--help"]
    if th:
        names += [a + b + d for a in ALPHA for b in ALPHA for d in ALPHA]
    for i in range(0, len(names), 40):
        units.append(("names", names[i:i + 40]))
    for n in ("a", "job 1", "backup.daily", "x@y"):
        for tz in (None, "America/New_York", "Pacific/Chatham"):
            units.append(("schedules", (n, tz)))
    for s in structures():
        units.append(("structure", s))
    for fn, text in (("dsari.json", json.dumps(BASEDOC)), ("dsari.yaml", yaml.safe_dump(BASEDOC))):
        e = edits(text, ["\"", "{", "0"] if not th else ["\"", "'", "{", "}", "[", ",", ":", "0", "-", "\n", " ", "#", "\x00", "&", "*", "!"])
        for i in range(0, len(e), 60):
            units.append(("mutations", (fn, e[i:i + 60])))
    fn = {"types": c02_types, "names": c02_names, "schedules": c02_schedules, "structure": c02_structure, "mutations": c02_mutations}
    tot = sweep.sweep(units, lambda u, r: fn[u[0]](u[1], r), c.wall(200, 3000))
    return sweep.finish(c, tot, "every documented option with every one of %d values, alone and in accepted pairs; every name of up to %d characters "
                        "over %d adversarial characters in five places; every single edit of a valid document" % (len(VALUES), 3 if th else 2, len(ALPHA)),
                        ["JSON and YAML syntax are left to the parsers; a document is invalid if they refuse it"], units=len(units))


# ------------------------------------------------------------------------------------------------ C03
DUMPOPTS = [("main", o, v) for o, vs in {
    "config_d": [None, "/nonexistent/x"], "template_dir": ["/t", ""], "report_html_gz": [True], "report_run_output_start": [5], "report_run_output_end": [7],
    "shutdown_kill_runs": [True], "shutdown_kill_grace": [0, 2.5, 3600], "environment": [{}, {"A": "b", "C": 1, "D": 1.5, "E": "", "F": "y: [", "G": "\u00e9\n"}],
    "database": [{}, {"type": "sqlite3", "file": None}, {"file": ":memory:"}, {"type": "sqlite3", "extra": [1, {"a": None}]}]}.items() for v in vs] + \
    [("job", o, v) for o, vs in {
        "command": ["a 'b c' \"d\"", ["a", "", " ", "\u00e9", "{x}", "-n", "null", "1"]], "schedule": ["H * * * *", "R R * * *", "RRULE:FREQ=DAILY", "rrule:freq=daily;until=20200101T000000", "@daily", None],
        "schedule_timezone": ["UTC", "Asia/Kolkata", "America/New_York"], "max_execution": [0, 1, 0.25, 1e6], "max_execution_grace": [0, 5, 0.5],
        "environment": [{"J": "1", "N": 2, "Y": "yes", "D": "2020-01-01"}], "render_reports": [False], "command_append_run": [True], "jenkins_environment": [True],
        "job_group": ["g", "", "not a name/"], "concurrent_runs": [True], "concurrency_groups": [[], ["g1"], ["z", "a", "g1"], ["a", "a"]]}.items() for v in vs] + \
    [("group", o, v) for o, vs in {"max": [0, 1, 5, -1]}.items() for v in vs] + [("names", "job", n) for n in ("1", "null", "true", "1e3", "- a", "a: b", "2020-01-01", "~x"[:0] or "y", "@x", ".a", "0x1f", "1:30", "=")[:12]]


CONFIG_ATTRS = ("config_d", "data_dir", "template_dir", "report_html_gz", "report_run_output_start", "report_run_output_end", "shutdown_kill_runs", "shutdown_kill_grace", "environment")
JOB_ATTRS = ("name", "command", "schedule", "schedule_timezone_name", "max_execution", "max_execution_grace", "environment", "render_reports", "command_append_run",
             "jenkins_environment", "job_group", "concurrent_runs")


def settings(cd):
    """what the programs work with after loading cd"""
    c = dsari.config.get_config(cd)
    out = {a: getattr(c, a) for a in CONFIG_ATTRS}
    db = dict(c.database)
    if db.setdefault("type", "sqlite3") == "sqlite3" and db.get("file") is None:
        db["file"] = os.path.join(c.data_dir, "dsari.sqlite3")
    out["database"] = db
    out["groups"] = {n: g.max for n, g in c.concurrency_groups.items()}
    out["jobs"] = {}
    for n, j in c.jobs.items():
        d = {a: getattr(j, a) for a in JOB_ATTRS}
        d["zone"] = [NOWDT.astimezone(j.schedule_timezone).utcoffset(), JULY.astimezone(j.schedule_timezone).utcoffset()]
        d["groups"] = sorted(g.name for g in j.concurrency_groups)
        out["jobs"][n] = d
    return out


def differ(a, b, at=""):
    if isinstance(a, dict) and isinstance(b, dict):
        return [x for k in sorted(set(a) | set(b), key=str) for x in differ(a.get(k, "(missing)"), b.get(k, "(missing)"), at + "/" + str(k))]
    return [] if a == b and type(a) == type(b) else ["%s is %r, was %r" % (at, b, a)]


def c03_unit(unit, rec):
    for combo in unit:
        main, job, group, jn = {}, {"command": ["c"]}, {}, "j"
        for sec, o, v in combo:
            if sec == "names":
                jn = v
            elif sec != "shape":
                {"main": main, "job": job, "group": group}[sec][o] = v
        cfg = dict(main, jobs={jn: job, "other": {"command": ["o"]}}, concurrency_groups={"g1": group})
        shape = combo[0][2] if combo and combo[0][0] == "shape" else None
        if shape in ("no sections", "no groups"):
            del cfg["concurrency_groups"]
        if shape in ("no sections", "no jobs"):
            del cfg["jobs"]
        elif shape == "empty":
            cfg.update(jobs={}, concurrency_groups={})
        elif shape == "one job":
            cfg = dict(main, jobs={jn: job})
        rec.state(combo)
        vos.CLOCK = NOW
        vos.RAND = lambda a, b: a
        try:
            for fn in ("dsari.json", "dsari.yaml"):
                cd = lay({fn: cfg})
                os.chdir(cli.fresh("cwd"))
                r, raw = dump(cd, "--raw")
                rec.step()
                if r.kind != "ok":
                    rec.bad("raw %r" % (combo,), "config dump --raw of %r fails: %r" % (cfg, r))
                    break
                if not same(raw, cfg):
                    rec.bad("raw value", "the raw dump of %r is %r" % (cfg, raw))
                first = None
                was = settings(cd)
                for fmt in ("json", "yaml"):
                    r, d = dump(cd, fmt=fmt)
                    rec.step()
                    if r.kind != "ok":
                        rec.bad("dump %s" % fmt, "config dump --format %s of %r fails: %r" % (fmt, cfg, r))
                        return
                    if first is not None and not same(first, d):
                        rec.bad("formats", "dumps of %r differ: %r in JSON, %r in YAML" % (cfg, first, d))
                    first = first or d
                    l = cli.info(cd, "job", "list", "--format", "json").out
                    c2 = lay({"dsari." + fmt: r.out}, "etc2")
                    r2, d2 = dump(c2, fmt=fmt)
                    rec.step()
                    if r2.kind != "ok":
                        rec.bad("reload %s %r" % (fmt, combo[-1][:2] if combo else ()), "the %s dump of %r is not accepted: %r\n%s" % (fmt, cfg, r2, r.out))
                        continue
                    if not same(d, d2) or r.out != r2.out:
                        rec.bad("again %s" % fmt, "the %s dump of %r loads to a different configuration:\n%s\n%s" % (fmt, cfg, r.out, r2.out))
                    l2 = cli.info(c2, "job", "list", "--format", "json").out
                    diff = differ(was, settings(c2))
                    if diff:
                        rec.bad("settings %s" % fmt, "%r dumped as %s and loaded again: %s" % (cfg, fmt, "; ".join(diff[:3])))
                    if l != l2:
                        rec.bad("jobs %s" % fmt, "the jobs of the %s dump of %r differ: %s %s" % (fmt, cfg, l, l2))
                    rec.trace()
        finally:
            vos.CLOCK = vos.RAND = None
    rec.sample(config=cfg, dump=d2)


def c03(c):
    th = c.tier == "thorough"
    combos = [()] + [(o,) for o in DUMPOPTS]
    for n in range(2, 4 if th else 3):
        for t in itertools.combinations(DUMPOPTS, n):
            if len({x[:2] for x in t}) == n:
                combos.append(t)
    for shape in ("no sections", "no groups", "no jobs", "empty", "one job"):
        for n in range(3):
            for t in itertools.combinations([o for o in DUMPOPTS if o[0] == "main"], n):
                if len({x[1] for x in t}) == n:
                    combos.append((("shape", None, shape),) + t)
    if th:
        combos = combos[:1] + [t for t in combos[1:] if len(t) < 3 or {x[0] for x in t} != {"main"}]
    units = [combos[i:i + 25] for i in range(0, len(combos), 25)]
    tot = sweep.sweep(units, c03_unit, c.wall(200, 3000))
    return sweep.finish(c, tot, "every combination of up to %d of %d option values; every pair of main options with the jobs or concurrency_groups section absent or empty" % (3 if th else 2, len(DUMPOPTS)),
                        ["the clock and random schedule values are fixed while two dumps are compared"], units=len(units))


def run(c):
    cli.info(lay({}), "config", "check")       # creates the default database, which all workers share
    return {"C01": c01, "C02": c02, "C03": c03}[c.prop](c)


def replay(prop, path):
    with open(path) as f:
        for v in json.load(f)["violations"]:
            print(v["what"])
    return 1
