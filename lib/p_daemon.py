"""Scenarios and verdicts of the daemon properties D01-D12."""
import os, json, sys, itertools

import vos, explore, runner
import daemonmc as d
import dsari.daemon, dsari.config, dsari.database   # noqa: F401  loaded before forking
import sqlite3, yaml, logging, traceback             # noqa: F401

EVERY = "* * * * * 0"
EVEN = "*/2 * * * * 0"
T = ["/bin/true"]


def job(schedule=EVERY, groups=None, conc=False, **k):
    j = {"command": k.pop("command", T)}
    if schedule:
        j["schedule"] = schedule
    if groups:
        j["concurrency_groups"] = groups
    if conc:
        j["concurrent_runs"] = True
    j.update(k)
    return j


def cfg(jobs, groups=None, **k):
    c = {"jobs": jobs}
    if groups:
        c["concurrency_groups"] = {g: {"max": m} for g, m in groups.items()}
    c.update(k)
    return c


def trig(job, **data):
    t = {"job": job, "data": data}
    if "environment" in data:
        t["env"] = {k: str(v) for k, v in data["environment"].items()}
    return t


def scen(name, configs, menu, dur, **k):
    s = {"name": name, "start": "2020-02-03T10:00:30.4", "grid": 10, "horizon": 150, "configs": configs,
         "menu": menu, "dur": dur}
    s.update(k)
    return s


def scenarios(p, tier):
    th = tier == "thorough"
    S = []
    ta, tb, tc = trig("a", n=1, environment={"Q": "1"}), trig("b", n=2), trig("c", n=3)
    if p == "D01":
        c0 = cfg({"a": job(groups=["g"]), "b": job(groups=["g"]), "c": job(groups=["g", "h"])})
        S.append(scen("three jobs, one and two groups", [c0], ["trig:a+usr1", "trig:c+usr1"],
                      {"a": [3, 75], "b": [3, 75], "c": [3, 75, 130]}, triggers={"a": ta, "c": tc},
                      status={"a": [0, 9, 0xff00], "b": [0, 256], "c": [0, 0x8b]}))
        c1 = cfg({"a": job(groups=["g"], conc=True), "b": job(groups=["g"])}, {"g": 2})
        c2 = cfg({"a": job(groups=["g"], conc=True), "b": job(groups=["g"])}, {"g": 1})
        c3 = cfg({"a": job(conc=True), "b": job()})
        c4 = cfg({"a": job(groups=["g"], conc=True), "b": job(groups=["g"])}, {"g": 3})
        cn = cfg({"b": job(groups=["g"])})
        S.append(scen("reload changes the limit, drops and restores the group", [c1, c2, c3, c4, cn],
                      ["hup:0", "hup:1", "hup:2", "hup:3", "hup:4", "trig:a+usr1"],
                      {"a": [75, 3, 130], "b": [75, 3]}, triggers={"a": ta}, grid=20, horizon=200))
        c5 = cfg({"a": job(None, groups=["g"], conc=True), "b": job(None, groups=["h", "g"], conc=True)},
                 {"g": 2, "h": 1})
        S.append(scen("triggered concurrent runs fill two groups", [c5],
                      ["trig:a+usr1", "trig:b+usr1", "trig:a+trig:b+usr1", "exit:a", "exit:b"],
                      {"a": [300], "b": [300, 15]}, triggers={"a": ta, "b": tb}, horizon=120,
                      bound=4 if th else 3, grid=15))
        c6 = cfg({"a": job(groups=["u"]), "b": job(groups=["u"]), "c": job(None, groups=["u", "u2"])})
        S.append(scen("undefined groups allow one run", [c6], ["trig:c+usr1", "hup:0", "exit:a"],
                      {"a": [75, 3], "b": [75, 3], "c": [75]}, triggers={"c": tc}))
    elif p == "D02":
        c0 = cfg({"a": job(), "b": job(conc=True)})
        c1 = cfg({"a": job(EVEN, command=["/bin/echo", "x"]), "b": job()})
        c2 = cfg({"b": job(conc=True)})
        c3 = cfg({"a": job(conc=True), "b": job(conc=True)})
        c4 = cfg({"a": job(None), "b": job(None, conc=True)})
        S.append(scen("triggers and reloads", [c0, c1, c2, c3, c4],
                      ["trig:a+usr1", "trig:b+usr1", "hup:0", "hup:1", "hup:2", "hup:3", "hup:4"],
                      {"a": [75, 3, 130], "b": [75, 3]}, triggers={"a": ta, "b": tb}, grid=15, horizon=165))
        S.append(scen("jobs without a schedule", [c4, c0], ["trig:a+usr1", "trig:b+usr1", "exit:a", "hup:0", "hup:1"],
                      {"a": [75, 3], "b": [75]}, triggers={"a": ta, "b": tb}, grid=15, horizon=150))
        S.append(scen("long runs", [cfg({"a": job(), "b": job(conc=True)})],
                      ["exit:a", "trig:a+usr1", "trig:b+trig:a+usr1", "hup:0", "quit", "stall:70"],
                      {"a": [None, 3], "b": [300, 3]}, triggers={"a": ta, "b": tb}, grid=15, horizon=200))
        S.append(scen("limited runs in their grace", [cfg({"a": job(max_execution=20, max_execution_grace=90),
                                                           "b": job(max_execution=50, max_execution_grace=30, groups=["g"])})],
                      ["trig:a+usr1", "trig:b+usr1", "hup:0", "exit:a"], {"a": [200, 25], "b": [200, 3]},
                      term={"a": ["ignore", 45, "die"], "b": ["ignore", 15]}, triggers={"a": ta, "b": tb}, grid=20, horizon=200))
        S.append(scen("concurrent job with groups to spare", [cfg({"a": job(groups=["g", "h"], conc=True),
                                                                   "b": job(groups=["h"])}, {"g": 3, "h": 3})],
                      ["trig:a+usr1", "trig:b+usr1", "exit:a", "exit:b"], {"a": [300], "b": [300, 3]},
                      triggers={"a": ta, "b": tb}, grid=20))
    elif p == "D03":
        c0 = cfg({"a": job(), "b": job(EVEN, groups=["g"]), "c": job("1,3 10 * * * 0", groups=["g"])})
        S.append(scen("mixed schedules", [c0], ["trig:a+usr1", "trig:b+usr1", "stall:70", "stall:130", "usr1", "quit"],
                      {"a": [3, 75], "b": [3, 75], "c": [3, 100]}, triggers={"a": ta, "b": tb}, horizon=220, grid=20))
        c1 = cfg({"a": job("* * * * * 0 2019"), "b": job("* * * * * 0"), "c": job("59 * * * * 0 2019")})
        S.append(scen("schedules end with the year", [c1], ["trig:a+usr1", "usr1", "stall:61"],
                      {"a": [3, 75], "b": [3, 75]}, triggers={"a": ta}, start="2019-12-31T23:57:30.4", horizon=220,
                      grid=20))
        cz = cfg({"a": job("30,50 1 * * * 0", schedule_timezone="America/New_York"),
                  "b": job("59 * * * * 0", schedule_timezone="America/New_York")})
        S.append(scen("the clocks go back", [cz], ["trig:a+usr1", "hup:0", "stall:61"],
                      {"a": [3, 75], "b": [3, 75]}, triggers={"a": ta}, start="2020-11-01T06:28:30.4", horizon=160,
                      grid=20))
        S.append(scen("the clocks go back in a moment", [cz], ["trig:a+usr1", "hup:0", "stall:61"],
                      {"a": [3, 75], "b": [3, 75]}, triggers={"a": ta}, start="2020-11-01T05:58:30.4", horizon=160,
                      grid=20))
        R = "RRULE:FREQ=MINUTELY;BYSECOND=%d;UNTIL=20%sZ"
        co = cfg({"a": job(R % (0, "190101T000000")), "b": job(R % (20, "200203T100220")), "c": job(R % (0, "200203T100030")),
                  "d": job(R[:-12] % 0)})
        S.append(scen("schedules that are over", [co, cfg({"a": job(R % (0, "180101T000000")), "b": job(), "d": job()})],
                      ["trig:a+usr1", "hup:0", "hup:1", "stall:61"], {"a": [3, 75], "b": [3, 75], "d": [3]}, triggers={"a": ta},
                      horizon=150, grid=20))
        at = {n: d.epoch("2020-02-03T10:0%s" % n) for n in ("1:50.0", "2:20.5", "2:10.0")}
        S.append(scen("future triggers take the place of the next run", [cfg({"a": job(), "b": job(EVEN, conc=True)})],
                      ["trig:%s" % n for n in at] + ["trig:now+usr1", "trig:b"], {"a": [3, 75], "b": [3]},
                      triggers=dict({n: dict(trig("a", schedule_time=t), due=t) for n, t in at.items()}, now=ta,
                                    b=dict(trig("b", schedule_time=at["2:10.0"]), due=at["2:10.0"])),
                      grid=15, horizon=230))
        c2 = cfg({"a": job("* * * * * */20"), "b": job("* * * * * 7,37", conc=True)})
        S.append(scen("seconds", [c2], ["trig:b", "trig:a+usr1", "stall:25", "hup:0"],
                      {"a": [3, 25], "b": [3, 45]}, triggers={"a": ta, "b": tb}, horizon=100))
        c3 = cfg({"a": job(groups=["g"]), "b": job(groups=["g"]), "c": job(groups=["g"])})
        S.append(scen("held back", [c3], ["exit:a", "exit:b", "exit:c", "usr1", "stall:70", "trig:b"],
                      {"a": [None, 3], "b": [None, 3], "c": [3, 75]}, triggers={"b": tb}, horizon=200, grid=20))
        c5 = cfg({"a": job(groups=["g"], conc=True), "b": job(EVEN, groups=["g", "h"]), "c": job(groups=["h", "g"])}, {"g": 2, "h": 1})
        S.append(scen("one group is full and another is not", [c5], ["exit:a", "exit:b", "trig:a+usr1", "trig:b+usr1"],
                      {"a": [300, 3, 75], "b": [75, 3], "c": [75, 3]}, triggers={"a": ta, "b": tb}, horizon=200, grid=20))
        c4 = cfg({"a": job(None), "b": job("0 11 * * * 0")})
        S.append(scen("future triggers", [c4], ["trig:f30", "trig:f100", "trig:now+usr1", "usr1", "stall:70"],
                      {"a": [3, 75]}, triggers={"f30": dict(trig("a", schedule_time=d.epoch("2020-02-03T10:01:20.0")),
                                                            due=d.epoch("2020-02-03T10:01:20.0")),
                                                "f100": dict(trig("a", schedule_time=d.epoch("2020-02-03T10:02:10.5")),
                                                             due=d.epoch("2020-02-03T10:02:10.5")),
                                                "now": ta}))
    elif p == "D04":
        rets = [None, {"files": {"return_data.json": '{"k": [1, 2]}'}, "want": {"k": [1, 2]}},
                {"files": {"return_data.json": '{"k": '}, "want": None},
                {"files": {"return_data.yaml": "k: 5\n"}, "want": {"k": 5}},
                {"files": {"return_data.json": '[1]', "return_data.yaml": "k: 5\n"}, "want": [1]}]
        c0 = cfg({"a": job(groups=["g"]), "b": job(max_execution=20, max_execution_grace=5), "c": job(None, conc=True)})
        c1 = cfg({"b": job(EVEN)})
        S.append(scen("finishes of all kinds", [c0, c1], ["trig:a+usr1", "trig:c+usr1", "hup:1", "term", "stall:70"],
                      {"a": [3, 75], "b": [10, 75], "c": [30, 3]}, triggers={"a": ta, "c": tc},
                      status={"a": [0, 256, 0xff00, 9, 0x8b], "b": [0, 15]}, ret={"a": rets}, horizon=130,
                      term={"b": ["die", "ignore", 3]}))
        S.append(scen("runs of removed jobs", [c0, c1, cfg({})], ["hup:1", "hup:2", "term", "trig:c+usr1", "exit:a"],
                      {"a": [75, 3, 20], "b": [15], "c": [50]}, triggers={"c": tc}, setup=["c"],
                      status={"a": [0, 256]}, ret={"a": rets[:3]}, horizon=115))
        S.append(scen("simultaneous finishes", [cfg({"a": job(), "b": job(), "c": job()})],
                      ["trig:a+usr1", "quit", "stall:30", "exit:a", "exit:b+exit:c", "stray", "stray:9+exit:a"],
                      {"a": [60, 0], "b": [60, 59], "c": [60, 0]}, triggers={"a": ta}, horizon=130, grid=15))
        S.append(scen("an outside reader after every statement", [c0, c1],
                      ["trig:a+usr1", "trig:c+usr1", "hup:1", "term"],
                      {"a": [3, 75], "b": [10, 75], "c": [30, 3]}, triggers={"a": ta, "c": tc}, horizon=110,
                      status={"a": [0, 256]}, ret={"a": rets[:2]}, db_lines=True, bound=1 if not th else 2))
    elif p == "D05":
        c0 = cfg({"a": job(), "b": job(groups=["g"]), "c": job(None, conc=True, groups=["g"])})
        only = cfg({"a": job(None), "b": job(None)})
        S.append(scen("killed between events", [c0, only, cfg({})],
                      ["kill", "kill:1", "kill:2", "trig:a", "trig:c+usr1", "hup:0", "hup:1", "term"],
                      {"a": [3, 75], "b": [75, 3], "c": [30]}, triggers={"a": ta, "c": tc}, horizon=150,
                      max={"kill": 2}))
        S.append(scen("killed at any statement", [cfg({"a": job(), "b": job(groups=["g"])})], [],
                      {"a": [3], "b": [3]}, setup=["a"], triggers={"a": ta}, line_menu=["kill"], line_signals=False,
                      line_cap=1, line_max=1, bound=1, horizon=75 if not th else 140))
        if th:
            S.append(scen("killed at any statement after an event", [c0], ["trig:c+usr1", "term", "hup:0"],
                          {"a": [3], "b": [3, 15], "c": [8]}, triggers={"c": tc}, line_menu=["kill"], line_max=1,
                          line_cap=1, bound=2, horizon=60, grid=8))
    elif p == "D06":
        E = d.epoch
        at = "2020-02-03T10:01:40"
        due = E(at + ".0")
        V = {
            "j": dict(trig("a", n=1, environment={"Q": "1", "R": 2, "F": 1.5}), env={"Q": "1", "R": "2", "F": "1.5"},
                      recorded={"n": 1, "environment": {"Q": "1", "R": "2", "F": "1.5"}}),
            "y": {"job": "a", "file": "trigger.yaml", "raw": "n: 3\nenvironment:\n  Q: yes it is\n",
                  "data": {"n": 3, "environment": {"Q": "yes it is"}}, "env": {"Q": "yes it is"}},
            "empty": {"job": "a", "raw": "{}", "data": {}},
            "falsy": trig("a", n=0, f=False, z=None, s="", l=[], d={}, x=0.0, environment={}),
            "zero": dict(trig("a", schedule_time=0), due=0.0),
            "zerof": dict(trig("a", schedule_time=0.0, n=0), due=0.0),
            "minus": dict(trig("a", schedule_time=-1), due=-1.0),
            "iso": dict(trig("a", schedule_time=at + "Z"), due=due),
            "isonaive": dict(trig("a", schedule_time=at), due=due),
            "isotz": dict(trig("a", schedule_time="2020-02-03T05:01:40", schedule_timezone="America/New_York"), due=due),
            "isooff": dict(trig("a", schedule_time="2020-02-03T12:01:40+02:00"), due=due),
            "isoofftz": dict(trig("a", schedule_time="2020-02-03T12:01:40+02:00",
                                  schedule_timezone="America/New_York"), due=due),
            "ep": dict(trig("a", schedule_time=due), due=due),
            "epi": dict(trig("a", schedule_time=int(due)), due=due),
            "eptz": dict(trig("a", schedule_time=due + 0.25, schedule_timezone="Asia/Tokyo"), due=due + 0.25),
            "past": dict(trig("a", schedule_time=E("2020-02-03T09:00:00.0")), due=E("2020-02-03T09:00:00.0")),
            "yiso": {"job": "a", "file": "trigger.yaml", "raw": "schedule_time: 2020-02-03T10:01:40Z\n", "due": due,
                     "recorded": {"schedule_time": "2020-02-03 10:01:40+00:00"}},
            "b": trig("b", x={"y": [None, True, "é☃"]}), "c": tc, "nojob": trig("zz"),
        }
        del V["yiso"]
        c0 = cfg({"a": job(environment={"Q": "of the job", "Z": "z"}), "b": job(None), "c": job(conc=True)})
        names = [n for n in V if V[n]["job"] == "a"]
        S.append(scen("every kind of trigger for a scheduled job", [c0],
                      ["trig:%s" % n for n in names] + ["usr1"], {"a": [3, 75]}, triggers=V, grid=15,
                      horizon=150, bound=2 if th else 1))
        S.append(scen("noticed at once after SIGUSR1", [c0], ["trig:%s+usr1" % n for n in ("j", "y", "b", "c", "nojob")] +
                      ["trig:c", "trig:b", "stall:70", "hup:0", "trig:y+trig:j+usr1"],
                      {"a": [3, 75], "b": [75, 3], "c": [75, 3]}, triggers=V, grid=15 if th else 20, horizon=130))
        cc = cfg({"a": job(conc=True), "b": job(None)})
        S.append(scen("concurrent job", [cc], ["trig:%s+usr1" % n for n in ("j", "y", "iso", "ep", "past", "empty")],
                      {"a": [3, 75]}, triggers=V, grid=15, horizon=130))
        S.append(scen("busy", [cfg({"a": job(groups=["g"]), "b": job(groups=["g"])})],
                      ["trig:j", "trig:iso+usr1", "trig:b+usr1", "exit:a", "exit:b"],
                      {"a": [75, 3, None], "b": [75, 3]}, triggers=V, grid=15, horizon=150))
    elif p == "D07":
        V = hostile()
        c0 = cfg({"a": job(None), "b": job()})
        bad = [n for n in V if n.startswith("x")]
        S.append(scen("unusable triggers", [c0], ["trig:%s+usr1" % n for n in bad],
                      {"b": [3, 75]}, triggers=V, grid=20, horizon=75 if not th else 130, bound=1 if not th else 2))
        S.append(scen("unusable and usable triggers together", [cfg({"a": job(conc=True), "b": job()})],
                      ["trig:%s" % n for n in bad[::4]] + ["trig:ok+usr1", "trig:okb+usr1", "usr1"],
                      {"b": [3, 75], "a": [3]}, triggers=V, grid=20, horizon=110))
        S.append(scen("a trigger vanishes at any statement", [c0], [], {"b": [3]}, triggers=V, setup=["ok", "okb"],
                      line_menu=["unlink:a", "unlink:b"], line_max=2, line_cap=1, bound=1 if not th else 2,
                      horizon=20, line_window=[(0, 2)]))
        S.append(scen("a trigger is replaced at any statement", [c0], [], {"b": [3], "a": [3]}, triggers=V,
                      setup=["ok"],
                      line_menu=["trig:ok2", "trig:x05", "trig:yaml", "unlink:a+trig:yaml"], line_max=1, line_cap=1,
                      bound=1, horizon=75, line_window=[(0, 2)]))
        rets = returns()
        S.append(scen("whatever a run leaves behind", [cfg({"a": job(None), "b": job("* * * * * */20")})], [],
                      {"b": [3]}, ret={"b": rets}, horizon=45 if not th else 65, bound=1 if not th else 2))
    elif p == "D08":
        c0 = cfg({"a": job(max_execution=20, max_execution_grace=10), "b": job(), "c": job(EVEN, max_execution=50)})
        S.append(scen("limits and graces", [c0], ["stall:15", "stall:70", "trig:a+usr1", "exit:a", "usr1"],
                      {"a": [19, 21, 10, 3, 200], "b": [75, 200], "c": [55, 3]},
                      term={"a": ["die", "ignore", 4, 9.5, 12, "slow"], "c": ["die", "ignore", "slow"]},
                      triggers={"a": ta},
                      horizon=140))
        c1 = cfg({"a": job(max_execution=60, max_execution_grace=5)})
        c2 = cfg({"a": job(max_execution=2.5, max_execution_grace=0)})
        c3 = cfg({"b": job()})
        S.append(scen("limits change by reload", [c0, c1, c2, c3], ["hup:0", "hup:1", "hup:2", "hup:3", "stall:40"],
                      {"a": [200, 30], "b": [200]}, term={"a": ["ignore", "die"]}, horizon=140))
        c4 = dict(c0, shutdown_kill_runs=True, shutdown_kill_grace=15)
        S.append(scen("limits during shutdown", [c4, c0], ["term", "int", "hup:1", "stall:20", "exit:a"],
                      {"a": [200, 25], "b": [200, 40], "c": [200]},
                      term={"a": ["ignore", "die", 7], "b": ["ignore", 3]}, horizon=140))
        c6 = cfg({"a": job(max_execution=5, max_execution_grace=40), "b": job(max_execution=0.5, max_execution_grace=2),
                  "c": job(max_execution=30, max_execution_grace=30)})
        S.append(scen("graces longer than limits", [c6], ["stall:15", "exit:a", "trig:a+usr1", "hup:0"],
                      {"a": [200, 30], "b": [200, 1], "c": [200]}, triggers={"a": ta},
                      term={"a": ["ignore", 20, "die"], "b": ["ignore", 1], "c": ["ignore", "slow"]}, horizon=120, grid=20))
        c5 = cfg({"a": job("* * * * * */15", max_execution=10, max_execution_grace=3, conc=True)})
        S.append(scen("several limited runs at once", [c5], ["trig:a+usr1", "stall:12", "exit:a", "term"],
                      {"a": [9.9, 30]}, term={"a": ["ignore", "die"]}, triggers={"a": ta}, horizon=80, grid=8))
    elif p == "D09":
        base = {"a": job(), "b": job(groups=["g"]), "c": job(groups=["g"])}
        for kw in ({}, {"shutdown_kill_runs": True}, {"shutdown_kill_runs": True, "shutdown_kill_grace": 50},
                   {"shutdown_kill_grace": 12}, {"shutdown_kill_runs": True, "shutdown_kill_grace": 0}):
            c = cfg(base, **kw)
            c1 = cfg({"a": job(conc=True), "d": job()}, **kw)
            S.append(scen("shutdown with %s" % (json.dumps(kw)), [c, c1],
                          ["term", "int", "hup:1", "trig:a+usr1", "quit+quit", "stall:30"],
                          {"a": [35, 3], "b": [100, 3], "c": [3]}, triggers={"a": ta},
                          term={"a": ["die", "ignore", 5], "b": ["ignore", "die"]}, horizon=120,
                          grid=10 if th else 20))
        lim = cfg({"a": job(max_execution=10, max_execution_grace=60), "b": job(max_execution=40),
                   "c": job(max_execution=300)}, shutdown_kill_runs=True, shutdown_kill_grace=12)
        S.append(scen("shutdown of limited runs", [lim, {k: v for k, v in lim.items() if k != "shutdown_kill_grace"}],
                      ["term", "int", "hup:1", "stall:20"], {"a": [200, 5], "b": [200, 3], "c": [200, 3]},
                      term={"a": ["ignore", "slow", "die", 15], "b": ["ignore", "die"], "c": ["die", "ignore"]},
                      horizon=140, grid=15))
        # a reload in the midst of a shutdown changes none of this
        K = [{}, {"shutdown_kill_runs": True, "shutdown_kill_grace": 12}, {"shutdown_kill_runs": True, "shutdown_kill_grace": 40}]
        for kw in K:
            two = {"a": job(), "b": job(None)}
            S.append(scen("shutdown with %s, then a reload" % json.dumps(kw), [cfg(two, **kw)] + [cfg(two, **k) for k in K if k != kw] +
                          [cfg({"a": job(max_execution=20, max_execution_grace=3)}, **kw)],
                          ["term", "hup:1", "hup:2", "hup:3", "stall:20"], {"a": [100]}, term={"a": ["slow", "die"]}, horizon=130, grid=20))
    elif p == "D10":
        A = {"a": job(groups=["g"]), "b": job(), "c": job(None)}
        confs = [cfg(A),
                 cfg({"a": job(EVEN, groups=["g"], command=["/bin/echo", "new"], environment={"E": "2"}),
                      "c": job(groups=["g"]), "n": job()}),
                 cfg({"b": job(None), "a": job(groups=["h"], conc=True), "c": job(None)}),
                 "{ not json",
                 dict(cfg({"a": {"command": 5}}), _invalid=True),
                 cfg({}),
                 dict(cfg({"a": {"command": T, "schedule": "61 * * * *"}, "zz": job()}), _invalid=True),
                 cfg({"a": job(command=["/bin/echo", "again"]),
                      "b": job(EVEN, command=["/bin/echo", "b"], max_execution=40, max_execution_grace=5)})]
        S.append(scen("reloads", confs, ["hup:%d" % i for i in range(len(confs))] + ["trig:a", "trig:c+usr1", "hup"],
                      {"a": [75, 3, 130], "b": [75, 3], "c": [75, 3], "n": [3]}, triggers={"a": ta, "c": tc},
                      grid=15, horizon=165 if not th else 200))
        S.append(scen("reloads while a job without a schedule runs", [cfg({"a": job(), "c": job(None)}), cfg({"a": job(), "c": job()}),
                                                                  cfg({"c": job(None, conc=True)}), cfg({"a": job()})],
                      ["hup:0", "hup:1", "hup:2", "hup:3", "trig:c+usr1", "trig:c", "exit:c"], {"a": [3, 75], "c": [65, 3]},
                      setup=["c"], triggers={"c": tc}, grid=15, horizon=110))
        g = [cfg({"a": job(groups=["g"]), "b": job(groups=["g"])}, {"g": 2}),
             cfg({"a": job(groups=["g"]), "b": job(groups=["g"])}, {"g": 1}),
             cfg({"a": job(), "b": job()}),
             dict(cfg({"a": job(groups=["g"], max_execution=30), "b": job(groups=["g", "h"])}, {"g": 1}),
                  shutdown_kill_runs=True)]
        S.append(scen("reloads of groups and limits", g, ["hup:%d" % i for i in range(4)] + ["exit:a", "exit:b", "term"],
                      {"a": [75, 130], "b": [130, 3]}, grid=15, horizon=165 if not th else 200))
    elif p == "D11":
        c0 = cfg({"a": job(), "b": job(groups=["g"], max_execution=4, max_execution_grace=3)})
        c1 = cfg({"a": job(command=["/bin/echo", "x"]), "b": job(groups=["g"])})
        menu = ["hup:1", "term", "usr1"] + (["quit", "int"] if th else [])
        S.append(scen("one signal at any statement", [c0, c1], [], {"a": [3], "b": [9]}, setup=["a"],
                      triggers={"a": ta}, line_menu=menu, line_cap=1, line_max=1, bound=1, horizon=75 if th else 50,
                      term={"b": ["ignore"]}, grid=15, status={"a": [0]}))
        ck = dict(c0, shutdown_kill_runs=True, shutdown_kill_grace=2)
        S.append(scen("one signal at any statement, runs are killed", [ck, dict(c1, shutdown_kill_runs=True)], [],
                      {"a": [9], "b": [9]}, line_menu=["term", "hup:1"], line_cap=1, line_max=1, bound=1, horizon=60,
                      term={"b": ["ignore"], "a": ["die"]}, grid=15))
        S.append(scen("idle", [cfg({"a": job("0 11 * * * 0")})], [], {}, line_menu=menu[:0] + ["term", "hup", "quit"],
                      line_cap=1, line_max=1, bound=1, horizon=80, grid=30))
        S.append(scen("a long run in progress", [cfg({"a": job("0 11 * * * 0")}), cfg({"a": job("0 12 * * * 0")})], [], {"a": [40]},
                      line_menu=["term", "hup:1", "usr1", "quit"], line_cap=1, line_max=1, bound=1, horizon=50, grid=20,
                      setup=["a"], triggers={"a": ta}))
        sig = ["term", "hup:1", "usr1", "quit", "int"]
        S.append(scen("signals that arrive together", [c0, c1], ["+".join(x) for n in (2, 3) for x in itertools.permutations(sig, n)] +
                      ["usr1+usr1+hup:1", "usr1+usr1+term", "quit+quit+int", "hup:1+hup:0", "hup:0+usr1+hup:1"],
                      {"a": [14], "b": [14]}, bound=1 if not th else 2, horizon=75, grid=10, term={"b": ["ignore"]},
                      setup=["a"], triggers={"a": ta}))
        S.append(scen("two signals during a start", [c0, c1], [], {"a": [3], "b": [3]},
                      line_menu=["term", "hup:1", "usr1"] if th else ["term", "hup:1"], line_cap=1, line_max=2,
                      bound=2, horizon=40, line_span=60 if th else 3,
                      line_window=[(29.5, 30.3 if not th else 31)], grid=15))
        S.append(scen("two signals during a collection", [c0, c1], [], {"a": [3], "b": [3]},
                      line_menu=["term", "hup:1", "usr1"] if th else ["term", "hup:1"], line_cap=1, line_max=2,
                      bound=2, horizon=43, line_span=60 if th else 6,
                      line_window=[(33.0, 33.5 if not th else 35)], grid=15))
        if th:
            S.append(scen("one signal at any bytecode", [c0, c1], [], {"a": [3], "b": [9]}, setup=["a"],
                          triggers={"a": ta}, line_menu=["hup:1", "term"], line_cap=1, line_max=1, bound=1,
                          horizon=50, term={"b": ["ignore"]}, grid=15, opcodes=True))
            S.append(scen("signals after an event", [ck, dict(c1, shutdown_kill_runs=True)],
                          ["term", "hup:1", "trig:a+usr1"], {"a": [9], "b": [9]}, line_menu=["term", "hup:1"],
                          line_cap=1, line_max=1, bound=2, horizon=60, triggers={"a": ta},
                          term={"b": ["ignore"], "a": ["die"]}, grid=10, line_after=["hup", "shutdown"]))
    elif p == "D12":
        q = {"always": ["quit"], "grid": 10, "horizon": 130}
        c0 = cfg({"a": job(groups=["g"]), "b 1": job(EVEN, groups=["g", "h"], conc=True), "c": job(None, groups=["h"])}, {"g": 2, "h": 2})
        c1 = cfg({"a": job(EVEN), "c": job(groups=["h"])}, {"g": 1, "h": 1})
        c2 = cfg({"b 1": job(groups=["g"], conc=True)}, {"g": 3})
        at = [d.epoch("2020-02-03T10:02:05.25"), d.epoch("2020-02-02T09:00:00.0")]
        later, past = [dict(trig(j, n=1, schedule_time=t), due=t) for j, t in zip("ac", at)]
        S.append(scen("runs, triggers and reloads", [c0, c1, c2], ["trig:b+usr1", "trig:c+usr1", "trig:later+usr1", "exit:a", "hup:0", "hup:1", "hup:2"],
                      {"a": [75, 3], "b 1": [75, 130, 3], "c": [75]}, triggers={"b": trig("b 1", n=2), "c": past, "later": later}, **q))
        S.append(scen("runs which are held back", [cfg({"a": job(groups=["g"]), "b": job(groups=["g"]), "c": job("1,3 10 * * * 0", groups=["g"])})],
                      ["trig:c", "trig:b+usr1", "stall:70", "exit:a"], {"a": [75, 300], "b": [75], "c": [3]},
                      triggers={"b": tb, "c": tc}, **dict(q, horizon=165, grid=20)))
        S.append(scen("shutdowns", [cfg({"a": job(), "b": job(groups=["g"])}), dict(cfg({"a": job(max_execution=90), "b": job()}),
                                                                               shutdown_kill_runs=True, shutdown_kill_grace=20)],
                      ["term", "int", "hup:0", "hup:1", "trig:a+usr1"], {"a": [75, 3], "b": [130]}, term={"a": ["ignore", "die"], "b": ["ignore", 15]},
                      triggers={"a": ta}, **q))
        S.append(scen("days ahead", [cfg({"a": job("0 11 * * 3 0"), "b": job("0 0 1 3 * 0", groups=["g"])}),
                                     cfg({"a": job("0 10 * * * 0"), "d": job(None)})],
                      ["hup:0", "hup:1", "trig:b+usr1", "stall:90000"], {"b": [300000, 5]}, triggers={"b": tb}, **dict(q, grid=25)))
        S.append(scen("any statement", [c0, c1], [], {"a": [9], "b 1": [20], "c": [9]}, setup=["c"], triggers={"c": tc}, line_menu=["quit"],
                      line_cap=1 if not th else 3, line_max=1 if not th else 2, bound=1 if not th else 2, horizon=75, grid=15))
    return S


def hostile():
    """name -> trigger variant; names starting with x are unusable (no run may result)"""
    V = {"ok": trig("a", n=1), "ok2": trig("a", n=2), "okb": trig("b", n=3),
         "yaml": {"job": "a", "file": "trigger.yaml", "raw": "n: 7\n", "data": {"n": 7}}}
    raws = ["", "{", "nul", "null", "5", "[1]", "\"text\"", "{\"environment\": 5}", "{\"environment\": null}",
            "{\"environment\": [\"a\"]}", "{\"environment\": {\"A\": null}}", "{\"environment\": {\"A\": [1]}}",
            "{\"environment\": {\"A\": {\"b\": 1}}}", "{\"environment\": {\"A\": true}}",
            "{\"environment\": []}", "{\"environment\": \"\"}", "{\"environment\": 0}", "{\"environment\": false}", "{\"environment\": \"A=b\"}",
            "{\"schedule_time\": \"no time\"}", "{\"schedule_time\": \"\"}", "{\"schedule_time\": []}",
            "{\"schedule_time\": {}}", "{\"schedule_time\": 1e300}", "{\"schedule_time\": -1e300}",
            "{\"schedule_time\": NaN}", "{\"schedule_time\": Infinity}", "{\"schedule_time\": 99999999999999999999}",
            "{\"schedule_time\": \"9999999999999999999999\"}", "{\"schedule_time\": \"2020-13-45T99:99\"}",
            b"\xff\xfe\x00", b"{\"a\": \"\xff\"}", "{\"a\": 1}}", "[" * 3000, "{\"a\":" * 3000,
            "\x00", "{'a': 1}", "{\"n\": 1} x", "[]", "0", "false", "\"\""]
    for i, r in enumerate(raws):
        V["x%02d" % i] = {"job": "a", "raw": r, "usable": False}
    yraws = ["{", "- 1\n- 2\n", "5\n", "a: [\n", "environment: 5\n", "environment: []\n", "environment: ''\n", "environment:\n  A:\n", "environment:\n  1: x\n",
             "!!python/object/apply:os.system ['true']\n", "schedule_time: [1]\n", "\t a: b\n", b"\xff\xfe\xfd",
             "a: *x\n", "%YAML 9\n--- a\n", "a: 'x\n", "schedule_time: 2020-99-99\n", "--- a\n--- b\n", "", "[]\n", "0\n", "no\n", "''\n", "~\n"]
    for i, r in enumerate(yraws):
        V["xy%02d" % i] = {"job": "a", "file": "trigger.yaml", "raw": r, "usable": False}
    return V


def returns():
    out = [None]

    def j(raw, want):
        out.append({"files": {"return_data.json": raw}, "want": want})

    def y(raw, want):
        out.append({"files": {"return_data.yaml": raw}, "want": want})
    j('{"a": 1}', {"a": 1})
    j('[1, "é"]', [1, "é"])
    j('5', 5)
    j('"t"', "t")
    for bad in ("", "{", "nul", b"\xff\xfe", b'{"a": "\xff"}', "[" * 3000, "{'a': 1}", "1 2", "\x00"):
        j(bad, None)
    y("a: 1\n", {"a": 1})
    y("a: [1, 2]\n", {"a": [1, 2]})
    y("d: 2020-01-01\n", {"d": "2020-01-01"})
    for bad in ("{", "a: [\n", "!!python/object/apply:os.system ['true']\n", b"\xff\xfe\xfd", "\t a: b\n", "a: *x\n",
                "--- a\n--- b\n"):
        y(bad, None)
    out.append({"files": {"return_data.json": '{"a": 1}', "return_data.yaml": "a: 2\n"}, "want": {"a": 1}})
    out.append({"files": {"return_data.json": '{', "return_data.yaml": "a: 2\n"}, "want": None})
    out.append({"files": {"return_data.json": None, "return_data.yaml": "a: 2\n"}, "want": {"a": 2}})
    out.append({"files": {"return_data.json": None}, "want": None})
    out.append({"files": {"return_data.yaml": None}, "want": None})
    out.append({"files": {"return_data.txt": 'x', "return_data.yml": "a: 2\n"}, "want": None})
    return out


BOUND = {"quick": 2, "thorough": 3}


def run(c):
    S = scenarios(c.prop, c.tier)
    for s in S:
        d.warm(s)
    d.scratch_base()
    st = explore.explore(S, d.run_scenario, BOUND[c.tier], c.wall(400, 3000),
                         relevant=lambda x: x[0] == "ALL" or c.prop in x[0])
    if st.others:
        with open(os.path.join(runner.VERIF, "evidence", "%s.others.json" % c.prop), "w") as f:
            json.dump({"violations": [dict(v, what=str(v["violations"][0])) for v in st.others]}, f, indent=1)
    for v in st.violations:
        hit = [x for x in v["violations"] if x[0] == "ALL" or c.prop in x[0]]
        c.violation("%s | %s" % (v["scenario"], hit[0][1]),
                    "%s: at %+.3f s: %s" % (v["scenario"], hit[0][2], hit[0][1]),
                    scenario=v["scenario"], tier=c.tier, devs=v["devs"], all=v["violations"], history=v["history"])
    cov = {"states": len(st.states), "transitions": st.transitions, "traces_validated_against_impl": st.executions,
           "executions": st.executions, "scenarios": len(S), "deviation_bound": BOUND[c.tier],
           "divergences": st.divergences, "unexplored_subtrees": st.unexplored,
           "other_property_violations": st.rejected, "counters": st.counters,
           "exhaustive": st.unexplored == 0 and st.divergences == 0,
           "rule": "every execution of the real daemon with at most the stated number of non-default choices "
                   "(event at a pump or statement, run length, wait order, random order); states are canonical "
                   "scheduler states seen at pumps",
           "samples": st.samples[:3]}
    if c.prop == "D05" and not c.violations:
        import cli, crashdb
        t, errors = crashdb.explore(c, cli.scratch(), c.wall(300, 3000))
        st.errors += errors
        cov["states"] += t["states"]
        cov["transitions"] += t["transitions"]
        cov["traces_validated_against_impl"] += t["executions"]
        cov["executions"] += t["executions"]
        cov["exhaustive"] = cov["exhaustive"] and not t["unexplored_units"]
        cov["database_crashes"] = t
        cov["rule"] += "; every change the database operations of the daemon make to a file, as a crash point"
    return c.finish("model_checking", cov,
                    ["process table, clock, signals and randomness are virtual; file system and SQLite are real",
                     "processes of runs end only as scripted"], st.errors)


def replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    for v in r["violations"][:3]:
        if "unit" in v:
            import cli, crashdb
            print("VIOLATION", crashdb.run_unit(crashdb.build(cli.scratch()), v["unit"], cli.scratch()))
            continue
        s = [x for x in scenarios(prop, v.get("tier", "quick")) if x["name"] == v["scenario"]][0]
        d.warm(s)
        res = explore.in_child(lambda: d.run_scenario(s, [tuple(x) for x in v["devs"]]), 120)
        print("scenario: %s" % s["name"])
        print("\n".join(res.get("history", [])) or res)
        for x in res.get("violations", []):
            print("VIOLATION", x)
    return 1
