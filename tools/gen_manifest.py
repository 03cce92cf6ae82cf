#!/usr/bin/env python3
"""writes MANIFEST.json (only this file decides what is claimed)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DAEMON = ("stateless model checking of the real daemon under a virtual OS: all executions with bounded deviations "
          "(events, signals at statements, run lengths, crashes), monitored against a reference scheduler")
NOTE_D = ("Every execution of the real dsari.daemon.main() with at most 2 (thorough: 3) deviations from the default "
          "history, within the scenarios' horizons, menus of events and time grid. Trusts the virtual process table, "
          "clock, signals and randomness; file system and SQLite are real; runs behave only as scripted.")
TECH = {}
NOTE = {}
for i in range(1, 13):
    TECH["D%02d" % i] = DAEMON
    NOTE["D%02d" % i] = NOTE_D

ENUM = "model checking: bounded exhaustive enumeration of %s, each executed on the real code and compared with %s"
for ids, space, oracle, note in [
    (["S01"], "schedule expressions x job names x zones x moments", "an independent cron evaluator",
     "All expressions of a bounded grammar; moments around every field boundary. Trusts zoneinfo and the evaluator."),
    (["S02"], "hash residues x fields x ranges x divisors x extreme random draws", "the documented value sets",
     "Every residue of the hash for every field and range of the bounds; randomness is replaced by its extremes."),
    (["S03"], "RRULE rules x job names x zones x moments", "an independent recurrence evaluator",
     "All rules of a bounded set; moments and sub-second phases around occurrences. Trusts zoneinfo."),
    (["C01"], "configuration layer contents and listing orders, and of job groups", "a reference merge",
     "All assignments of small conflicting documents to the layers; through dsari-info and the loader."),
    (["C02"], "options x JSON values, short names and mutations of a configuration", "the documented option types",
     "Every documented option with every kind of value, all short names over an adversarial alphabet."),
    (["C03"], "single options and pairs of options", "the configuration the dump was made from",
     "Dumps through the command line, reloaded and dumped again, in both formats."),
    (["B01"], "database operation sequences and adversarial values", "an in-memory table after every step",
     "All sequences up to the depth bound on real SQLite files, over several connections."),
    (["B02"], "database operation sequences on every backend", "the same sequence on SQLite, and an observer at every statement",
     "PostgreSQL, MySQL and MongoDB are in-memory stand-ins for the drivers which are not installed; their "
     "semantics (types, time zones, collation, transactions) are modelled from their documentation."),
    (["B03"], "interleavings of the statements of two or three programs up to a preemption bound", "the table contents an independent connection saw after every step",
     "The real database class in threads under a controlled scheduler, on real SQLite files; a locked database is waited for as long as another program can move."),
    (["I01"], "run histories x filters x formats, and of completions at every line of the listing", "the recorded runs",
     "Through dsari-info's main(); the daemon's completions are injected at every executed line of the program."),
    (["I02"], "output byte strings x storage forms x run states x instants of compression", "the bytes written",
     "Through dsari-info's main(); bytes over a bounded alphabet with every kind of UTF-8 error."),
    (["L01"], "options x variables in every configuration layer x commands x surroundings of the daemon", "the documented environment, command and files",
     "The real daemon under the virtual OS; the forked child is real up to exec, where it reports everything it would pass on. A real daemon with real children is run as well."),
    (["L02"], "all ways a process can end (exit codes, signals, core dumps), and real processes ending in each of these ways", "the shell convention",
     "All 256 exit codes and all signals, with and without core dump, through the daemon's collection, the run table, dsari-info and PREVIOUS_EXIT_CODE; real processes for every fatal signal."),
    (["L03"], "histories of completed and running runs, and daemon restarts", "the most recently completed runs",
     "All short histories of the bounds, run by the real daemon under the virtual OS."),
    (["R01"], "run histories and the renderings between them", "the recorded runs and a full regeneration",
     "All histories of the bounds; pages are parsed as HTML."),
    (["R02"], "kills of the renderer at every executed line and write, and of repeated kills", "an uninterrupted rendering",
     "Every distinct image of the report directory is followed by a rendering; torn writes included."),
    (["R03"], "texts built from markup, control and invalid byte fragments x places they are shown in", "the parsed pages",
     "All strings up to the length bound; parsed with Python's HTML parser and compared with the text supplied."),
    (["R04"], "histories x events x the instants of a rendering at which they happen", "the history before and after, and a full rendering",
     "An event between any two accesses of the real renderer to files or database (thorough: any two source lines); a locked database is waited for."),
    (["M01"], "run histories x quantiles", "metrics recomputed from the recorded runs",
     "All histories of the bounds, parsed by an independent reader of the exposition format."),
    (["M02"], "sequences of requests, recorded runs, clock advances, reloads and signals at every line", "a model of the cache",
     "All sequences up to the depth bound on the real WSGI application and server handler."),
]:
    for i in ids:
        TECH[i] = ENUM % (space, oracle)
        NOTE[i] = note


def main():
    claimed = [l.strip() for l in open(os.path.join(V, "tools", "claimed.txt")) if l.strip()]
    import importlib.util
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    for p in props:
        if p in claimed:
            m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                                "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                                "evidence_file": "evidence/%s.json" % p,
                                "technique": TECH[p], "level": "model_checking", "level_note": NOTE[p]})
        else:
            m["not_applicable"].append({"property": p, "reason": "its check is not built yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
