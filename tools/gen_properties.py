#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})
D = "dsari/daemon.py"; DB = "dsari/database.py"; U = "dsari/utils.py"; CFG = "dsari/config.py"
NOD = "The suite has no test of the daemon at all (only croniter_hash and four time conversions are tested). "

p("D01", "Concurrency group limits are never exceeded",
  "No run is ever started in a concurrency group that already has as many in-progress runs as the group's currently configured maximum (1 if the group is not defined), under any mix of scheduled and triggered runs, finish orders and reloads. A run of a job that lists groups always runs in exactly one of those groups and is told which one through CONCURRENCY_GROUP; a run of a job without groups is in none. A slot is free again as soon as the run occupying it has finished, so a job is held back only while all of its groups are full.",
  ["schedules", "histories", "configurations"],
  "all orders of due runs and group picks, all placements of finishes, triggers and reloads in a bounded horizon, for jobs with one, two, shared, undefined and resized groups",
  NOD + "The limit is a property of interleavings of starts, finishes, triggers and reloads.",
  [D, CFG], [("group pick and occupancy check", D + ":process_scheduled_run"), ("release on finish", D + ":process_next_child"), ("re-registration on reload", D + ":reset_jobs")],
  ["processes started and reaped by the daemon", "CONCURRENCY_GROUP of each run"],
  [("group occupancy", "in-progress runs per group", D + ":Scheduler.running_groups")])
p("D02", "Runs of one job never overlap unless concurrent_runs is set",
  "Unless a job sets concurrent_runs, no run of it, scheduled or triggered, is started while another run of the same job is still in progress, including across configuration reloads and when several runs of it become due together. With concurrent_runs set, a run in progress never holds back another due run of that job.",
  ["schedules", "histories", "configurations"],
  "all placements of triggers, finishes and reloads against recurring runs longer and shorter than their period",
  NOD + "Overlap depends on when triggers, reloads and finishes land relative to each other.",
  [D], [("overlap guard", D + ":process_scheduled_run"), ("job identity refresh on reload", D + ":reset_jobs")],
  ["start and finish instants of each run's process"])
p("D03", "Due runs start on time, exactly once, and keep recurring",
  "A recurring job's next run is the first occurrence of its schedule after its previous run's start (or after daemon start or reload); that run starts exactly once, never before its scheduled time, and within about a second of it when nothing holds it back. A run held back by a still-running run of the job or by full concurrency groups is never dropped: it starts within five minutes of being able to. Recurrence continues indefinitely, whatever runs, triggers and other jobs did in between, and nothing else is ever started.",
  ["schedules", "histories", "configurations"],
  "all bounded-deviation executions of job mixes with contention, overlap, triggers and different finish times; horizons up to several retry intervals",
  NOD + "Liveness and exactly-once need whole histories, not a sampled call.",
  [D, U], [("scheduling loop and wakeups", D + ":loop, process_wakeups"), ("next run creation", D + ":process_scheduled_run"), ("retry", D + ":backoff")],
  ["SCHEDULE_TIME, START_TIME and TRIGGER_TYPE of each started run"],
  [("pending runs", "one per recurring job plus triggered ones", D + ":Scheduler.scheduled_runs")])
p("D04", "Every run is recorded: running while it runs, completed once after",
  "From before its process exists until its process has been collected, a run is listed as running and not as completed; afterwards it is listed exactly once as completed and no longer as running, and an outside reader never sees both or neither. The completed record carries the run's job, id, trigger type and data, the schedule and start times the run was given, a stop time not before the start, the process's exit code, and any return data the run left. A finished process is collected and recorded promptly, whatever else is running or due.",
  ["schedules", "histories"],
  "all finish orders and placements within the bound; an outside reader looking after every step of the daemon",
  NOD + "Needs every finish order and every instant an outside reader can look.",
  [D, DB], [("running record", DB + ":insert_running_run"), ("atomic move", DB + ":insert_run"), ("collection", D + ":process_next_child")],
  ["the run database as read over a second connection"],
  [("runs / runs_running", "documented tables", "doc/database.md")])
p("D05", "A killed daemon restarts cleanly with its history intact",
  "If the daemon is killed at any instant and restarted on the same data directory, it starts normally, every run recorded as completed before the kill is still recorded exactly once with identical data, and no run is recorded as both running and completed. Nothing left over from the killed daemon is shown as running once the new one is up, and scheduling and recording of new runs resume.",
  ["crash_points", "histories"],
  "every distinct on-disk image between any two executed source lines of the daemon, from first start onward, each followed by a restart; repeated crashes in the thorough tier",
  NOD + "No test stops the daemon at all, let alone between every pair of statements.",
  [D, DB], [("single commit per transition", DB + ":insert_run"), ("startup cleanup", DB + ":clear_runs_running"), ("idempotent schema creation", DB + ":populate_schema")],
  ["the run database after restart"])
p("D06", "A trigger file produces exactly the run it asks for",
  "A well-formed trigger file for a configured job (JSON, or YAML when no JSON one is present) is noticed within 60 seconds, or at once after SIGUSR1, deleted, and yields exactly one run of trigger type \"file\" with the file's data recorded and its environment applied. The run is due at the file's modification time unless the trigger names a schedule_time (epoch seconds or ISO 8601, a time without UTC offset being read in schedule_timezone, else in local time). Without concurrent_runs it replaces the job's pending run and regular scheduling resumes afterwards; with concurrent_runs it is an additional run. (A file overwritten before the daemon took it counts as one trigger; SIGUSR1 takes the JSON file when both exist; a reload or restart drops triggered runs which are still pending.)",
  ["inputs", "schedules", "histories"],
  "all trigger shapes from a bounded grammar, placed at every point of bounded executions, alone and combined with pending, running and further triggered runs",
  NOD + "Trigger handling is untested; it depends on file content and on timing.",
  [D, U], [("trigger scan and parse", D + ":process_trigger_job"), ("load and delete", U + ":load_structured_file"), ("time zone conversion", U + ":dtlocalize")],
  ["trigger directory", "runs started", "recorded trigger data"])
p("D07", "No trigger or return data file can stop or derail the daemon",
  "Whatever a trigger file contains, and whenever it appears, changes or vanishes, the daemon keeps running, other jobs' runs are unaffected, and an unusable trigger is removed without creating a run. Whatever a run leaves as return_data.json or return_data.yaml, the run's completion is recorded with its exit code; valid data is recorded (JSON preferred over YAML) and invalid data is ignored.",
  ["inputs", "fault_sequences"],
  "a bounded grammar of file contents (wrong types, syntax errors, bad encodings, extreme numbers, nesting, YAML-only values), and a file vanishing or being replaced between any two source lines",
  NOD + "Malformed content and races with the writer are never sampled.",
  [D, U, DB], [("trigger error handling", D + ":process_trigger_job"), ("return data load", D + ":process_next_child"), ("serialisation", DB + ":_build_insert")],
  ["daemon liveness", "run database", "trigger directory"])
p("D08", "Execution limits: SIGTERM at the limit, SIGKILL only after the grace",
  "A run that is still in progress when its job's max_execution has passed is promptly sent SIGTERM, once and not earlier; if it is still in progress max_execution_grace after that SIGTERM it is promptly sent SIGKILL, once and not earlier, even when the daemon itself was stalled meanwhile (limits changed by a reload apply to runs in progress). A run that finishes within its limit, or whose job has no limit, is never signalled for this reason. The daemon only ever signals the process of a run that is still in progress.",
  ["schedules", "histories", "configurations"],
  "all placements of finishes, daemon stalls, reloads and shutdowns around the two deadlines, for processes that obey or ignore SIGTERM",
  NOD + "Needs control of time at both deadlines and of the process's reaction.",
  [D], [("limit check", D + ":process_run_execution_time"), ("wakeups", D + ":process_wakeups")],
  ["signals sent by the daemon, with target and instant"])
p("D09", "Shutdown starts nothing, loses nothing, and ends",
  "After SIGTERM or SIGINT no further run is started and the daemon exits by itself once every in-progress run has finished and been recorded. Without shutdown_kill_runs, runs are left to finish and are not signalled because of the shutdown; with it, every in-progress run is promptly sent SIGTERM once, and, only if shutdown_kill_grace is set, SIGKILL once that grace has passed since its SIGTERM and it is still in progress, not earlier and promptly then. Further signals or triggers during shutdown change none of this.",
  ["schedules", "histories", "configurations"],
  "shutdown requested at every point of bounded executions, once or repeatedly, for every combination of the two options and of obeying and ignoring processes",
  NOD + "Shutdown is a history property under repeated signals and slow processes.",
  [D], [("shutdown", D + ":begin_shutdown, monitor_shutdown, loop")],
  ["signals sent", "runs started and recorded", "daemon exit"])
p("D10", "Reload applies the new configuration without disturbing runs",
  "After SIGHUP the new configuration governs every later start: added jobs are scheduled, removed or unscheduled ones no longer start, and changed commands, schedules, group limits and flags apply; pending runs are recomputed from the time of the reload (pending triggered runs are dropped, as documented). Runs in progress are neither stopped, restarted nor lost, still count for overlap and group limits, and are recorded when they finish. A reload that fails because the configuration is invalid leaves the daemon running on the previous configuration.",
  ["schedules", "histories", "configurations"],
  "reloads between every pair of configurations of a small family, placed at every point of bounded executions, once or twice",
  NOD + "Reload correctness depends on the state it hits.",
  [D, CFG], [("reload", D + ":load_config, reset_jobs")],
  ["runs started after the reload", "run database"])
p("D11", "A signal may arrive at any instant",
  "SIGHUP, SIGINT, SIGTERM, SIGQUIT and SIGUSR1 may be delivered between any two statements of the daemon, singly or in pairs, and every other guarantee still holds: the daemon does not fail, no run is lost, duplicated, left unrecorded or started after a shutdown was under way, and only live processes of its runs are signalled. Each signal takes effect within a couple of seconds, whether or not runs are in progress.",
  ["schedules", "crash_points"],
  "every signal at every executed source line of the daemon's code over scenarios that start, collect, trigger, reload and shut down runs; pairs of signals in a bounded window",
  NOD + "No test sends a signal; asynchronous delivery has thousands of placements.",
  [D], [("signal handling", D + ":signal_handler"), ("main loop", D + ":loop")],
  ["all of the above observations"])
p("D12", "SIGQUIT shows the daemon's current status",
  "Whenever SIGQUIT arrives, the daemon logs exactly the runs in progress (job, run id, PID, start time and how long ago, concurrency group with the number of runs in it and its configured limit) and exactly the next runs which are scheduled or triggered (job, kind, time and how long until or since; none during a shutdown), as they are at that moment: after starts, ends, triggers, reloads that add, change or remove jobs and groups, and shutdowns. Asking changes nothing.",
  ["schedules", "histories", "configurations"],
  "SIGQUIT after every event and wait of all bounded executions with triggers, reloads, held back runs and shutdowns, and at every statement",
  NOD + "The status depends on the whole history.",
  [D], [("status", D + ":sigquit_status")], ["log"])
p("L01", "Runs get exactly the documented environment, command and files",
  "A run is executed as the configured command (plus job name and run id if command_append_run) with an environment built from scratch: the documented automatic variables with their documented values, overridden by global, then job, then trigger environment, and nothing inherited from the daemon except PATH. Its working directory is its run directory (or a configured existing PWD), which exists and holds output.txt receiving both output streams; standard input is /dev/null, no other descriptor is inherited, the signals the daemon handles (and SIGPIPE) have their default action and it leads its own process group. One run's command line and environment never leak into another run.",
  ["inputs", "configurations", "histories"],
  "all combinations of the options that affect launching and of colliding variables at each layer, on first and later runs",
  NOD + "The launch path has many interacting layers, none tested.",
  [D], [("child set-up", D + ":run_child_executor")],
  ["argv, environ, cwd, descriptors and process group at exec time"])
p("L02", "Exit codes follow the shell convention for every wait status",
  "For every way a process can end, the recorded and reported exit code is the process's own exit code if it exited, and 128 plus the signal number if a signal ended it, whether or not it dumped core.",
  ["inputs"], "all 256 exit codes and all signals, with and without core dump",
  NOD + "Five hundred statuses; none is sampled.",
  [D], [("status decoding", D + ":wait_deadline")], ["recorded exit_code"])
p("L03", "PREVIOUS_* variables describe the right earlier runs",
  "A run's PREVIOUS_*, PREVIOUS_GOOD_* and PREVIOUS_BAD_* variables give the id, schedule, start and stop time and exit code of the job's most recently completed run, most recently completed run with exit code 0, and most recently completed run with another exit code, respectively, and are absent when there is none. Runs of other jobs and runs still in progress never count, and the values survive daemon restarts.",
  ["histories", "inputs"], "all histories up to a bounded length over two jobs, exit classes and completion orders",
  NOD + "Needs all orders of good and bad completions.",
  [D, DB], [("lookup", DB + ":get_previous_runs"), ("export", D + ":run_child_executor")], ["environment of the next run"])
p("S01", "Cron schedules: the next run is the next matching instant",
  "For every supported cron expression (5 fields, 6 fields with seconds, or an @alias), job name, time zone and moment, the next run time lies strictly in the future and, up to a fixed per-job offset of at most one second, is the earliest matching instant after that moment. When no seconds field is given the second is fixed per job and lies in 0-59. Only around a change of the UTC offset is there latitude: an occurrence in a skipped local hour runs at or shortly after the end of the gap or not at all, and one in a repeated hour may run in the first pass only.",
  ["inputs"], "all expressions of a bounded grammar x job names x moments around every field boundary x zones, against an independent evaluator",
  "The tests sample one job name and one or two moments for a dozen expressions; the scheduling function the daemon uses is not tested at all.",
  [U, "dsari/croniter_hash.py"], [("next run", U + ":get_next_schedule_time"), ("expansion", "dsari/croniter_hash.py:croniter_hash")],
  ["next run time as reported and as used by the daemon"])
p("S02", "H and R stay in range, H is stable, and intervals are even",
  "H in any field, and H(a-b), pick one value within the field's range, respectively within a-b inclusive, that is the same for the same job name at all times and in every process; R picks within the same bounds. H/n and H(a-b)/n (and R likewise) select every n-th value starting from an offset within the first n values of the range, so that no gap inside the range exceeds n. Expressions, names and fields without H or R are left untouched.",
  ["inputs"], "every hash residue of every field, all ranges and divisors of a bounded set, all extreme random draws",
  "The tests try a single name for each form and no interval form; range edges depend on the residue.",
  ["dsari/croniter_hash.py"], [("hash", "dsari/croniter_hash.py:_hash_do"), ("expansion", "dsari/croniter_hash.py:_hash_expand_item")],
  ["successive next run times"])
p("S03", "RRULE schedules honour the rule, with stable hashed positions",
  "For every supported RRULE, job name and moment, the next run time lies strictly in the future and satisfies the rule's explicit parts; positions the rule leaves open take the same per-job time of day on every evaluation, so a daily rule runs at the same hour, minute and second each day as long as the UTC offset does not change. A rule ending with UNTIL yields runs up to that time and none after it, and a rule accepted by configuration checking is never rejected by the daemon.",
  ["inputs"], "a bounded set of rules x job names x moments and sub-second phases x zones",
  "RRULE handling has no test; stability is over all moments.",
  [U], [("RRULE evaluation", U + ":get_next_schedule_time")], ["next run time"])
p("C01", "Configuration layers merge deterministically by precedence",
  "The effective configuration is the recursive merge, later over earlier, of dsari.yaml, dsari.json, then config.d YAML files and then config.d JSON files, each in alphanumeric order: maps are merged key by key and any other value replaces the earlier one. Other files are ignored, directory listing order is irrelevant, and config_d is taken from the main files. A job group is exactly equivalent to writing out each of its jobs with the group's options plus job_group.",
  ["configurations", "inputs"], "all assignments of conflicting small documents to all layers, all listing orders, and job groups against their written-out form",
  "Configuration loading has no test; precedence is over all layer combinations.",
  [CFG, U], [("layering", CFG + ":load_dir"), ("merge", U + ":dict_merge"), ("groups", CFG + ":build_jobs")],
  ["effective configuration as dumped"])
p("C02", "Every configuration is either fully applied or rejected as invalid",
  "A configuration whose options all have documented types and whose names use only the documented characters (at most 64 of them, no slash, not . or ..) is accepted, every option taking the given value or its documented default. Anything else in a documented option - a wrong type, a missing command or job_names, an invalid schedule or name, a syntax error - is rejected with a configuration error and config check exits non-zero (null is a value only for schedule and config_d; an empty YAML file is an empty map). In particular no accepted job name can address a path outside its own run, trigger and report directories.",
  ["configurations", "inputs"], "every option x every JSON type, all short names over an adversarial alphabet, bounded mutations of a valid configuration",
  "Validation has no test.", [CFG, U], [("typing", CFG + ":populate_object"), ("names", CFG + ":is_valid_name")],
  ["config check", "effective configuration"])
p("C03", "A dumped configuration loads back to the same configuration",
  "For every valid configuration, the compiled output of config dump, in JSON and in YAML, is itself a valid configuration that yields the same jobs, groups and settings, and dumping again gives the same output; the raw dump is the merged input.",
  ["configurations"], "all single options and pairs of options of jobs, groups and main settings",
  "Dumping has no test.", ["dsari/info.py", CFG], [("dump", "dsari/info.py:cmd_dump_config, dump_jobs")], ["config dump output, reloaded"])
p("B01", "The run database returns exactly what was recorded",
  "Any sequence of recorded starts and completions can be read back, in this process or a later one, with every field equal to what was recorded, completed and running runs kept apart. Filtering by job names or run ids returns exactly the matching runs, none for an empty list, all when no filter is given, including runs of jobs no longer configured. Completing one run never alters any other run.",
  ["histories", "inputs"], "all operation sequences up to a bounded depth over several runs and adversarial values, checked against a plain in-memory table after every step",
  "The database layer has no test.", [DB], [("statements", DB + ":BaseSQLDatabase")], ["reads through the public database interface and dsari-info"])
p("B02", "All database backends give the same answers",
  "For the same sequence of recorded starts, completions and clean-ups, the PostgreSQL, MySQL and MongoDB backends report the same running and completed runs, previous runs and filter results as the default SQLite backend (to the backend's time resolution), see what other programs recorded since, and move a run from running to completed without a moment in which it is in neither.",
  ["histories", "configurations"], "all operation sequences up to a bounded depth on every backend, through in-memory stand-ins for the missing drivers",
  "No backend has a test and the drivers are optional.", [DB], [("backends", DB + ":PostgreSQLDatabase, MySQLDatabase, MongoDBDatabase")], ["reads through the database interface"])
p("B03", "Programs may use one SQLite database at the same time",
  "However a daemon and the programs that read its SQLite database (dsari-info, dsari-render, the exporter, possibly another writer of the same file) interleave in opening it, creating its directory, file and tables where they are missing, recording and reading, none of them fails because of another. In the end everything recorded is there; every list of runs and every previous run that is read is one which the database had at some moment of that read; and a run that completes moves from the running to the completed ones in one step for all observers.",
  ["schedules"], "all interleavings, up to a preemption bound, of the statements of two or three programs from every state the directory, the file and the tables can be in",
  "No test opens a database twice.", [DB], [("opening", DB + ":SQLite3Database.__init__, populate_schema"), ("recording and reading", DB + ":insert_running_run, insert_run, clear_runs_running, get_runs, get_previous_runs")], ["success of every program", "reads through the database interface", "table contents seen by an independent connection"])
p("R01", "Reports cover every run and incremental equals full rendering",
  "After rendering, there is a page for every completed run of every reported job, and every job page and the index list exactly the runs recorded by then (index: the 25 latest and the 10 latest failed), newest first, each with its times and exit code. Whatever runs completed between successive renderings, incremental rendering leaves the same pages for jobs which have runs, and the same index, as a full regeneration. Jobs with render_reports off never appear, and an unchanged history rewrites nothing.",
  ["histories", "configurations"], "all interleavings of completing runs and rendering up to a bounded depth, over jobs, outcomes and options",
  "Rendering has no test.", ["dsari/render.py"], [("rendering", "dsari/render.py:Renderer")], ["generated HTML"])
p("R02", "An interrupted rendering is repaired by the next one",
  "If rendering is killed at any instant, the next ordinary rendering leaves complete and up-to-date reports: every page whole, none missing, and job pages and the index listing every recorded run.",
  ["crash_points"], "a kill between any two source lines of the renderer and in the middle of any file write, followed by an ordinary rendering",
  "Rendering has no test and no crash is ever simulated.", ["dsari/render.py"], [("page writing", "dsari/render.py:write_html_file, render_run, render_jobs, render_index")], ["generated HTML after the second rendering"])
p("R03", "Nothing a run or trigger supplies can inject markup into reports",
  "Whatever text run output, trigger type and description, and other recorded data contain, the report pages show it as that very text: it never opens, closes or alters an HTML element or attribute. Output in any encoding, or missing output, never prevents its own or other pages from being rendered.",
  ["inputs"], "all adversarial strings of a bounded alphabet in every recorded field and in output, in plain, gzip and xz form",
  "Rendering has no test.", ["dsari/render.py", "dsari/templates/run.html", "dsari/templates/job.html", "dsari/templates/index.html", U], [("autoescape", "dsari/render.py:guess_autoescape"), ("output decoding", U + ":read_output")], ["parsed HTML"])
p("R04", "Rendering while runs are recorded and outputs compressed",
  "If a run starts or completes, other programs read the database, or run outputs are being compressed at any instant while dsari-render works, the rendering succeeds and does not keep the others from recording, all its reports are of one and the same moment (they list the history either all with or all without what was recorded meanwhile), and the next ordinary rendering leaves what a full one would. (One rendering at a time.)",
  ["schedules", "histories"], "an event of each kind between any two accesses of the renderer to files or database, in several histories",
  "Rendering has no test, and no test runs two programs at once.", ["dsari/render.py", DB, U], [("rendering", "dsari/render.py:Renderer"), ("output", U + ":read_output")], ["generated HTML", "the other program's success"])
p("M01", "Metrics agree with the run database",
  "For every run history, the exported counts, success and failure counts, duration and latency sums, counts and quantiles, last-run values and running-run values of each configured job equal those computed from the recorded runs, in well-formed Prometheus text with each metric declared once. Jobs without runs export zero counts and no last-run values.",
  ["histories", "inputs"], "all run histories up to a bounded size over jobs, outcomes, durations and completion orders, and several quantile sets",
  "The exporter has no test.", ["dsari/prometheus_exporter.py"], [("metrics", "dsari/prometheus_exporter.py:get_job_metrics, get_running_metrics, percentile")], ["exported text"])
p("M02", "The exporter serves current data through caching and reloads",
  "Every request for the metrics path is answered 200 with well-formed metrics of the declared length, and any other path 404. Finished-run metrics are never older than the configured cache time, and are fresh after a reload; running-run metrics are always current. A SIGHUP at any instant, or with an invalid configuration, never breaks a request or stops the exporter.",
  ["schedules", "histories", "fault_sequences"], "all sequences of requests, recorded runs, clock advances and reloads up to a bounded depth; a SIGHUP at every source line of a request",
  "The exporter has no test.", ["dsari/prometheus_exporter.py"], [("cache", "dsari/prometheus_exporter.py:get_metrics"), ("reload", "dsari/prometheus_exporter.py:load_config, signal_handler")], ["HTTP responses"])
p("I01", "dsari-info lists exactly the recorded runs and configured jobs",
  "run list shows exactly the completed and running runs (restricted to the given jobs or run ids), and job list exactly the configured (or given) jobs, each with its recorded or effective values; the JSON, YAML, tabular and pretty forms show the same entries and agree on every value they share. A running run has no stop time or exit code. All this also holds while the daemon starts and completes runs meanwhile, and run tail follows exactly the running runs asked for.",
  ["histories", "configurations", "inputs"], "all histories up to a bounded size x filters x formats",
  "dsari-info has no test.", ["dsari/info.py", DB], [("listing", "dsari/info.py:cmd_list_runs, cmd_list_jobs, dump_jobs")], ["dsari-info output"])
p("I02", "A run's output can be read back whatever it contains",
  "run output prints exactly what the run wrote, for running and completed runs, including runs of jobs no longer configured, whether the output file is plain or was compressed with gzip or xz, and substitutes only bytes that are not valid UTF-8. An unknown run id is an error, and a run without output prints nothing.",
  ["inputs", "histories"], "all byte strings of a bounded alphabet x storage forms x run states",
  "dsari-info has no test.", ["dsari/info.py", U], [("output lookup", "dsari/info.py:cmd_get_run_output"), ("decoding", U + ":read_output")], ["dsari-info output"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
