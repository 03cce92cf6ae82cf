"""R01, R02, R03, R04: the HTML reports against the recorded runs.

A state is (run table, report tree, configuration); transitions are a run being recorded and dsari-render being run,
completely or up to any instant at which the tree on disk changes.  Pages are judged by what an HTML parser sees.
"""
import os, sqlite3, contextlib, sys, io, json, gzip, lzma, itertools, datetime, time, uuid, shutil, logging, builtins, re
from html.parser import HTMLParser
from urllib.parse import urljoin, unquote, urlsplit

import jinja2

import vos, sweep, cli, standins
import dsari
import dsari.config
import dsari.database
import dsari.render
import dsari.utils

UTC = datetime.timezone.utc
HERE = os.path.dirname(os.path.abspath(dsari.__file__))
NOW = 1600000000 * 10 ** 6 + 123456

# compiling a template is a function of its text: done once per process
_compile = jinja2.Environment.compile
_compiled = {}


def memo(self, source, name=None, filename=None, raw=False, defer_init=False):
    ae = self.autoescape(name) if callable(self.autoescape) else self.autoescape
    try:
        k = (source, name, filename, raw, defer_init, bool(ae), tuple(sorted(self.extensions)), self.trim_blocks, self.lstrip_blocks,
             self.undefined, self.finalize, tuple(sorted(self.filters)))
        if k not in _compiled:
            _compiled[k] = _compile(self, source, name, filename, raw, defer_init)
        return _compiled[k]
    except TypeError:
        return _compile(self, source, name, filename, raw, defer_init)


jinja2.Environment.compile = memo


def t(k):
    return datetime.datetime(2020, 9, 12, 12, 0, 0, 250000, tzinfo=UTC) + datetime.timedelta(seconds=k * 61, microseconds=k * 1007)


class World:
    def __init__(self, jobs=("a", "b 1"), options=None, db="sqlite3", hidden=("hid",)):
        os.chdir(cli.scratch())
        self.cd, self.var, self.db, self.reported = cli.fresh("etc"), cli.fresh("var"), db, list(jobs)
        cfg = {"data_dir": self.var, "jobs": {j: {"command": ["x"]} for j in jobs}}
        for h in hidden:
            cfg["jobs"][h] = {"command": ["x"], "render_reports": False}
        if db != "sqlite3":
            standins.drop(db, os.path.join(cli.scratch(), "server"))
            cfg["database"] = standins.settings(db, os.path.join(cli.scratch(), "server"))
        cfg.update(options or {})
        self.gz = bool(cfg.get("report_html_gz"))
        cli.write(os.path.join(self.cd, "dsari.json"), json.dumps(cfg))
        self.config = dsari.config.get_config(self.cd)
        self.conn = dsari.database.get_database(self.config)
        self.runs, self.html = [], os.path.join(self.var, "html")

    def record(self, job, code=0, back=False, output="out\n", ttype="schedule", tdata=None, form="plain", rdata=None, dur=None):
        k = len(self.runs)
        r = {"job": job, "id": str(uuid.UUID(int=(1000 - k) * 7919)), "sched": t(3 * k), "start": t(3 * k + 1), "code": code, "ttype": ttype, "tdata": tdata or {}}
        # a run that started earlier may finish later; the clock may have been set back
        r["stop"] = r["start"] + datetime.timedelta(seconds=-400 if back else 300 if k % 3 == 0 else 100 - (k % 3) * 45, microseconds=k)
        if back:
            for f in ("sched", "start"):
                r[f] -= datetime.timedelta(seconds=500)
        if self.db == "mongodb":        # which keeps milliseconds
            for f in ("sched", "start", "stop"):
                r[f] = r[f].replace(microsecond=r[f].microsecond // 1000 * 1000)
        if dur is not None:
            r["stop"] = r["start"] + datetime.timedelta(seconds=dur)
        self.runs.append(r)
        x = dsari.Run(self.config.jobs.get(job) or dsari.Job(job), id=r["id"])
        x.schedule_time, x.start_time, x.trigger_type, x.trigger_data, x.run_data = r["sched"], r["start"], ttype, r["tdata"], {}
        self.conn.insert_running_run(x)
        x.stop_time, x.exit_code, x.run_data = r["stop"], code, rdata or {}
        self.conn.insert_run(x)
        r["output"] = output
        if output is not None:
            data = output if isinstance(output, bytes) else output.encode("utf-8", "surrogatepass")
            p = os.path.join(self.var, "runs", job, r["id"], "output.txt")
            if form == "plain":
                cli.write(p, data)
            elif form == "gz":
                cli.write(p + ".gz", gzip.compress(data, 1))
            else:
                cli.write(p + ".xz", lzma.compress(data, preset=0))
            r["output"] = data.decode("utf-8", "replace")
        return r

    def render(self, *args):
        return render(self.cd, *args)

    def shown(self):
        return [r for r in self.runs if r["job"] in self.reported]

    def read(self):
        return read_tree(self.html)


def render(cd, *args):
    vos.CLOCK = NOW
    root = logging.getLogger()
    try:
        return cli.call(dsari.render.main, ["--config-dir", cd] + list(args), "dsari-render")
    finally:
        vos.CLOCK = None
        for h in list(root.handlers):
            root.removeHandler(h)


def listing(top):
    out = []
    for d, ds, fs in os.walk(top):
        ds.sort()
        out.append((d, None))
        for f in sorted(fs):
            st = os.lstat(os.path.join(d, f))
            out.append((os.path.join(d, f), (st.st_ino, st.st_size, st.st_mtime_ns)))
    return out


def read_tree(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for f in fs:
            with open(os.path.join(d, f), "rb") as g:
                out[os.path.relpath(os.path.join(d, f), top)] = g.read()
    return out


def page(tree, path, gz):
    """the text of a page, or None; raises if it is damaged"""
    b = tree.get(path + (".gz" if gz else ""))
    if b is None:
        return None
    return (gzip.decompress(b) if gz else b).decode("utf-8")


# ---------------------------------------------------------------------------------------------- what a browser sees
VOID = {"meta", "link", "br", "hr", "img", "input"}


class Doc(HTMLParser):
    def __init__(self, s):
        super().__init__(convert_charrefs=True)
        self.events, self.tables, self.stack, self.problems = [], [], [], []
        self.heading, self.h, self.pre, self.title = None, [], None, ""
        self.row = self.cell = None
        self.hrefs_all = []
        self.feed(s)
        self.close()
        if self.stack:
            self.problems.append("unclosed %r" % self.stack)

    def handle_decl(self, d):
        self.events.append(("decl", d))

    def handle_comment(self, d):
        self.events.append(("comment",))

    def handle_pi(self, d):
        self.events.append(("pi", d))

    def unknown_decl(self, d):
        self.events.append(("unknown", d))

    def handle_starttag(self, tag, attrs):
        self.events.append(("start", tag, tuple(attrs)))
        if tag not in VOID:
            self.stack.append(tag)
        if tag == "table":
            self.tables.append({"heading": self.heading, "rows": []})
        elif tag == "tr":
            self.row = {"cells": [], "attrs": dict(attrs)}
        elif tag in ("td", "th"):
            self.cell = {"tag": tag, "text": "", "hrefs": []}
        elif tag in ("h1", "h2", "h3"):
            self.h = []
        elif tag == "pre":
            self.pre = ""
        elif tag == "a":
            self.hrefs_all.append(dict(attrs).get("href"))
            if self.cell is not None:
                self.cell["hrefs"].append(dict(attrs).get("href"))

    def handle_endtag(self, tag):
        self.events.append(("end", tag))
        if tag in VOID:
            return
        if not self.stack or self.stack[-1] != tag:
            self.problems.append("</%s> closes %r" % (tag, self.stack[-2:]))
        else:
            self.stack.pop()
        if tag == "tr" and self.tables and self.row is not None:
            self.tables[-1]["rows"].append(self.row)
            self.row = None
        elif tag in ("td", "th") and self.cell is not None and self.row is not None:
            self.row["cells"].append(self.cell)
            self.cell = None
        elif tag in ("h1", "h2", "h3"):
            self.heading = "".join(self.h).strip()

    def handle_data(self, data):
        if self.cell is not None:
            self.cell["text"] += data
        if self.stack and "pre" in self.stack:
            self.pre += data
        if self.stack and self.stack[-1] == "title":
            self.title += data
        if any(x in ("h1", "h2", "h3") for x in self.stack):
            self.h.append(data)

    def grid(self, i):
        """rows below the header as {heading: cell}"""
        rows = self.tables[i]["rows"]
        heads = [c["text"].strip() for c in rows[0]["cells"]]
        out = []
        for r in rows[1:]:
            out.append((dict(zip(heads, r["cells"])), r["attrs"]))
        return out

    def pairs(self, i):
        return {r["cells"][0]["text"].strip(): (r["cells"][1]["text"], r["attrs"]) for r in self.tables[i]["rows"] if len(r["cells"]) == 2}


def moment(s, whole=False):
    """a shown time: local unless it has an offset"""
    d = datetime.datetime.fromisoformat(s.strip())
    return d.astimezone(UTC) if d.tzinfo else d.astimezone().astimezone(UTC)


def span(s):
    m = re.match(r"^(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d)(?:\.(\d{1,6}))?$", s.strip())
    if not m:
        raise ValueError("not a duration: %r" % s)
    return datetime.timedelta(days=int(m.group(1) or 0), hours=int(m.group(2)), minutes=int(m.group(3)), seconds=int(m.group(4)),
                              microseconds=int((m.group(5) or "0").ljust(6, "0")))


def floor(x):
    return x.replace(microsecond=0) if isinstance(x, datetime.datetime) else datetime.timedelta(days=x.days, seconds=x.seconds)


def same_time(s, want):
    g = moment(s)
    return g == want or g == floor(want)


def same_span(s, want):
    g = span(s)
    return g == want or g == floor(want)


def target(base, href):
    """the page a link leads to"""
    u = urlsplit(urljoin("http://h/" + "/".join(x.replace(" ", "%20") for x in [base]), href.replace(" ", "%20")))
    if u.scheme != "http" or u.netloc != "h":
        return href
    return unquote(u.path).lstrip("/") + ("index.html" if u.path.endswith("/") else "")


class Wrong(Exception):
    pass


def need(c, *a):
    if not c:
        raise Wrong(" ".join(str(x) for x in a))


def check_row(cells, attrs, r, base, what):
    stop = cells["Stop time"]
    need(same_time(stop["text"], r["stop"]), what, "shows stop time", stop["text"], "of", r["id"], "which stopped at", r["stop"])
    need(same_span(cells["Duration"]["text"], r["stop"] - r["start"]), what, "shows duration", cells["Duration"]["text"], "expected", r["stop"] - r["start"])
    need(cells["Exit code"]["text"].strip() == str(r["code"]), what, "shows exit code", cells["Exit code"]["text"], "expected", r["code"])
    if "Job name" in cells:
        need(cells["Job name"]["text"].strip() == r["job"].strip(), what, "shows job", cells["Job name"]["text"], "expected", r["job"])


def run_of(cells, base):
    hs = [target(base, h) for c in cells.values() for h in c["hrefs"]]
    need(len(hs) >= 1, "a listed run has no link:", {k: c["text"] for k, c in cells.items()})
    return hs[0]


def check_list(doc, i, runs, base, what):
    """the table shows exactly these runs, newest first"""
    grid = doc.grid(i)
    byp = {"%s/%s/index.html" % (r["job"], r["id"]): r for r in runs}
    got = []
    for cells, attrs in grid:
        p = run_of(cells, base)
        need(p in byp, what, "lists", p, "which is not expected there; expected", sorted(byp))
        check_row(cells, attrs, byp[p], base, what)
        got.append(byp[p])
    need(sorted(r["id"] for r in got) == sorted(r["id"] for r in runs), what, "lists", [r["id"] for r in got], "expected", [r["id"] for r in runs])
    need(all(a["stop"] >= b["stop"] for a, b in zip(got, got[1:])), what, "is not newest first:", [str(r["stop"]) for r in got])


def newest(runs, n=None):
    return sorted(runs, key=lambda r: r["stop"], reverse=True)[:n]


def check_doc(tree, path, gz, what):
    try:
        s = page(tree, path, gz)
    except (EOFError, OSError, UnicodeDecodeError, ValueError) as e:
        raise Wrong("%s is damaged: %r" % (path, e))
    need(s is not None, what, "is missing:", path)
    d = Doc(s)
    need(not d.problems and ("end", "html") in d.events, what, path, "is not a whole page:", d.problems, repr(s[-60:]))
    return d


def check_run_page(tree, r, gz):
    base = "%s/%s/" % (r["job"], r["id"])
    d = check_doc(tree, base + "index.html", gz, "the page of run %s" % r["id"])
    p = d.pairs(0)
    what = "the page of run " + r["id"]
    need(p["Run ID"][0].strip() == r["id"], what, "shows id", p["Run ID"])
    need(d.heading is not None and r["job"] in d.title, what, "does not name the job", d.title)
    m = re.match(r"^(.*) \(([^()]*)\)$", p["Trigger"][0].strip(), re.S)
    need(m, what, "shows trigger", p["Trigger"])
    need(same_time(m.group(2), r["sched"]), what, "shows schedule time", m.group(2), "expected", r["sched"])
    kind = "Schedule" if r["ttype"] == "schedule" else r["ttype"] if r["ttype"] != "file" else r["tdata"].get("type") or "File"
    need(m.group(1) == str(kind), what, "shows trigger", m.group(1), "expected", kind)
    need(same_time(p["Start time"][0], r["start"]) and same_time(p["Stop time"][0], r["stop"]), what, "shows times", p)
    need(same_span(p["Duration"][0], r["stop"] - r["start"]), what, "shows duration", p["Duration"])
    need(p["Exit code"][0].strip() == str(r["code"]), what, "shows exit code", p["Exit code"], "expected", r["code"])
    if r["tdata"].get("description"):
        need(p["Description"][0] == str(r["tdata"]["description"]), what, "shows description", p.get("Description"))
    need([target(base, h) for h in d.hrefs_all] == [r["job"] + "/index.html"], what, "links to", d.hrefs_all)
    if r["output"] is not None:
        need(d.pre is not None and d.pre in (r["output"], r["output"][1:] if r["output"][:1] == "\n" else r["output"]), what, "shows output %.200r, expected %.200r" % (d.pre, r["output"]))


def check_reports(w, tree):
    """every page of every reported run and job, and the index"""
    runs = w.shown()
    for r in runs:
        check_run_page(tree, r, w.gz)
    for j in w.reported:
        mine = [r for r in runs if r["job"] == j]
        if mine:
            d = check_doc(tree, "%s/index.html" % j, w.gz, "the page of job %s" % j)
            check_list(d, 0, mine, "%s/" % j, "the page of job %s" % j)
            need(d.heading == j.strip(), "the page of job", j, "is headed", d.heading)
    if runs:
        d = check_doc(tree, "index.html", w.gz, "the index")
        sect = {x["heading"]: i for i, x in enumerate(d.tables)}
        check_list(d, sect["Failed Runs"], newest([r for r in runs if r["code"] != 0], 10), "", "the index of failed runs")
        check_list(d, sect["Latest Runs"], newest(runs, 25), "", "the index of latest runs")
        grid = d.grid(sect["Jobs"])
        need(sorted(c["Job"]["text"].strip() for c, _ in grid) == sorted(j.strip() for j in w.reported), "the index lists jobs", [c["Job"]["text"] for c, _ in grid])
        for cells, attrs in grid:
            j = [x for x in w.reported if x.strip() == cells["Job"]["text"].strip()][0]
            need([target("", h) for h in cells["Job"]["hrefs"]] == [j + "/index.html"], "the index links job", j, "to", cells["Job"]["hrefs"])
            mine = newest([r for r in runs if r["job"] == j])
            good = [r for r in mine if r["code"] == 0]
            for k, rr in (("Last run", mine), ("Last successful run", good)):
                s = cells[k]["text"].strip()
                tie = [r for r in rr if r["stop"] == rr[0]["stop"]]
                need((not rr and s == "") or any(s and same_time(s, r["start"]) for r in tie), "the index shows", k, s, "for job", j, "expected", rr[0]["start"] if rr else "none")
            s = cells["Last duration"]["text"].strip()
            need((not mine and s == "") or same_span(s, mine[0]["stop"] - mine[0]["start"]), "the index shows last duration", s, "for job", j)
    for path, b in tree.items():
        for j in w.config.jobs:
            if j not in w.reported:
                need(j + "/" not in path, "there is a page of hidden job", j, path)
                text_ = (gzip.decompress(b) if path.endswith(".gz") else b)
                if not path.endswith(".css"):
                    need(("%s" % j).encode() not in text_, path, "mentions hidden job", j)


GEN = re.compile(r"<!-- Generated .*?-->", re.S)


def pages(w, tree):
    """comparable content; pages of jobs without runs are only written by a full rendering"""
    have = {r["job"] for r in w.shown()}
    skip = {"%s/index.html" % j for j in w.reported if j not in have}
    out = {}
    for p, b in tree.items():
        q = p[:-3] if p.endswith(".gz") else p
        if q in skip or (q == "index.html" and not have):
            continue
        out[p] = GEN.sub("", (gzip.decompress(b) if p.endswith(".gz") else b).decode("utf-8", "replace"))
    return out


TPL = {"job.html": "<!DOCTYPE html>\n<html><head><title>{{ job.name }}</title></head><body><h1>{{ job.name }}</h1><table><tr><th>Stop time</th><th>Duration</th>"
                   "<th>Exit code</th></tr>{% for run in runs %}<tr><td><a href=\"{{ run.id }}/\">{{ run.stop_time }}</a></td><td>{{ run.stop_time - run.start_time }}"
                   "</td><td>{{ run.exit_code }}</td></tr>{% endfor %}</table><p>custom</p></body></html>"}


def ordinary(w, rec, hist):
    """run dsari-render and compare everything; False if something is wrong"""
    before, settled = listing(w.html), getattr(w, "settled", None)
    x = w.render()
    rec.step()
    if x.rc != 0:
        rec.bad("render fails", "dsari-render after %s fails: %r" % (hist, x))
        return False
    tree = w.read()
    try:
        check_reports(w, tree)
        if settled == len(w.runs):
            need(before == listing(w.html), "an unchanged history rewrites", sorted({p for p, _ in set(before) ^ set(listing(w.html))}))
    except (Wrong, KeyError, IndexError, ValueError) as e:
        rec.bad("reports", "dsari-render after %s: %s" % (hist, e if isinstance(e, Wrong) else repr(e)))
        return False
    w.settled = len(w.runs)
    w.tree = tree
    return True


def full(w, rec, hist):
    """a full regeneration from nothing gives the same"""
    old = pages(w, w.read())
    shutil.rmtree(w.html, ignore_errors=True)
    x = w.render("--regenerate")
    rec.step()
    new = pages(w, w.read())
    if x.rc != 0 or old != new:
        diff = sorted(p for p in set(old) | set(new) if old.get(p) != new.get(p))
        rec.bad("incremental", "after %s, incremental rendering differs from a full one in %s (%r)" % (hist, diff, x))
        return False
    try:
        check_reports(w, w.read())
    except (Wrong, KeyError, IndexError, ValueError) as e:
        rec.bad("regenerated", "dsari-render --regenerate after %s: %s" % (hist, e))
        return False
    # and everything is rewritten when asked for
    stamp = {p: s for p, s in listing(w.html) if s is not None and p.endswith(("index.html", "index.html.gz"))}
    x = w.render("--regenerate")
    rec.step()
    now = dict(listing(w.html))
    kept = [p for p, s in stamp.items() if now.get(p) == s]
    if x.rc != 0 or kept:
        rec.bad("regenerate", "dsari-render --regenerate after %s leaves %s (%r)" % (hist, kept, x))
        return False
    return True


OPS = {"a": dict(job="a"), "A": dict(job="a", code=1), "b": dict(job="b 1"), "h": dict(job="hid", code=2), "g": dict(job="gone", code=255),
       "o": dict(job="a", back=True), "O": dict(job="b 1", code=137, back=True)}
VARIANTS = {"plain": ({}, "sqlite3", "UTC"), "gz": ({"report_html_gz": True}, "sqlite3", "UTC"), "templates": ({"template_dir": "tpl"}, "sqlite3", "UTC"),
            "mysql": ({}, "mysql", "UTC"), "postgresql": ({}, "postgresql", "UTC"), "mongodb": ({}, "mongodb", "UTC"), "zone": ({}, "sqlite3", "America/New_York")}


def r01_seq(unit, rec):
    variant, seqs = unit
    opts, db, tz = VARIANTS[variant]
    os.environ["TZ"] = tz
    time.tzset()
    try:
        for seq in seqs:
            opts = dict(opts)
            if "template_dir" in opts:
                d = cli.fresh("tpl")
                for k, v in TPL.items():
                    cli.write(os.path.join(d, k), v)
                opts["template_dir"] = d
            w = World(options=opts, db=db)
            for i, op in enumerate(seq):
                hist = "%s (%s)" % ("".join(seq[:i + 1]), variant)
                rec.state(variant, seq[:i + 1])
                if op == "R":
                    if not ordinary(w, rec, hist):
                        return
                    if variant == "templates" and w.shown() and not any(b"custom" in b for p, b in w.tree.items()):
                        rec.bad("templates", "custom templates are not used")
                else:
                    w.record(**OPS[op])
            if not full(w, rec, hist):
                return
            rec.trace()
            w.conn = None
    finally:
        os.environ["TZ"] = "UTC"
        time.tzset()
    rec.sample(sequence="".join(seq), pages=sorted(w.read()))


def r01_many(unit, rec):
    """long histories, in batches"""
    n, failed, batch, order = unit
    w = World()
    kinds = [1 if i < failed else 0 for i in range(n)]
    if order == "failed last":
        kinds.reverse()
    elif order == "spread":
        kinds = [1 if i * failed // n != (i + 1) * failed // n else 0 for i in range(n)]
    for i in range(n):
        w.record("a" if i % 3 else "b 1", code=kinds[i], back=order == "spread" and i % 7 == 3)
        if (i + 1) % batch == 0:
            if not ordinary(w, rec, "%d runs, %d failing (%s), rendered every %d" % (i + 1, failed, order, batch)):
                return
    rec.state(unit)
    if not ordinary(w, rec, "%r" % (unit,)) or not full(w, rec, "%r" % (unit,)):
        return
    rec.trace()


NAMES = ["x", "a b", " a", "a:b", "http:", "a.b", "..a", "-", "@", "a+b", "_", "A" * 64, "index", "index.html2", "tmp", "a@b:c+d e.f-g_h", "0", ": :"]


def r01_names(unit, rec):
    names = list(unit)
    w = World(jobs=names, hidden=())
    for n in names:
        w.record(n, code=0)
        w.record(n, code=3)
    rec.state(unit)
    if ordinary(w, rec, "runs of jobs %r" % names) and full(w, rec, "runs of jobs %r" % names):
        rec.trace()


def r01_edge(unit, rec):
    """codes, durations and output limits"""
    code, dur, start, end, length = unit
    w = World(options={"report_run_output_start": start, "report_run_output_end": end} if start or end else None)
    out = "".join(chr(33 + i % 90) for i in range(length)).replace("<", "(")
    r = w.record("a", code=code, dur=dur, output=out)
    if start or end:
        r["output"] = None
    rec.state(unit)
    if not ordinary(w, rec, "a run with exit code %s, duration %s, output of %d (limits %d, %d)" % (code, dur, length, start, end)):
        return
    if start or end:
        d = Doc(page(w.tree, "a/%s/index.html" % r["id"], False))
        want = [out] if length <= max(start, end) else [out] if length <= start + end else []
        # whatever is cut, the first and the last part are there
        if not (d.pre.startswith(out[:start]) and d.pre.endswith(out[length - min(end, length):]) and (d.pre == out or "[...]" in d.pre)) or (length <= min(x for x in (start, end) if x) and d.pre != out):
            rec.bad("limits", "output of %d with limits %d, %d is shown as %.300r" % (length, start, end, d.pre))
            return
    full(w, rec, repr(unit))
    rec.trace()


def r01(c):
    th = c.tier == "thorough"
    units = []

    def seqs(variant, alphabet, depth, per=12):
        out = []
        for n in range(1, depth + 1):
            for s in itertools.product(alphabet + "R", repeat=n - 1):
                if "RRR" not in "".join(s):
                    out.append(s + ("R",))
        for i in range(0, len(out), per):
            units.append(("seq", (variant, out[i:i + per])))
    seqs("plain", "aAbhgoO", 5 if th else 4)
    seqs("plain", "aAb", 7 if th else 5)
    for v in ("gz", "templates", "mysql", "zone"):
        seqs(v, "aAbo", 5 if th else 4)
    for v in ("postgresql", "mongodb"):
        seqs(v, "aAbo", 5 if th else 3)
    for n in (9, 10, 11, 24, 25, 26, 27) + ((40, 60) if th else ()):
        for f in sorted({0, 1, 9, 10, 11, 12, n}):
            if f <= n:
                for order in ("failed first", "failed last", "spread"):
                    for batch in (1, 7, 100) if th else (7,):
                        units.append(("many", (n, f, batch, order)))
    for i in range(0, len(NAMES)):
        units.append(("names", (NAMES[i],)))
        units.append(("names", (NAMES[i], NAMES[(i + 1) % len(NAMES)])))
    for code in range(256) if th else (0, 1, 2, 126, 127, 128, 129, 137, 143, 255):
        units.append(("edge", (code, 5, 0, 0, 10)))
    for dur in (0, 0.5, 1, 59.999999, 60, 3600, 86399.5, 86400, 90061.25, 10 ** 7, 10 ** 9):
        units.append(("edge", (0, dur, 0, 0, 10)))
    for s in (0, 1, 5, 10):
        for e in (0, 1, 5, 10):
            for n in sorted({0, 1, 4, 5, 6, 9, 10, 11, s + e - 1, s + e, s + e + 1, 40} - {-1}):
                if s or e:
                    units.append(("edge", (0, 5, s, e, n)))
    for n in (100000, 3 * 10 ** 6):
        units.append(("edge", (0, 5, 0, 0, n)))
    fn = {"seq": r01_seq, "many": r01_many, "names": r01_names, "edge": r01_edge}
    tot = sweep.sweep(units, lambda u, r: fn[u[0]](u[1], r), c.wall(200, 3400))
    return sweep.finish(c, tot, "every sequence of up to %d recordings (2 reported, one hidden, one removed job; outcomes; clock set back) and renderings, plain, compressed, with custom "
                        "templates, in another zone and on every backend, compared with the recorded runs and with a full regeneration; histories around the index limits; job names; "
                        "exit codes, durations and output limits" % (7 if th else 5),
                        ["the configuration does not change between renderings", "a rendering sees no run being recorded while it reads"], units=len(units))


# ------------------------------------------------------------------------------------------------------------ R02
class Torn(io.FileIO):
    """a file written piece by piece, each piece visible to the observer"""
    hook = None

    def write(self, b):
        b = bytes(b)
        cuts = sorted({0, 1, len(b) // 2, len(b) - 1, len(b)} & set(range(len(b) + 1)))
        done = 0
        for k in cuts:
            if k > done:
                super().write(b[done:k])
                done = k
            if Torn.hook:
                Torn.hook("write of %d of %d bytes to %s" % (k, len(b), os.path.basename(str(self.name))))
        return len(b)


def torn_open(top):
    real = io.open

    def op(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, (str, os.PathLike)) and os.path.abspath(os.fspath(file)).startswith(top) and set(mode) & set("wax+"):
            raw = Torn(file, mode.replace("b", "").replace("t", ""))
            f = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw)
            return f if "b" in mode else io.TextIOWrapper(f, encoding=encoding, errors=errors, newline=newline)
        return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
    return op


def images(w, args, keep):
    """run dsari-render, calling keep(where) at every instant the tree on disk differs from the previous one"""
    last = [listing(w.html)]
    busy = [False]

    def look(where):
        if busy[0]:
            return
        now = listing(w.html)
        if now != last[0]:
            last[0] = now
            busy[0] = True
            try:
                keep(where)
            finally:
                busy[0] = False

    def trace(frame, ev, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(HERE):
            return None
        if ev == "line":
            look("%s:%d" % (os.path.basename(fn), frame.f_lineno))
        return trace
    op = torn_open(w.var)
    old = builtins.open, io.open
    Torn.hook = look
    builtins.open = io.open = op
    sys.settrace(trace)
    try:
        return w.render(*args)
    finally:
        sys.settrace(None)
        builtins.open, io.open = old
        Torn.hook = None


def snap(top, to):
    shutil.rmtree(to, ignore_errors=True)
    if os.path.isdir(top):
        shutil.copytree(top, to)


SCEN = {
    # (recorded and rendered before, recorded since, arguments of the rendering which is killed, recorded after the kill)
    "first": (["a", "A"], ["a", "b"], [], []),
    "first of all": ([], ["a", "A", "b", "b"], [], []),
    "one more": (["a", "b"], ["A"], [], []),
    "two jobs": (["a"], ["b", "A", "h"], [], []),
    "and later": (["a"], ["b"], [], ["A"]),
    "back": (["a", "b"], ["o", "O"], [], []),
    "regenerate": (["a", "b"], ["A"], ["--regenerate"], []),
    "regenerate nothing new": (["a", "b"], [], ["--regenerate"], []),
    "nothing": (["a"], [], [], []),
}


def r02(c):
    th = c.tier == "thorough"
    units = [(s, gz, d, k, 8) for s in SCEN for gz in (False, True) for d in ((1, 2) if th else (1,)) for k in range(8)]
    if not th:
        units += [(s, False, 2, k, 8) for s in ("one more",) for k in range(8)]
    tot = sweep.sweep(units, r02_unit, c.wall(200, 3400), limit=600)
    return sweep.finish(c, tot, "every distinct image of the report tree between two source lines of the renderer, and within every file write (0, 1, half, all but one, all bytes), "
                        "in %d scenarios, plain and compressed; pairs of interruptions (%s)" % (len(SCEN), "all scenarios" if th else "one scenario"),
                        ["killed means the process: what reached the file system stays, in order"], units=len(units))


def r02_unit(unit, rec):
    scen, gz, depth, part, parts = unit
    before, since, args, after = SCEN[scen]
    w = World(options={"report_html_gz": gz} if gz else None)
    for o in before:
        w.record(**OPS[o])
    if before:
        if not ordinary(w, rec, "%s (before)" % scen):
            return
    for o in since:
        w.record(**OPS[o])
    store = os.path.join(cli.scratch(), "images")
    shutil.rmtree(store, ignore_errors=True)
    got = []
    snap(w.html, os.path.join(store, "start"))

    def keep(where):
        snap(w.html, os.path.join(store, str(len(got))))
        got.append(where)
    x = images(w, args, keep)
    if x.rc != 0:
        rec.bad("render fails", "rendering (%s) fails: %r" % (scen, x))
        return
    for o in after:
        w.record(**OPS[o])
    rec.count("images", len(got) if part == 0 else 0)
    snap(w.html, os.path.join(store, "end"))
    shutil.rmtree(w.html, ignore_errors=True)
    w.settled = None
    if not ordinary(w, rec, "%s (from nothing)" % scen):
        return
    ref = pages(w, w.tree)

    def same(what):
        """nothing of an interrupted rendering stays"""
        have = pages(w, w.tree)
        diff = sorted(p for p in ref if have.get(p) != ref[p])
        if diff:
            rec.bad("repaired", "%s: an ordinary run leaves %s unlike an uninterrupted rendering" % (what, diff))
        return not diff
    for i, where in enumerate(got):
        if i % parts != part:
            continue
        src = os.path.join(store, str(i))
        what = "%s%s, killed at %s" % (scen, " (compressed)" if gz else "", where)
        rec.state(scen, gz, i)
        snap(src, w.html)
        if depth == 1:
            w.settled = None
            if not ordinary(w, rec, what) or not same(what):
                return
            w.settled = len(w.runs)
            if not ordinary(w, rec, what + ", repaired"):
                return
            rec.trace()
            continue
        second = []

        def keep2(where2):
            snap(w.html, os.path.join(store, "%d.%d" % (i, len(second))))
            second.append(where2)
        images(w, [], keep2)
        for k, where2 in enumerate(second):
            rec.state(scen, gz, i, k)
            snap(os.path.join(store, "%d.%d" % (i, k)), w.html)
            w.settled = None
            if not ordinary(w, rec, what + " and again at " + where2) or not same(what + " and again at " + where2):
                return
            shutil.rmtree(os.path.join(store, "%d.%d" % (i, k)))
            rec.trace()
    rec.sample(scenario=scen, images=len(got), first=got[:3])


# ------------------------------------------------------------------------------------------------------------ R04
def ev_record(*ops):
    def f(w):
        for o in ops:
            w.record(**OPS[o])
    return f


def ev_start(w):
    """a run that starts and is still running in the end"""
    x = dsari.Run(w.config.jobs["a"], id=str(uuid.UUID(int=5)))
    x.schedule_time = x.start_time = t(200)
    x.trigger_type, x.trigger_data, x.run_data = "schedule", {}, {}
    w.conn.insert_running_run(x)
    cli.write(os.path.join(w.var, "runs", "a", x.id, "output.txt"), "so far")


def ev_compress(form):
    def f(w):
        for r in w.runs:
            p = os.path.join(w.var, "runs", r["job"], r["id"], "output.txt")
            if os.path.exists(p):
                with open(p, "rb") as g:
                    data = g.read()
                cli.write(p + "." + form, gzip.compress(data, 1) if form == "gz" else lzma.compress(data, preset=0))
                os.remove(p)
    return f


def ev_compressing(form):
    """what the compressor writes is not complete, what it reads is still there"""
    def f(w):
        for r in w.runs:
            p = os.path.join(w.var, "runs", r["job"], r["id"], "output.txt")
            if os.path.exists(p):
                with open(p, "rb") as g:
                    data = g.read()
                data = gzip.compress(data, 1) if form == "gz" else lzma.compress(data, preset=0)
                cli.write(p + "." + form, data[:len(data) // 2])
    return f


def ev_reader(w):
    """another program looks at everything"""
    d = dsari.database.get_database(w.config)
    d.get_runs()
    d.get_runs(runs_running=True)


EVENTS = {"completes": ev_record("a"), "fails": ev_record("A"), "both": ev_record("b", "a"), "back": ev_record("o"), "removed": ev_record("g"),
          "hidden": ev_record("h"), "starts": ev_start, "gz": ev_compress("gz"), "xz": ev_compress("xz"), "half gz": ev_compressing("gz"), "half xz": ev_compressing("xz"), "reader": ev_reader}
LATER = {"half gz": ev_compress("gz"), "half xz": ev_compress("xz")}
RACES = {"first": ([], ["a", "A", "b"], []), "one more": (["a", "b"], ["A"], []), "nothing new": (["a", "b"], [], []),
         "regenerate": (["a"], ["b"], ["--regenerate"]), "nothing at all": ([], [], [])}


@contextlib.contextmanager
def touches(n):
    """counts what may see or change the file system or start something"""
    names = ("stat", "lstat", "access")
    old = {k: getattr(os, k) for k in names}

    def counted(f):
        def g(*a, **kw):
            n[0] += 1
            return f(*a, **kw)
        return g
    for k in names:
        setattr(os, k, counted(old[k]))
    if not HOOKED:
        sys.addaudithook(lambda ev, args: HOOKED and HOOKED[-1] is not None and ev.split(".")[0] in ("open", "os", "shutil", "subprocess", "sqlite3", "tempfile", "socket", "glob", "pathlib") and count())
        HOOKED.append(None)
    HOOKED.append(n)
    try:
        yield
    finally:
        HOOKED.pop()
        for k in names:
            setattr(os, k, old[k])


HOOKED = []


def count():
    HOOKED[-1][0] += 1


def r04_unit(unit, rec):
    scen, event, variant, every, part, parts = unit
    before, since, args = RACES[scen]
    opts, db, tz = VARIANTS[variant]
    points, ref, touched = None, None, [0]
    while points is None or points:
        k = points.pop(0) if points else None
        w = World(options=opts, db=db)
        for o in before:
            w.record(**OPS[o])
        if before and w.render().rc != 0:
            rec.bad("render fails", "rendering (%s) fails" % scen)
            return
        for o in since:
            w.record(**OPS[o])
        old, fired, done, n, broken, seen = list(w.runs), [], [], [0], [], []
        if db == "sqlite3" and hasattr(w.conn, "db_conn"):
            w.conn.db_conn.execute("PRAGMA busy_timeout=0")

        def trace(frame, ev, arg):
            fn = frame.f_code.co_filename
            if not fn.startswith(HERE):
                return None
            if ev == "line":
                if k is None:
                    look(frame)
                elif n[0] >= k and not done:
                    if not fired:
                        fired.append("%s:%d" % (os.path.basename(fn), frame.f_lineno))
                        seen[:] = listing(w.html)
                    try:
                        EVENTS[event](w)
                        done.append(1)
                    except Exception as e:
                        # while a statement is executed, SQLite has others wait: for a moment, not for the whole rendering
                        w.runs[:] = old
                        if "locked" not in str(e) or listing(w.html) != seen:
                            broken.append(e)
                            done.append(1)
                        else:
                            rec.count("waits")
                            w.conn.db_conn.rollback()
                n[0] += 1
            return trace
        marks, probe, seen_at = [], None, [-1]

        def look(frame):
            """the instants that differ: while a statement is executed, another program only waits for its end"""
            fn = os.path.basename(frame.f_code.co_filename)
            if fn == "config.py":
                return
            if not every:
                # what the renderer does between two looks at anything shared cannot tell when others act
                if touched[0] == seen_at[0] and fn != "database.py":
                    return
                seen_at[0] = touched[0]
            free = True
            if probe is not None:
                try:
                    probe.execute("BEGIN IMMEDIATE")
                    probe.rollback()
                except sqlite3.OperationalError:
                    free = False
            if free or not marks or marks[-1][1]:
                marks.append((n[0], free))
        if k is None and db == "sqlite3":
            probe = sqlite3.connect(os.path.join(w.var, "dsari.sqlite3"), timeout=0, isolation_level=None)
        with touches(touched):
            sys.settrace(trace)
            try:
                x = w.render(*args)
            finally:
                sys.settrace(None)
        rec.step()
        if k is None:
            if probe is not None:
                probe.close()
            points = [m for m, _ in marks][part::parts]
            EVENTS[event](w)
            LATER.get(event, lambda w: None)(w)
            if not ordinary(w, rec, "'%s' after rendering (%s, %s)" % (event, scen, variant)) or not full(w, rec, "%s, %s" % (scen, event)):
                return
            ref = pages(w, w.read())
            rec.count("instants", len(points))
            continue
        if not fired:
            rec.count("not reached")
            continue
        what = "'%s' %s while rendering (%s, %s)" % (event, fired[0], scen, variant)
        rec.state(unit[:3], k)
        if broken or not done:
            rec.bad("blocked", "%s: another program is kept waiting: %r" % (what, broken))
            return
        if x.rc != 0:
            rec.bad("render fails", "%s: rendering fails: %r" % (what, x))
            return
        tree, new, wrong = w.read(), list(w.runs), []
        for runs in (old, new):
            w.runs = runs
            try:
                check_reports(w, tree)
                break
            except (Wrong, KeyError, IndexError, ValueError) as e:
                wrong.append(str(e) if isinstance(e, Wrong) else repr(e))
        w.runs = new
        if len(wrong) > 1:
            rec.bad("torn", "%s: the reports are those of no moment: %s; %s" % (what, wrong[0], wrong[1]))
            return
        # the next one has it all
        LATER.get(event, lambda w: None)(w)
        if not ordinary(w, rec, what):
            return
        have = pages(w, w.tree)
        if have != ref:
            rec.bad("lost", "%s: the next rendering leaves %s unlike a full one" % (what, sorted(p for p in set(ref) | set(have) if have.get(p) != ref.get(p))))
            return
        rec.trace()


def r04(c):
    th = c.tier == "thorough"
    standins.hook_sqlite()
    units = []
    for s in RACES:
        for e in EVENTS:
            for v in [v for v in VARIANTS if v != "templates"] if th else ("plain", "gz", "mysql"):
                if th or v == "plain" or v == "gz" and s == "one more" or (v, s, e) == ("mysql", "one more", "completes"):
                    units += [("r", (s, e, v, th, i, 4)) for i in range(4)]
    tot = sweep.sweep(units, lambda u, r: r04_unit(u[1], r), c.wall(300, 3400), limit=600)
    return sweep.finish(c, tot, "runs of every kind completing, starting, having their output compressed, or being read by another program between any two %s, "
                        "in %d histories" % ("source lines of the renderer" if th else "accesses of the renderer to files or database", len(RACES)), ["one rendering at a time", "events take no time"], units=len(units))


# ------------------------------------------------------------------------------------------------------------ R03
BITS = ["<", ">", "&", '"', "'", "<b>", "</pre>", "</td>", "<script>alert(1)</script>", "<!--", "-->", "]]>", "&lt;", "&#60;", "{{ 7*7 }}", "{% raw %}", "{#",
        " onx=1", "</title>", "<![CDATA[", "\u20ac", "\U0001f600", "\u2028", "\u00a0", "%s", "\\", "a", "<svg/onload=x>", "javascript:x", "&amp;lt;", "`", "=", "\ud800", "&#39;", "&amp;#39;"]
HOSTILE_BYTES = [b"<\xff>", b"\xc3<b>", b"\xe2\x82<", b"\xff\xfe<\x00b\x00", b"\x00<b>", b"\x1b[0m<", b"\xed\xa0\x80<i>", b"\xf0\x9f\x98</pre>", b"\xef\xbb\xbf<b>"]


def strings(th):
    out = [""] + BITS[:]
    out += [a + b for a in BITS for b in BITS] if th else [a + b for a in BITS[:12] for b in BITS[:12]] + ["x" + b + "y" for b in BITS]
    return out + [" ", "  two  spaces ", "x" * 5000, "\n", "a\nb", "\ta", "\u202e<b>"]


PLACES = ["output", "output.gz", "output.xz", "type", "description", "both", "trigger_type", "type list", "description dict", "environment", "return", "key"]


def norm(s):
    """what an HTML parser makes of the text"""
    return s.encode("utf-8", "replace").decode().replace("\r\n", "\n").replace("\r", "\n")


def shape(doc):
    return doc.events


def r03_unit(unit, rec):
    place, texts = unit
    place, gz, _ = place.partition("+")
    for s in texts:
        w = World(options={"report_html_gz": True} if gz else None)
        rec.state(place, gz, s)
        kw = dict(output="safe\n", ttype="file", tdata={})
        ref = dict(kw)

        def put(v, tgt):
            if place.startswith("output"):
                tgt["output"], tgt["form"] = v, place.partition(".")[2] or "plain"
            elif place == "type":
                tgt["tdata"] = {"type": v}
            elif place == "description":
                tgt["tdata"] = {"description": v}
            elif place == "both":
                tgt["tdata"] = {"type": v, "description": v + v}
            elif place == "trigger_type":
                tgt["ttype"] = v
            elif place == "type list":
                tgt["tdata"] = {"type": [v]}
            elif place == "description dict":
                tgt["tdata"] = {"description": {v: v}}
            elif place == "environment":
                tgt["tdata"] = {"environment": {"A": v}}
            elif place == "return":
                tgt["rdata"] = {"x": v, v: 1}
            elif place == "key":
                tgt["tdata"] = {v + "type": "x", v: v}
        put(s, kw)
        put(b"safe" if isinstance(s, bytes) else "safe" if s else s, ref)
        if place == "trigger_type" and (s in ("schedule", "file") or "\ud800" in s):      # chosen by the daemon, not by a user
            continue
        r = w.record("a", **kw)
        r2 = w.record("b 1", **ref)
        x = w.render()
        rec.step()
        what = "%s %.120r" % (place, s)
        try:
            need(x.rc == 0, "rendering fails: %r" % x)
            tree = w.read()
            check_reports(w, tree) if place in ("environment", "return", "key") or not isinstance(s, str) else None
            d, d2 = (check_doc(tree, "%s/%s/index.html" % (q["job"], q["id"]), bool(gz), "the page") for q in (r, r2))
            need(shape(d) == shape(d2), "the markup of the page depends on it:", [e for e in zip(shape(d), shape(d2)) if e[0] != e[1]][:2])
            if place.startswith("output"):
                o = norm(r["output"])
                need(norm(d.pre) in (o, o[1:] if o[:1] == "\n" else o), "output %.200r is shown as %.200r" % (o, d.pre))
            else:
                p = d.pairs(0)
                tt = p["Trigger"][0]
                shown = {"type": s, "both": s, "trigger_type": s, "type list": str([s])}.get(place)
                if shown is not None and (shown or place == "trigger_type"):
                    need(tt.startswith(norm(shown) + " ("), "trigger is shown as %.200r" % tt)
                dd = {"description": s, "both": s + s, "description dict": str({s: s})}.get(place)
                if dd:
                    need(p.get("Description", ("",))[0] == norm(dd), "description is shown as %.200r" % (p.get("Description"),))
            for pth in ("index.html", "a/index.html"):
                check_doc(tree, pth, bool(gz), "the page")
        except (Wrong, KeyError, IndexError, ValueError, AttributeError) as e:
            rec.bad("markup %s" % place, "%s: %s" % (what, e if isinstance(e, Wrong) else repr(e)))
            return
        rec.trace()
    rec.sample(place=place, text=repr(s)[:60])


def r03_output(unit, rec):
    """outputs that are missing or in the way do not prevent other pages"""
    kinds = unit
    w = World()
    for k, kind in enumerate(kinds):
        r = w.record("a" if k % 2 else "b 1", output=None if kind in ("none", "no directory", "directory", "empty gz") else b"\xff\xfe<" if kind == "bytes" else "fine\n")
        d = os.path.join(w.var, "runs", r["job"], r["id"])
        if kind != "no directory":
            os.makedirs(d, exist_ok=True)
        if kind == "directory":
            os.makedirs(os.path.join(d, "output.txt"))
        if kind == "empty gz":
            cli.write(os.path.join(d, "output.txt.gz"), gzip.compress(b""))
    rec.state(kinds)
    if ordinary(w, rec, "outputs %r" % (kinds,)):
        rec.trace()


def r03(c):
    th = c.tier == "thorough"
    units = []
    ss = strings(th)
    for place in PLACES + (["output+gz", "both+gz", "trigger_type+gz"] if not th else [x + "+gz" for x in PLACES]):
        for i in range(0, len(ss), 25):
            units.append(("text", (place, ss[i:i + 25])))
    for place in ("output", "output.gz", "output.xz", "output+gz"):
        units.append(("text", (place, HOSTILE_BYTES + [a + b for a in HOSTILE_BYTES for b in HOSTILE_BYTES[:3]] + [b"\r<b>\r\n", b"<" * 70000 + b"\xe2"])))
    for kinds in itertools.product(["text", "none", "no directory", "directory", "empty gz", "bytes"], repeat=3 if th else 2):
        units.append(("output", kinds))
    fn = {"text": r03_unit, "output": r03_output}
    tot = sweep.sweep(units, lambda u, r: fn[u[0]](u[1], r), c.wall(200, 3400))
    return sweep.finish(c, tot, "every text of up to two of %d hostile fragments in every recorded field and in output in every form; hostile byte strings; every pair of missing or odd outputs" % len(BITS),
                        ["the packaged templates (custom ones are the user's)", "an HTML parser normalises line ends and drops a line end that starts a <pre>"], units=len(units))


def run(c):
    standins.install()
    return {"R01": r01, "R02": r02, "R03": r03, "R04": r04}[c.prop](c)


def replay(prop, path):
    with open(path) as f:
        for v in json.load(f)["violations"]:
            print(v["what"])
    return 1
