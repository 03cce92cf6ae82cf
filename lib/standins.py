"""Stand-ins for the database drivers that are not installed: psycopg2, MySQLdb, pymongo.

They keep the data in SQLite files (one writer, any readers) or in memory and reproduce what matters to the project:
parameter style, column types, what the servers refuse, time zones, transactions and isolation, default collation.
"""
import sys, types, re, os, json, sqlite3, datetime, copy, uuid, bisect

import vos
import cli

UTC = datetime.timezone.utc
real_dt = vos.real.datetime
SESSION_TZ = datetime.timezone(datetime.timedelta(hours=9))     # of the server
observer = None         # called (what) after every statement sent to a server, at the point others can look


class Error(Exception):
    pass


class ProgrammingError(Error):
    pass


class DataError(Error):
    pass


def _seen(what):
    global observer
    if observer is not None:
        o, observer = observer, None
        try:
            o(what)
        finally:
            observer = o


TYPES = re.compile(r"^\s*(\w+)\s+(.+?)\s*,?\s*$")


def tables(sql):
    """CREATE TABLE t (col type ...) -> name, [(col, type)]"""
    m = re.match(r"\s*CREATE\s+TABLE\s+(?:IF\s+NOT\s+EXISTS\s+)?(\w+)\s*\((.*)\)\s*$", sql, re.S | re.I)
    if not m:
        return None
    cols = []
    depth, item = 0, ""
    for ch in m.group(2) + ",":
        if ch == "," and depth == 0:
            if item.strip():
                a = item.split(None, 1)
                cols.append((a[0].strip('`"'), " ".join(a[1].split())))
            item = ""
            continue
        depth += {"(": 1, ")": -1}.get(ch, 0)
        item += ch
    return m.group(1), cols


class Cursor:
    def __init__(self, conn):
        self.conn, self.rows, self.pos, self.closed = conn, [], 0, False
        self.arraysize, self.rowcount, self.description = 1, -1, None

    def execute(self, sql, params=None):
        if self.closed:
            raise ProgrammingError("cursor closed")
        c = self.conn
        c._alive()
        params = tuple(params) if params is not None and not isinstance(params, dict) else params
        if isinstance(params, dict):
            raise ProgrammingError("only positional parameters are known to the stand-in")
        if re.search(r"\bIN\s*\(\s*\)", sql, re.I):
            raise ProgrammingError("syntax error at or near \")\"")
        n = sql.replace("%%", "").count("%s")
        if params is not None and "%" in sql.replace("%%", "").replace("%s", ""):
            raise ProgrammingError("bad % in statement")
        if "?" in sql:
            raise ProgrammingError("syntax error at or near \"?\"")
        if n != len(params or ()):
            raise ProgrammingError("%d placeholders, %d parameters" % (n, len(params or ())))
        flat = " ".join(sql.split())
        self.rows, self.pos = [], 0
        m = re.search(r"information_schema\.tables.*table_name = '(\w+)'", flat, re.I)
        if m:
            r = c.db.execute("SELECT name FROM sqlite_master WHERE type='table' AND name=?", (m.group(1),)).fetchall()
            self.rows = [c.row(["table_name"], [x[0]]) for x in r]
            _seen(flat)
            return len(self.rows)
        t = tables(flat)
        if t:
            c.create(*t)
            _seen(flat)
            return 0
        out = ""
        for i, part in enumerate(flat.split("%s")):
            out += ("?" if i else "") + part.replace("%%", "%")
        word = flat.split(None, 1)[0].upper()
        table = (re.search(r"\b(?:FROM|INTO|UPDATE)\s+(\w+)", flat, re.I) or [None, None])[1]
        types_ = dict(c.types().get(table, {}))
        if table and not types_:
            raise ProgrammingError("relation \"%s\" does not exist" % table)
        vals = c.adapt(flat, params or (), types_, word)
        c.begin(word)
        try:
            cur = c.db.execute(out, vals)
        except sqlite3.IntegrityError as e:
            raise DataError(str(e))
        except sqlite3.OperationalError as e:
            raise ProgrammingError("%s in %s" % (e, out))
        if cur.description:
            names = [d[0] for d in cur.description]
            self.rows = [c.row(names, [c.fetch(types_.get(k, ""), v) for k, v in zip(names, r)]) for r in cur.fetchall()]
        self.rowcount = len(self.rows) if cur.description else cur.rowcount
        _seen(flat)
        return self.rowcount

    def fetchone(self):
        if self.closed:
            raise ProgrammingError("cursor closed")
        if self.pos < len(self.rows):
            self.pos += 1
            return self.rows[self.pos - 1]
        return None

    def fetchall(self):
        r, self.pos = self.rows[self.pos:], len(self.rows)
        return r

    def fetchmany(self, n=1):
        r, self.pos = self.rows[self.pos:self.pos + n], min(len(self.rows), self.pos + n)
        return r

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Connection:
    snapshot_on_read = False
    clustered = False               # rows are kept, and found, in the order of the primary key

    def __init__(self, path):
        self.path = path
        self.db = _connect(path, isolation_level=None, timeout=0.2)
        self.db.execute("PRAGMA journal_mode=WAL")
        self.db.execute("PRAGMA synchronous=OFF")
        self.db.execute("CREATE TABLE IF NOT EXISTS _types (t text, c text, ty text)")
        self.open, self.intrans, self._types = True, False, None

    def _alive(self):
        if not self.open:
            raise ProgrammingError("connection closed")

    def types(self):
        if not self._types:
            out = {}
            for t, c, ty in self.db.execute("SELECT t, c, ty FROM _types"):
                out.setdefault(t, {})[c] = ty
            self._types = out
        return self._types

    def cursor(self, *a, **k):
        self._alive()
        return Cursor(self)

    def begin(self, word):
        if not self.intrans and (word not in ("SELECT",) or self.snapshot_on_read):
            self.db.execute("BEGIN")
            self.intrans = True

    def commit(self):
        self._alive()
        if self.intrans:
            self.db.execute("COMMIT")
            self.intrans = False
        _seen("COMMIT")

    def rollback(self):
        self._alive()
        if self.intrans:
            self.db.execute("ROLLBACK")
            self.intrans = False

    def close(self):
        if self.open:
            if self.intrans:
                self.db.execute("ROLLBACK")
            self.db.close()
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        self.commit() if t is None else self.rollback()

    def create(self, name, cols):
        defs = []
        for c, ty in cols:
            d = '%s %s' % (c, self.storage(ty))
            if "primary key" in ty.lower():
                d += " PRIMARY KEY"
            if "not null" in ty.lower():
                d += " NOT NULL"
            if self.nocase(ty):
                d += " COLLATE NOCASE"
            defs.append(d)
        self.ddl()
        clustered = self.clustered and any("PRIMARY KEY" in d for d in defs)
        self.db.execute("CREATE TABLE %s (%s)%s" % (name, ", ".join(defs), " WITHOUT ROWID" if clustered else ""))
        for c, ty in cols:
            self.db.execute("INSERT INTO _types VALUES (?, ?, ?)", (name, c, ty))
        self._types = None

    def ddl(self):
        if not self.intrans:
            self.db.execute("BEGIN")
            self.intrans = True

    def storage(self, ty):
        return "INTEGER" if re.match(r"(small|tiny|big)?int", ty, re.I) else "TEXT"

    def nocase(self, ty):
        return False

    def columns(self, sql, n):
        """the column each parameter belongs to"""
        m = re.match(r"\s*INSERT\s+INTO\s+\w+\s*\(([^)]*)\)\s*VALUES\s*\((.*)\)\s*$", sql, re.I)
        if m:
            names = [x.strip() for x in m.group(1).split(",")]
            vals = [x.strip() for x in m.group(2).split(",")]
            if len(names) != len(vals):
                raise ProgrammingError("INSERT has %d columns, %d values" % (len(names), len(vals)))
            return [c for c, v in zip(names, vals) if v == "%s"]
        out = []
        pos = 0
        last = None
        for tok in re.finditer(r"%s|\b(\w+)\s*(?:=|!=|<>|<=|>=|<|>|\bIN\b|\bNOT\s+IN\b)", sql, re.I):
            if tok.group(0) == "%s":
                out.append(last)
            else:
                last = tok.group(1)
        return out

    def adapt(self, sql, params, types_, word):
        cols = self.columns(sql, len(params))
        if len(cols) != len(params):
            cols = [None] * len(params)
        return [self.value(p, types_.get(c, ""), word) for p, c in zip(params, cols)]

    def row(self, names, vals):
        return dict(zip(names, vals))


# ---------------------------------------------------------------- PostgreSQL
class DictRow(list):
    def __init__(self, names, vals):
        list.__init__(self, vals)
        self._n = {k: i for i, k in enumerate(names)}

    def __getitem__(self, k):
        return list.__getitem__(self, self._n[k] if isinstance(k, str) else k)

    def keys(self):
        return iter(self._n)

    def __contains__(self, k):
        return k in self._n

    def get(self, k, d=None):
        return self[k] if k in self._n else d

    def items(self):
        return [(k, self[k]) for k in self._n]


class PgConnection(Connection):
    cursor_factory = None
    autocommit = False

    def row(self, names, vals):
        if self.cursor_factory is None:
            return tuple(vals)
        if self.cursor_factory.__name__ == "RealDictCursor":
            return dict(zip(names, vals))
        return DictRow(names, vals)

    def value(self, v, ty, word):
        ty = ty.lower()
        if v is None or isinstance(v, bool):
            return v
        if isinstance(v, real_dt):
            if ty.startswith("timestamp") or not ty:
                if is_tz(ty):
                    v = v.replace(tzinfo=v.tzinfo or SESSION_TZ).astimezone(UTC).replace(tzinfo=None)
                elif v.tzinfo is not None:
                    v = v.astimezone(SESSION_TZ).replace(tzinfo=None)      # timestamptz to timestamp
                return precise(v, ty, 6).strftime("%Y-%m-%d %H:%M:%S.%f")
            raise ProgrammingError("column is of type %s but expression is of type timestamp" % ty)
        if isinstance(v, str):
            if "\0" in v:
                raise ValueError("A string literal cannot contain NUL (0x00) characters.")
            v.encode("utf-8")
            if ty.startswith("uuid"):
                try:
                    return str(uuid.UUID(v))
                except ValueError:
                    raise DataError("invalid input syntax for type uuid: %r" % v)
            if ty.startswith("timestamp"):
                return real_dt.fromisoformat(v).strftime("%Y-%m-%d %H:%M:%S.%f")
            if ty.startswith("json"):
                def bad(x):
                    raise DataError("invalid input syntax for type json")
                try:
                    json.loads(v, parse_constant=bad)
                except ValueError:
                    raise DataError("invalid input syntax for type json")
            return v
        if isinstance(v, (int, float)):
            if ty.startswith("smallint") and not -32768 <= v <= 32767:
                raise DataError("smallint out of range")
            if ty.startswith(("text", "uuid", "json", "timestamp", "varchar")):
                raise ProgrammingError("column is of type %s but expression is of type numeric" % ty)
            return v
        raise ProgrammingError("can't adapt type %r" % type(v).__name__)

    def fetch(self, ty, v):
        ty = ty.lower()
        if v is None:
            return v
        if ty.startswith("timestamp"):
            v = real_dt.strptime(v, "%Y-%m-%d %H:%M:%S.%f")
            return v.replace(tzinfo=UTC).astimezone(SESSION_TZ) if is_tz(ty) else v
        if ty.startswith("json"):
            return json.loads(v)
        return v


def precise(dt, ty, default):
    """rounded to the declared fractional digits"""
    m = re.match(r"[a-z]+ ?\((\d)\)", ty)
    unit = 10 ** (6 - (int(m.group(1)) if m else default))
    us = dt.microsecond
    return dt + datetime.timedelta(microseconds=(us + unit // 2) // unit * unit - us)


def is_tz(ty):
    return ty.startswith("timestamptz") or "with time zone" in ty


# ---------------------------------------------------------------- MySQL
class MyConnection(Connection):
    snapshot_on_read = True         # REPEATABLE READ
    clustered = True                # InnoDB

    def __init__(self, path, cursorclass=None):
        super().__init__(path)
        self.cursorclass = cursorclass

    def ddl(self):
        if self.intrans:            # implicit commit
            self.db.execute("COMMIT")
            self.intrans = False

    def nocase(self, ty):
        return bool(re.match(r"(var)?char|text", ty, re.I)) and not re.search(r"_bin\b|\bbinary\b", ty, re.I)

    def row(self, names, vals):
        return dict(zip(names, vals)) if self.cursorclass is not None and "Dict" in self.cursorclass.__name__ else tuple(vals)

    def value(self, v, ty, word):
        ty = ty.lower()
        if v is None:
            return v
        if isinstance(v, real_dt):
            return precise(v.replace(tzinfo=None), ty, 0 if ty else 6).strftime("%Y-%m-%d %H:%M:%S.%f")      # the driver ignores the time zone
        if isinstance(v, str):
            m = re.match(r"(?:var)?char\((\d+)\)", ty)
            if m and word != "SELECT" and len(v) > int(m.group(1)):
                raise DataError("Data too long for column")
            if ty.startswith("text") and len(v.encode("utf-8")) > 65535:
                raise DataError("Data too long for column")
            return v
        if isinstance(v, (bool, int, float)):
            if ty.startswith("tinyint") and not (0 <= v <= 255 if "unsigned" in ty else -128 <= v <= 127):
                raise DataError("Out of range value for column")
            return v
        raise ProgrammingError("not all arguments converted: %r" % type(v).__name__)

    def fetch(self, ty, v):
        if v is not None and ty.lower().startswith(("datetime", "timestamp")):
            return real_dt.strptime(v, "%Y-%m-%d %H:%M:%S.%f")
        return v


# ---------------------------------------------------------------- MongoDB
_mongo = {}


def bson(v, top=False):
    if isinstance(v, dict):
        for k in v:
            if not isinstance(k, str):
                raise ProgrammingError("documents must have only string keys, key was %r" % (k,))
            if "\0" in k:
                raise ProgrammingError("key names must not contain the NUL character")
        return {k: bson(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [bson(x) for x in v]
    if isinstance(v, real_dt):
        if v.tzinfo is not None:
            v = v.astimezone(UTC).replace(tzinfo=None)
        return real_dt(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond // 1000 * 1000)
    if isinstance(v, bool) or v is None or isinstance(v, (float, bytes)):
        return v
    if isinstance(v, int):
        if not -2 ** 63 <= v < 2 ** 63:
            raise OverflowError("MongoDB can only handle up to 8-byte ints")
        return v
    if isinstance(v, str):
        v.encode("utf-8")
        return v
    raise ProgrammingError("cannot encode object: %r" % (v,))


def mmatch(d, q):
    for k, c in q.items():
        if k == "$or":
            if not any(mmatch(d, x) for x in c):
                return False
            continue
        if k == "$and":
            if not all(mmatch(d, x) for x in c):
                return False
            continue
        v = d.get(k)
        if isinstance(c, dict) and any(x.startswith("$") for x in c):
            for op, x in c.items():
                x = bson(x)
                ok = {"$in": lambda: v in x, "$nin": lambda: v not in x, "$ne": lambda: v != x, "$eq": lambda: v == x,
                      "$exists": lambda: (k in d) == bool(x), "$gt": lambda: v is not None and v > x, "$gte": lambda: v is not None and v >= x,
                      "$lt": lambda: v is not None and v < x, "$lte": lambda: v is not None and v <= x}
                if op in ("$in", "$nin") and not isinstance(c[op], (list, tuple)):
                    raise ProgrammingError("%s needs an array" % op)
                if not ok[op]():
                    return False
        elif v != bson(c):
            return False
    return True


class MCursor:
    def __init__(self, docs):
        self.docs, self.lim, self.sk = docs, 0, 0

    def sort(self, key, direction=1):
        keys = [(key, direction)] if isinstance(key, str) else list(key)
        for k, d in reversed(keys):
            self.docs.sort(key=lambda x: (x.get(k) is not None, x.get(k) if x.get(k) is not None else 0), reverse=d == -1)
        return self

    def limit(self, n):
        self.lim = n
        return self

    def skip(self, n):
        self.sk = n
        return self

    def _all(self):
        d = self.docs[self.sk:]
        return copy.deepcopy(d[:abs(self.lim)] if self.lim else d)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._all()[i]
        d = self._all()
        if i >= len(d):
            raise IndexError("no such item for Cursor instance")
        return d[i]

    def __iter__(self):
        return iter(self._all())

    def next(self):
        d = self._all()
        if not d:
            raise StopIteration
        self.sk += 1
        return d[0]

    __next__ = next

    def close(self):
        pass


class Coll:
    def __init__(self, store):
        self.s = store

    def insert_one(self, d):
        doc = bson(d)
        doc.setdefault("_id", "oid%d" % len(self.s["ids"]))
        self.s["ids"].append(1)
        d.setdefault("_id", doc["_id"])
        self.s["docs"].append(doc)
        _seen("insert_one")

    def insert_many(self, ds):
        for d in ds:
            self.insert_one(d)

    def _del(self, q, n):
        keep, gone = [], 0
        for d in self.s["docs"]:
            if mmatch(d, q) and (n == 0 or gone < n):
                gone += 1
            else:
                keep.append(d)
        self.s["docs"][:] = keep
        _seen("delete")

    def delete_many(self, q):
        self._del(q, 0)

    def delete_one(self, q):
        self._del(q, 1)

    def find(self, q=None, projection=None, sort=None, limit=0):
        c = MCursor([d for d in self.s["docs"] if mmatch(d, q or {})])
        if sort:
            c.sort(sort)
        _seen("find")
        return c.limit(limit)

    def find_one(self, q=None, sort=None):
        for d in self.find(q, sort=sort):
            return d
        return None

    def replace_one(self, q, doc, upsert=False):
        for i, d in enumerate(self.s["docs"]):
            if mmatch(d, q):
                self.s["docs"][i] = dict(bson(doc), _id=d["_id"])
                _seen("replace_one")
                return
        if upsert:
            self.insert_one(dict(doc))

    def update_one(self, q, u, upsert=False):
        for d in self.s["docs"]:
            if mmatch(d, q):
                d.update(bson(u.get("$set", {})))
                _seen("update_one")
                return

    def count_documents(self, q):
        return len([d for d in self.s["docs"] if mmatch(d, q)])

    def create_index(self, *a, **k):
        return "i"

    ensure_index = create_index


class MDb:
    def __init__(self, store):
        self._s = store

    def __getitem__(self, n):
        return Coll(self._s.setdefault(n, {"docs": [], "ids": []}))

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return self[n]


class MongoClient:
    def __init__(self, uri=None, **kw):
        self._s = _mongo.setdefault(uri, {})

    def __getitem__(self, n):
        return MDb(self._s.setdefault(n, {}))

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return self[n]

    def close(self):
        pass


class HookCursor(sqlite3.Cursor):
    def execute(self, *a):
        r = super().execute(*a)
        _seen("execute")
        return r


class HookConnection(sqlite3.Connection):
    def cursor(self, factory=HookCursor):
        return super().cursor(factory)

    def execute(self, *a):
        return self.cursor().execute(*a)

    def commit(self):
        super().commit()
        _seen("COMMIT")


_connect = sqlite3.connect


def hook_sqlite():
    """report the statements of the program's own SQLite connections to the observer, too"""
    def connect(*a, **k):
        k.setdefault("factory", HookConnection)
        return _connect(*a, **k)
    sqlite3.connect = connect


def install():
    pg = types.ModuleType("psycopg2")
    ex = types.ModuleType("psycopg2.extras")
    pg.extras = ex
    pg.Error, pg.ProgrammingError, pg.DataError = Error, ProgrammingError, DataError
    ex.DictCursor = type("DictCursor", (), {})
    ex.RealDictCursor = type("RealDictCursor", (), {})

    def connect(dsn=None, cursor_factory=None, **k):
        if not isinstance(dsn, str):
            raise ProgrammingError("dsn")
        c = PgConnection(dsn.split("dbname=")[1])
        if cursor_factory is not None:
            c.cursor_factory = cursor_factory
        return c
    pg.connect = connect
    my = types.ModuleType("MySQLdb")
    mc = types.ModuleType("MySQLdb.cursors")
    my.cursors = mc
    my.Error, my.ProgrammingError, my.DataError = Error, ProgrammingError, DataError
    mc.DictCursor = type("DictCursor", (), {})
    mc.Cursor = type("Cursor", (), {})

    def myconnect(host=None, user=None, passwd=None, db=None, cursorclass=None, **k):
        return MyConnection(db, cursorclass)
    my.connect = myconnect
    mo = types.ModuleType("pymongo")
    mo.MongoClient, mo.ASCENDING, mo.DESCENDING = MongoClient, 1, -1
    for m in (pg, ex, my, mc, mo):
        sys.modules[m.__name__] = m


def settings(kind, where):
    """the database option for a backend stored at `where`"""
    if kind == "sqlite3":
        return {"type": "sqlite3", "file": where}
    if kind == "postgresql":
        return {"type": "postgresql", "dsn": "host=h dbname=" + where}
    if kind == "mysql":
        return {"type": "mysql", "connection": {"host": "h", "user": "u", "passwd": "p", "db": where}}
    return {"type": "mongodb", "uri": "mongodb://" + where, "database": "d"}


def drop(kind, where):
    if kind == "mongodb":
        _mongo.pop("mongodb://" + where, None)
    else:
        for x in ("", "-wal", "-shm", "-journal"):
            try:
                os.remove(where + x)
            except FileNotFoundError:
                pass


def clone(kind, src, dst):
    """copy a quiescent database"""
    drop(kind, dst)
    if kind == "mongodb":
        if "mongodb://" + src in _mongo:
            _mongo["mongodb://" + dst] = copy.deepcopy(_mongo["mongodb://" + src])
    else:
        a, b = _connect(src), _connect(dst)
        a.backup(b)
        a.close()
        b.close()
