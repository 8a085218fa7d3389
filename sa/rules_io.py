"""C07 / C08: what the writers check before they touch a file or a database."""
import re

from . import terms as T
from .ctx import *

from .rules_verdict import verdicts

GOOD = {TDF + ".good_tic_dat_object", PDF + ".good_pan_dat_object"}
PROBES = {"exists", "lexists", "isfile"}
PASS_THROUGH = {"os.path.abspath", "os.path.realpath", "os.path.normpath", "os.path.expanduser", "str", "os.fspath",
                "pathlib.Path"}
DESTROY = {"delete", "drop", "update", "alter", "truncate", "replace"}
HARMLESS = {"select", "pragma", "create", "with", "begin", "commit", "explain"}
EXECUTE = {"execute", "executemany", "executescript", "execute_values", "execute_batch", "copy_from", "copy_expert",
           "read_sql", "read_sql_query"}
SAVERS = {"save", "to_csv", "to_json", "to_excel", "to_sql", "to_pickle", "to_hdf", "to_feather", "to_parquet",
          "write_text", "write_bytes"}
STREAM = {"write", "writerow", "writerows", "writeheader", "writelines"}
OS_SINKS = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.truncate", "os.rmdir", "os.open", "os.removedirs",
            "os.link", "os.symlink", "shutil.copy", "shutil.copy2", "shutil.copyfile", "shutil.move", "shutil.rmtree",
            "shutil.copytree"}
OPENERS = {"open", "io.open", "codecs.open", "gzip.open", "bz2.open"}
READ_ONLY = re.compile(r"(^|\.)(connect|create_engine|len|isinstance|print|repr|open_workbook|load_workbook|read_\w+|"
                       r"ExcelFile|load|loads|hasattr|getattr|type|join|basename|dirname|splitext|isdir|stat|getsize|"
                       r"access|islink|format|Path|resource_stream)$")


def head(t):
    """First word of an SQL statement term, lower case, or None when not known."""
    if t[0] == "const" and isinstance(t[1], str):
        m = re.match(r"\s*(\w+)(?:\s+or\s+(\w+))?", t[1].lower())
        if not m:
            return None
        return {m.group(2) or m.group(1)}
    if t[0] == "fstr" and t[1]:
        return head(t[1][0])
    if t[0] == "join":
        return head(t[2])
    if t[0] == "call" and t[1].split(".")[-1] in ("text", "SQL") and t[2]:
        return head(t[2][0])
    if t[0] == "op" and t[2]:
        return head(t[2][0])
    if t[0] in ("method",) and t[2] in ("format", "strip", "replace"):
        return head(t[1])
    if t[0] in ("union", "ifexp", "or", "and", "choice"):
        out = set()
        for x in alts(t):
            h = head(x)
            if h is None:
                return None
            out |= h
        return out
    return None


def norm(p):
    while p[0] == "call" and p[1] in PASS_THROUGH and p[2]:
        p = p[2][0]
    return p


def probe(t):
    """The path a file-existence test is about."""
    if t[0] == "call" and isinstance(t[1], str) and t[1].split(".")[-1] in PROBES and t[2]:
        return norm(t[2][0])
    if t[0] == "method" and t[2] in ("exists", "is_file"):
        return norm(t[1])
    return None


def call_name(ev):
    """dotted name of the callee of a call event that leaves the package: ('f', name) or ('m', method, receiver)"""
    if ev.data.get("qual") is not None:
        return None
    t = ev.target
    if t[0] == "attr":
        return ("m", t[2], t[1])
    if t[0] in ("extern", "builtin"):
        return ("f", t[1], None)
    return ("f", fmt(t), None)


def file_sinks(ev, isin):
    """paths an event would create or overwrite (list of terms), [] when it is no file effect"""
    nm = call_name(ev)
    if nm is None:
        return []
    args = list(ev.args)
    kw = ev.kwargs
    kind, name, recv = nm
    if kind == "f":
        if ev.data.get("builtin") and name != "open":
            return []
        if name in OPENERS:
            mode = args[1] if len(args) > 1 else kw.get("mode")
            if mode is None or (mode[0] == "const" and not set(str(mode[1])) & set("wax+")):
                return []
            return args[:1] or [kw[k] for k in kw if k in ("file", "filename")]
        if name in OS_SINKS:
            return args[-1:] if name.startswith("shutil") and "rmtree" not in name else args
        if name.startswith("os.path.") or READ_ONLY.search(name) or name in ("os.mkdir", "os.makedirs", "os.listdir"):
            return []
        return [a for a in args + list(kw.values()) if isin(norm(a))]
    if name in SAVERS:
        ps = [a for a in args[:1] + [kw[k] for k in sorted(kw) if "path" in k or k in ("fname", "filename")]]
        return ps
    if name in ("unlink", "rename", "replace", "open") and isin(norm(recv)):
        if name == "open" and not (args and args[0][0] == "const" and set(str(args[0][1])) & set("wax+")):
            return []
        return [recv]
    return []


def sql_stmt(ev):
    nm = call_name(ev)
    if nm is None:
        return None
    name = nm[1].split(".")[-1]
    if name not in EXECUTE:
        return None
    args = list(ev.args)
    if name in ("execute_values", "execute_batch"):
        args = args[1:]
    return args[0] if args else ev.kwargs.get("sql", UNKNOWN)


class Overwrites(Client):
    """C07: every file or row destroying effect of one writer, with what is known there."""

    def __init__(self, ctx, q):
        self.ctx, self.q, self.out = ctx, q, []
        self.A = ("param", q, "allow_overwrite")
        self.roots = {("param", q, p) for p in ctx.prog.fns[q].params if p != "allow_overwrite"}

    def isin(self, p):
        return p[0] == "param" and p in self.roots and "path" in p[2] or \
            (p[0] == "call" and p[1] == "os.path.join" and bool(p[2]) and p[2][0] in self.roots)

    def event(self, ev, ip):
        if ev.kind != "call":
            return
        loc = f"{ev.fn.qual}"
        self.heap = ev.st.heap
        for p in file_sinks(ev, self.isin):
            for x in alts(norm(p)):
                x = norm(x)
                if x[0] in ("new", "inst", "unknown") or (x[0] == "call" and "StringIO" in str(x[1])):
                    continue
                ok = False
                for c in ev.facts:
                    if all(l == (self.A, True) or (not l[1] and probe(l[0]) == x) for l in c):
                        ok = True
                self.out.append(("file", loc, self.ctx.loc(ev.fn, ev.node), fmt(x)[:100], ok, call_name(ev)[1]))
        s = sql_stmt(ev)
        if s is not None:
            h = head(s)
            if h is not None and h <= HARMLESS:
                if "select" in h and over_tables(s):
                    return [("queried", y) for y in {call_name(ev)[2], *alts(call_name(ev)[2])}]
                return
            if h is not None and h & DESTROY:
                el = [x for x in walk(s) if isinstance(x, tuple) and len(x) > 1 and x[0] == "elem"]
                ok = any(all(l == (self.A, True) or self.about_rows(l, ev.may, el[0] if el else None) for l in c)
                         for c in ev.facts)
                kind = "destroy"
            else:
                ok, kind = False, "insert"
                for c in ev.facts:
                    if all(l == (self.A, True) or self.about_rows(l, ev.may) for l in c):
                        ok = True
            self.out.append((kind, loc, self.ctx.loc(ev.fn, ev.node), fmt(s)[:100], ok, "execute"))

    def about_rows(self, l, may, table=None):
        """the literal says that a query over every table came back empty"""
        t, pol = l
        if t[0] == "any":
            return not pol and len(t) > 3 and T._truth_const(t[1]) is True and not t[2] and t[3][0] == "over" and \
                self.rows(t[3][1], may, table)
        if self.rows(t, may, table):
            return not pol
        counts = "count(" in repr(t).lower()
        if t[0] != "cmp" and not (counts and not pol):
            return False
        if any(isinstance(x, tuple) and x and x[0] == "elem" and self.rows(x[1], may, table) for x in walk(t)):
            return False                # something about what the rows hold, not whether there are any
        for x in walk(t):
            if isinstance(x, tuple) and len(x) > 3 and x[0] == "method" and self.rows(x, may, table):
                return True
        return False

    def rows(self, x, may, table):
        """all the rows of a table, as a query gives them"""
        if x[0] in ("union", "ifexp", "choice"):
            ys = list(alts(x))
            return ys != [x] and all(self.rows(y, may, table) for y in ys)
        while x[0] == "call" and x[1] in ("list", "tuple", "len", "bool", "iter", "set") and len(x[2]) == 1:
            x = x[2][0]
        if x[0] == "new":
            c = self.heap.get(x)
            return c is not None and bool(c.elems) and not c.conds and \
                all(e[0] == "elem" and self.rows(e[1], may, table) for e in c.elems)
        if len(x) < 4 or x[0] != "method":
            return False
        if x[2] in EXECUTE:
            return bool(x[3]) and over_tables(x[3][0]) and (table is None or table in list(walk(x[3][0])))
        if x[2] == "fetchmany" and x[3] and (x[3][0][0] != "const" or not x[3][0][1]):
            return False
        if x[2].startswith("fetch"):
            return ("queried", x[1]) in may or self.rows(x[1], may, table)
        return False


def over_tables(t):
    """does the statement pick all the rows, of each of the tables in turn?"""
    text = [x[1].lower() for x in walk(t) if isinstance(x, tuple) and len(x) > 1 and x[0] == "const" and isinstance(x[1], str)]
    if any(re.search(r"\b(where|limit|having|offset|top|join)\b", x) for x in text):
        return False
    el = [x for x in walk(t) if isinstance(x, tuple) and len(x) > 1 and x[0] == "elem"]
    return any(_plain(x[1]) for x in el)


def _plain(t):
    while t[0] in ("call", "view") and len(t) > 2 and (t[0] == "view" or t[1] in ("sorted", "list", "tuple", "set", "reversed")):
        t = t[2] if t[0] == "view" else t[2][0] if t[2] else UNKNOWN
    if t[0] == "method" and t[2] == "_ordered_tables" or t[0] == "new":
        return True
    return t[0] == "attr" and t[2] == "all_tables"


def _writers(ctx, classes, pred):
    out = []
    for cls in classes:
        for n, q in ctx.prog.cls(cls).methods.items():
            if not n.startswith("_") and pred(n, ctx.prog.fns[q]):
                out.append(q)
    return out


def C07(ctx, rep):
    rep.rule("file", "a call that would create or replace a file is reached only where 'allow_overwrite, or this very file "
             "does not exist' is known")
    rep.rule("destroy", "an SQL statement that deletes or changes rows is reached only where allow_overwrite is known")
    rep.rule("insert", "rows are inserted only where 'allow_overwrite, or every table came back empty from a query' is known")
    entries = _writers(ctx, TIC_IO, lambda n, f: "allow_overwrite" in f.params)
    if len(entries) < 6:
        raise AnchorError(f"only {len(entries)} writers take allow_overwrite: {entries}")
    res, seen = ctx.par(entries, lambda q: Overwrites(ctx, q))
    rep.fns |= seen
    for q, out in sorted(res.items()):
        if not out:
            raise AnchorError(f"no file or database effect seen in {q}")
        for kind, loc, where, what, ok, fn in out:
            rep.ob(kind, f"{where} ({q})", ok, key=f"{q}:{loc}:{fn}:{what[:40]}",
                   what=f"{q} reaches {fn}({what}) without allow_overwrite or a check that nothing is there")


class Unvalidated(Client):
    """C08: every external effect of a writer, and whether the object was found good before."""

    def __init__(self, ctx, q):
        self.ctx, self.q, self.out = ctx, q, []
        ps = ctx.prog.fns[q].params
        self.dat = [("param", q, p) for p in ps if p in ("tic_dat", "pan_dat")][0]

    def event(self, ev, ip):
        if ev.kind != "call":
            return
        nm = call_name(ev)
        if nm is None:
            return
        name = nm[1]
        sink = bool(file_sinks(ev, lambda p: p[0] == "param" and p[1] == self.q and "path" in p[2]))
        if nm[0] == "m" and (name in STREAM or name in SAVERS):
            sink = nm[2][0] not in ("param",) or name in SAVERS
        if nm[0] == "f" and name in ("os.mkdir", "os.makedirs", "json.dump"):
            sink = True
        if nm[0] == "f" and name.split(".")[-1] in ("Workbook", "ExcelWriter") and ev.args:
            sink = True
        s = sql_stmt(ev)
        if s is not None:
            h = head(s)
            sink = h is None or not h <= (HARMLESS - {"create"})
        if name in ("to_json", "to_csv") and not any(True for a in ev.args):
            sink = sink and "path_or_buf" in ev.kwargs
        if not sink:
            return
        ok = False
        for c in ev.facts:
            if len(c) == 1:
                (t, pol), = c
                if pol and t[0] == "call" and t[1] in GOOD and len(t[2]) > 1 and t[2][1] == self.dat and \
                        all(r[0] not in ("inst", "new", "call", "method") for r in alts(t[2][0])) and \
                        all(x == ("const", "strict") for x in t[2][3:]) and \
                        dict(t[3]).get("row_checking", ("const", "strict")) == ("const", "strict"):    # its own factory
                    ok = True
        self.out.append((ev.fn.qual, self.ctx.loc(ev.fn, ev.node), name.split(".")[-1], ok))


def C08(ctx, rep):
    rep.rule("validated", "every file or database effect of a writer is reached only where the schema check of the object "
             "being written is known to have succeeded")
    entries = _writers(ctx, TIC_IO + PAN_IO, lambda n, f: n.startswith("write") and {"tic_dat", "pan_dat"} & set(f.params))
    if len(entries) < 13:
        raise AnchorError(f"only {len(entries)} writers found: {entries}")
    for g in GOOD:
        ctx.prog.fn(g)
    res, seen = ctx.par(entries, lambda q: Unvalidated(ctx, q), opaque=GOOD)
    rep.fns |= seen
    for q, out in sorted(res.items()):
        if not out:
            raise AnchorError(f"no file or database effect seen in {q}")
        for fq, where, name, ok in out:
            rep.ob("validated", f"{where} {name} ({q})", ok, key=f"{q}:{fq}:{name}",
                   what=f"{q} reaches {name} before the object was checked against the schema")
    verdicts(ctx, rep, TDF + ".good_tic_dat_object", PDF + ".good_pan_dat_object")
