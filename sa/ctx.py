"""Shared set-up for the rules: the parsed program and primed interpreters."""
import ast
import multiprocessing
import os
import sys

from .interp import Interp, Client, State, AnchorError
from .loader import Program
from . import terms
from .terms import *

REPO = os.environ.get("SA_REPO", "/repo")

TDF = "ticdatfactory.TicDatFactory"
PDF = "pandatfactory.PanDatFactory"

HINTS = {"tic_dat_factory": TDF, "pan_dat_factory": PDF, "_tdf": TDF, "superself": None}

# predicates about the type of a value: kept as uninterpreted tests
TYPE_TESTS = {"utils.dictish", "utils.containerish", "utils.stringish", "utils.numericish", "utils.lupish",
              "utils.nearly_equal"}

FACTORIES = (TDF, PDF)
TIC_IO = ("csvtd.CsvTicFactory", "jsontd.JsonTicFactory", "xls.XlsTicFactory", "sqlitetd.SQLiteTicFactory",
          "mdb.MdbTicFactory", "pgtd.PostgresTicFactory")
PAN_IO = ("pandatio.CsvPanFactory", "pandatio.JsonPanFactory", "pandatio.XlsPanFactory", "pandatio.SqlPanFactory",
          "pgtd.PostgresPanFactory")


_JOB = None


def _run_job(q):
    sys.setrecursionlimit(20000)
    return _JOB(q)


def _sized(prog):
    """The classes an instance of which may be false: containers, and those that say so themselves."""
    names = {"dict", "list", "set", "tuple", "str", "OrderedDict", "defaultdict"}
    terms.SIZED.clear()
    made = {}                                   # a base that a call makes out of another class
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        made.setdefault(t.id, set()).update(a.id for a in n.value.args if isinstance(a, ast.Name))
    before = -1
    while before != len(terms.SIZED):
        before = len(terms.SIZED)
        for q, ci in prog.classes.items():
            ids = {getattr(b, "id", getattr(b, "attr", None)) for b in ci.bases}
            ids |= {a.id for b in ci.bases if isinstance(b, ast.Call) for a in b.args if isinstance(a, ast.Name)}
            ids |= {a for i in list(ids) for a in made.get(i, ())}
            if ids & names or {"__len__", "__bool__"} & set(ci.methods):
                terms.SIZED.add(q)
                names.add(ci.name)


class Ctx:
    def __init__(self, root=None, tier="quick"):
        self.root = root or REPO
        self.prog = Program(self.root)
        _sized(self.prog)
        self.tier = tier
        self._prime = None

    def _primed(self):
        if self._prime is None:
            ip = Interp(self.prog, hints=HINTS)
            for q in FACTORIES:
                self.prog.cls(q)
                init = self.prog.cls(q).methods.get("__init__")
                if not init:
                    raise AnchorError(f"{q} has no __init__")
                ip.run_entry(init)
            for q in TIC_IO + PAN_IO:
                self.prog.cls(q)
                init = self.prog.cls(q).methods.get("__init__")
                if init:
                    ip.run_entry(init)
            self._prime = ip
        return self._prime

    def interp(self, clients=(), opaque=(), models=None):
        pr = self._primed()
        ip = Interp(self.prog, clients=clients, opaque=set(opaque) | TYPE_TESTS, models=models, hints=HINTS)
        ip.class_attrs = {k: set(v) for k, v in pr.class_attrs.items()}
        ip.class_bases = dict(pr.class_bases)
        ip.acc_env = {k: dict(v) for k, v in pr.acc_env.items()}
        return ip

    def par(self, entries, make, opaque=(), models=None, prepare=None):
        """Interpret every entry (in parallel); `make(entry)` builds a fresh client whose picklable list `out` is
        collected.  Returns ({entry: out}, functions interpreted)."""
        global _JOB
        entries = sorted(set(entries))
        self._primed()

        def job(q):
            c = make(q)
            ip = self.interp([c], opaque, models)
            if prepare:
                prepare(ip, q)
            ip.run_entry(q)
            fin = getattr(c, "finish", None)
            if fin:
                fin(ip)
            return q, list(c.out), set(ip.fns_seen)
        res, seen = {}, set()
        n = min(8, os.cpu_count() or 1, len(entries))
        if n > 1:
            _JOB = job
            big = sorted(entries, key=lambda q: -self._weight(q))
            try:
                with multiprocessing.get_context("fork").Pool(n) as pool:
                    for q, out, s in pool.imap_unordered(_run_job, big, 1):
                        res[q] = out
                        seen |= s
                return res, seen
            except (OSError, ImportError):
                res, seen = {}, set()
        for q in entries:
            _, out, s = job(q)
            res[q] = out
            seen |= s
        return res, seen

    def _weight(self, q):
        fn = self.prog.fns[q]
        w = (getattr(fn.node, "end_lineno", 0) or 0) - getattr(fn.node, "lineno", 0)
        return w + (300 if any(x in q for x in ("obfusimplify", "create_tic_dat", "standard_main", "find_duplicates",
                                                "write_", "clone_rename")) else 0)

    def data_class(self, factory):
        """The class a factory instantiates for data objects (an attribute holding a class defined in the package)."""
        ca = self._primed().class_attrs
        out = []
        for (c, a), vs in ca.items():
            if c == factory:
                out += [v[1] for v in vs if v[0] == "class"]
        if len(out) != 1:
            raise AnchorError(f"cannot identify the data class of {factory}: {out}")
        return out[0]

    def methods(self, cls, public=False, setters=True):
        ci = self.prog.cls(cls)
        out = []
        for n, q in sorted(ci.methods.items()):
            if public and n.startswith("_"):
                continue
            if n.endswith("=setter") and not setters:
                continue
            out.append(q)
        return out

    def public(self, q):
        n = q.split(".")[-1].split("=")[0]
        fn = self.prog.fns[q]
        if fn.cls is not None and fn.cls.name.startswith("_"):
            return False
        return not n.startswith("_") or (n.startswith("__") and n.endswith("__"))

    def mentions(self, q):
        """Every name / attribute / keyword mentioned in a function (nested ones included)."""
        if not hasattr(self, "_mentions"):
            self._mentions = {}
        if q not in self._mentions:
            s = set()
            for n in ast.walk(self.prog.fns[q].node):
                if isinstance(n, ast.Name):
                    s.add(n.id)
                elif isinstance(n, ast.Attribute):
                    s.add(n.attr)
                elif isinstance(n, ast.keyword) and n.arg:
                    s.add(n.arg)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    s.add(n.value)
            self._mentions[q] = s
        return self._mentions[q]

    def touching(self, names, among=None):
        """Entry points from which code mentioning one of `names` can run: the functions that mention one (when public)
        and, for private ones, the functions that (transitively) mention their names."""
        tops = self.top_functions() if among is None else sorted(among)
        names = set(names)
        hit = {q for q in tops if self.mentions(q) & names}
        out, work, done = set(), sorted(hit), set()
        while work:
            q = work.pop()
            if q in done:
                continue
            done.add(q)
            if self.public(q):
                out.add(q)
                continue
            nm = q.split(".")[-1].split("=")[0]
            callers = [p for p in tops if p != q and nm in self.mentions(p)]
            if not callers:
                out.add(q)
            work.extend(callers)
        return sorted(out)

    def top_functions(self):
        return sorted(q for q, f in self.prog.fns.items() if f.parent is None)

    def loc(self, fn, node):
        m = fn.module if fn is not None else "?"
        return f"ticdat/{m}.py:{getattr(node, 'lineno', 0)}"


def site(ev):
    """Stable identification of a construct: the function it is in (no line numbers)."""
    return ev.fn.qual


def chain(t):
    """The location path of a term: list from the outermost location down to its root."""
    out = []
    while True:
        out.append(t)
        k = t[0]
        if k in ("attr", "item", "elem", "getattr"):
            t = t[1]
        elif k == "view":
            t = t[2]
        elif k in ("enumerate", "idx"):
            t = t[1]
        else:
            return out


def chains(t):
    """All location paths of all alternatives of a term."""
    out = []
    for x in alts(t):
        for c in _chains1(x):
            out.append(c)
    return out


def _chains1(x):
    k = x[0]
    if k in ("attr", "item", "elem", "getattr"):
        res = []
        for y in alts(x[1]):
            for c in _chains1(y):
                res.append([x] + c)
        return res
    if k == "view":
        return [[x] + c for y in alts(x[2]) for c in _chains1(y)]
    if k in ("or", "and") and len(x) == 2 and isinstance(x[1], tuple):
        return [[x]] + [c for y in x[1] for z in alts(y) for c in _chains1(z)]
    return [[x]]
