"""C18: statements are built from names and placeholders, never from raw data.  C28: reading writes nothing."""
import re

from . import terms as T
from .ctx import *
from .rules_cells import PR, PW, R, W, Leaves, adj_model, is_data
from .rules_inf import RAISE, A, Domain, kind, re_names
from .rules_io import EXECUTE, GOOD, HARMLESS, SAVERS, call_name, file_sinks, head, sql_stmt

SQL_CLASSES = ("sqlitetd.SQLiteTicFactory", "mdb.MdbTicFactory", "pgtd.PostgresTicFactory", "pgtd.PostgresPanFactory",
               "pandatio.SqlPanFactory")


def _stringish(y, st):
    """is y known to be (True) / not to be (False) a string here; None when not known"""
    for c in st.facts:
        if len(c) == 1:
            (t, pol), = c
            if t[0] == "call" and t[1] == "utils.stringish" and t[2] and t[2][0] == y:
                return pol
            if t[0] == "call" and t[1] == "isinstance" and t[2][0] == y and "str" in fmt(t[2][1]) and \
                    "date" not in fmt(t[2][1]):
                return pol
            if pol and t[0] == "call" and t[1] == "utils.numericish" and t[2] and t[2][0] == y:
                return False
    return None


def _date_excluded(y, st):
    for c in st.facts:
        if len(c) == 1:
            (t, pol), = c
            if not pol and t[0] == "call" and t[1] == "isinstance" and t[2][0] == y and \
                    any(x[:2] == ("extern", "datetime.date") for x in walk(t[2][1]) if isinstance(x, tuple) and x):
                return True
            if pol and t[0] == "call" and t[1] == "utils.numericish" and t[2] and t[2][0] == y:
                return True
    return False


def literal(v, st):
    """refine hook: a data value turned into the text of an SQL literal becomes an opaque ('lit', problem) token"""
    if v[0] == "call" and v[1] in ("str", "repr", "format") and len(v[2]) == 1:
        y = v[2][0]
        if any(x[0] == "adj" for x in alts(y)):
            if _stringish(y, st) is not False:
                return ("lit", "text that may be a string is written without quotes")
            if not _date_excluded(y, st):
                return ("lit", "a date is written without quotes")
            return ("lit", "")
    if v[0] == "fstr":
        raw = [p for p in v[1] if any(x[0] == "adj" for x in alts(p))]
        if raw:
            i = v[1].index(raw[0])
            q = 0 < i < len(v[1]) - 1 and v[1][i - 1][0] == "const" and str(v[1][i - 1][1]).endswith("'") and \
                v[1][i + 1][0] == "const" and str(v[1][i + 1][1]).startswith("'")
            known = _stringish(raw[0], st)
            if known is False and q:
                return ("lit", "")
            return ("lit", "string text is not escaped" if known is not False else "a value is written without quotes")
        n = [p for p in v[1] if any(isinstance(x, tuple) and x and x[0] == "adj" for x in walk(p))]
        if len(n) == 1 and len(v[1]) == 3 and v[1][0] == v[1][2] == const("'"):
            return ("lit", "")            # quoted text built from the characters of the value
    return v


class Literals(Leaves):
    """Leaves, and the tokens for literals"""

    def __init__(self, *a):
        super().__init__(*a)
        self.lits = []

    def visit(self, t, depth=0):
        if t[0] == "lit":
            self.lits.append(t)
            return
        if t[0] == "fstr" and len(t[1]) == 3 and t[1][0] == const("'") and t[1][2] == const("'") and \
                t[1][1][0] in ("join", "method"):
            return
        super().visit(t, depth)


def sequences(t, st, depth=0):
    """statement text as lists of parts: every alternative, every joined element on its own"""
    k = t[0]
    if depth > 12:
        return []
    if k in ("union", "or", "and", "ifexp", "choice"):
        return [s for x in alts(t) for s in sequences(x, st, depth + 1)]
    if k == "fstr":
        seqs, out = [[]], []
        for p in t[1]:
            if p[0] in ("const", "lit", "adj"):
                for s in seqs:
                    s.append(p)
                continue
            sub = sequences(p, st, depth + 1)
            if p[0] in ("fstr", "union", "ifexp", "choice") and len(sub) * len(seqs) <= 40:
                seqs = [a + b for a in seqs for b in (sub or [[p]])]
            elif p[0] in ("join",):
                out += sub
                for s in seqs:
                    s.append(("joined",))
            else:
                out += [x for x in sub if x != [p]]
                for s in seqs:
                    s.append(p)
        return out + seqs
    if k == "join":
        return sequences(t[2], st, depth + 1)
    if k == "elem" and t[1][0] == "new" and t[1][1] in ("dict", "defaultdict", "collections.defaultdict"):
        c = st.heap.get(t[1])
        return [s for x, _ in (c.items if c is not None else ()) for s in sequences(x, st, depth + 1)]
    if k == "new":
        c = st.heap.get(t)
        return [s for x in (c.exact or c.elems) for s in sequences(x, st, depth + 1)] if c is not None else []
    if k == "op" and t[1] in ("+", "%", "*"):
        return [s for x in t[2] if isinstance(x, tuple) for s in sequences(x, st, depth + 1)]
    if k == "call" and str(t[1]).split(".")[-1] in ("text", "SQL", "list", "tuple", "map", "sorted", "reversed") and t[2]:
        return [s for x in t[2][-1:] for s in sequences(x, st, depth + 1)]
    if k == "tuple":
        return [s for x in t[1:] for s in sequences(x, st, depth + 1)]
    return [[t]]


def fieldish(t, dat=None):
    """names of fields: elements of the schema's field lists, or keys of a row"""
    for c in chains(t):
        if len(c) > 2 and c[0][0] == "elem" and c[-1][0] == "op" and c[-1][1] == "zip*":
            return True                        # native / foreign fields of a foreign key mapping
        for i, x in enumerate(c):
            if x[0] == "attr" and x[2] in ("primary_key_fields", "data_fields") and i >= 2:
                return True
            if x[0] == "getattr" and i >= 2 and c[0][0] == "elem" and dat is not None and is_data(x[1], *dat):
                return True
    return False


def tableish(t):
    for c in chains(t):
        if len(c) > 1 and c[0][0] in ("elem", "idx") and c[1][0] == "attr" and c[1][2] == "all_tables":
            return True
    return False


def table_place(seq, i):
    """does the statement expect the name of a table here?"""
    return i > 0 and seq[i - 1][0] == "const" and seq[i][0] != "const" and \
        re.search(r"\b(from|into|update|table|references|join)\s*\[?$|\btable_info\(\[?$", str(seq[i - 1][1]).lower()) is not None


def run_handed_out(ev, ip, dcls):
    """generator functions handed to the data class run later: interpret them where they are handed over"""
    if ev.target[0] != "class" or ev.target[1] not in dcls:
        return
    vals = list(ev.args) + list(ev.kwargs.values())
    c = ev.st.heap.get(ev.dstar) if ev.dstar is not None else None
    if c is not None:
        vals += [v for _, v in c.items]
    done = set()
    for v in vals:
        for x in alts(v):
            if x[0] == "func" and x not in done:
                done.add(x)
                ip.call_fn(x[1], x[2], None, [], {}, ev.st.copy(), ip.prog.fns[x[1]].node)


class Statements(Client):
    def __init__(self, ctx, q, dcls):
        self.ctx, self.q, self.dcls, self.out = ctx, q, dcls, []
        ps = ctx.prog.fns[q].params
        self.dat = {("param", q, p) for p in ps if p in ("tic_dat", "pan_dat")}
        self.brackets = q.split(".")[0] in ("sqlitetd", "pandatio", "mdb")

    def add(self, rule, ev, ok, what):
        self.out.append((rule, ev.fn.qual, self.ctx.loc(ev.fn, ev.node), ok, what))

    def event(self, ev, ip):
        if ev.kind == "called" and len(ev.args) == 1 and not ev.kwargs and \
                any(isinstance(x, tuple) and x and x[0] == "lit" for x in walk(ev.value)):
            self.out.append(("formatter", ev.qual, "", True, ""))
        if ev.kind != "call":
            return
        run_handed_out(ev, ip, self.dcls)
        s = sql_stmt(ev)
        nm = call_name(ev)
        if nm is not None and nm[0] == "m" and nm[1].split(".")[-1] == "to_sql" and self.q.split(".")[0] == "pgtd":
            self.add("quoted-name", ev, ("pgnames",) in ev.st.must,
                     "the columns written are not given the names the conversion of field names makes")
        if nm is not None and nm[1].split(".")[-1] == "rename" or ev.target == ("builtin", "setattr"):
            c = ev.kwargs.get("columns")
            h = ev.st.heap.get(c) if c is not None else None
            if h is not None and h.items and all(v == PGNAME and fieldish(k, (self.dat, self.dcls)) for k, v in h.items):
                ev.st.must = ev.st.must | {("pgnames",)}
        if s is not None:
            lv = Leaves(ip, ev.st, self.dat, self.dcls, True)
            for x in sequences(s, ev.st):
                for y in x:
                    lv.visit(y)
            bad = "a data value is part of the statement text" if lv.adj or lv.raw else ""
            if any(isinstance(x, tuple) and x and x[0] == "lit" for x in walk(s)):
                bad = "a data value is part of the statement text"
            self.add("bound", ev, not bad, bad)
            if any(isinstance(x, tuple) and len(x) > 2 and x[0] == "method" and x[2] in ("split", "splitlines", "partition")
                   and any(isinstance(y, tuple) and len(y) > 2 and y[0] == "method" and y[2] in ("read", "read_text")
                           for y in walk(x[1])) for x in walk(s)):
                self.add("whole-script", ev, False, "the text of a script is split up before it is run")
            elif any(isinstance(y, tuple) and len(y) > 2 and y[0] == "method" and y[2] in ("read", "read_text")
                     for y in walk(s)):
                self.add("whole-script", ev, True, "")
            self.names(ev, s)
        elif nm is not None and nm[0] == "m" and nm[1] in ("write", "writelines") and len(ev.args) == 1 and \
                "sql" in self.q.split(".")[0]:
            lv = Literals(ip, ev.st, self.dat, self.dcls, True)
            seqs = sequences(ev.args[0], ev.st)
            for x in seqs:
                for y in x:
                    lv.visit(y)
            bad = [l[1] for l in lv.lits if l[1]]
            if lv.adj or lv.raw:
                bad.append("a data value is written into the script without being turned into a literal")
            for b in bad:
                self.add("literal", ev, False, b)
            if lv.lits and not bad:
                self.add("literal", ev, True, "")
            self.names(ev, ev.args[0])

    def names(self, ev, s):
        for seq in sequences(s, ev.st):
            for i, p in enumerate(seq):
                for x in alts(p):
                    f, t = fieldish(x, (self.dat, self.dcls)), tableish(x) or table_place(seq, i)
                    if not (f or t) or x[0] == "call":
                        continue
                    if self.brackets:
                        if t and self.q.startswith("mdb"):
                            continue
                        ok = 0 < i < len(seq) - 1 and seq[i - 1][0] == seq[i + 1][0] == "const" and \
                            str(seq[i - 1][1]).endswith("[") and str(seq[i + 1][1]).startswith("]")
                        self.add("quoted-name", ev, ok, f"the name {fmt(x)[:80]} is not in brackets")
                    elif f:
                        self.add("quoted-name", ev, False, f"the field name {fmt(x)[:80]} is not turned into a database name")


def pgn(ip, q, recv, args, kwargs, st, node, star, dstar):
    return PGNAME


PGNAME = ("call", "pgname", (), ())
KINDS = {"mid": "a number", "pinf": "infinity", "ninf": "-infinity", "nan": "NaN", "none": "None", "txt": "a string",
         "date": "a date", "datetime": "a date with a time", "timedelta": "a time span"}
TIMES = {"date": {"date"}, "datetime": {"date", "datetime", "Timestamp"}, "timedelta": {"timedelta", "Timedelta"}}


class Kinds(Domain):
    """Domain, knowing dates"""

    def isinstance_(self, a, ty):
        names = {x.split(".")[-1] for x in re_names(ty)}
        if kind(a) in TIMES:
            return const(bool(names & TIMES[kind(a)])) if names else None
        return super().isinstance_(a, ty)

    def unary(self, name, a):
        if kind(a) in TIMES and name in ("float", "int", "isnan", "isinf", "isfinite"):
            return RAISE
        return super().unary(name, a)

    def compare(self, op, a, b):
        if kind(a) in TIMES and a == b and op in ("Eq", "Is"):
            return True
        if op in ("In", "NotIn") and b[0] == "tuple" and a[0] == "abs":
            out = {super(Kinds, self).compare("Eq", a, x) for x in b[1:]}
            return None if None in out else (True in out) == (op == "In")
        return super().compare(op, a, b)


class Texts(Client):
    """what a formatter returns: the alternatives, and the parts of each"""

    def __init__(self, ctx, q):
        self.ctx, self.q, self.out = ctx, q, []

    def event(self, ev, ip):
        if ev.kind == "return" and len(ev.stack) == 1:
            for v in alts(ip.dom.value(ev.value, ev.st, ip)):
                self.out.append((self.ctx.loc(ev.fn, ev.node), list(v[1]) if v[0] == "fstr" else [v], ev.st))


def wrong(cls, parts, st):
    """what is wrong with the text of a literal for a value of the class"""
    def ours(p):
        return any(isinstance(x, tuple) and x and x[0] == "abs" for x in walk(p)) or \
            p[0] == "join" and p[2][0] == "new" and any(ours(x) for x in (st.heap[p[2]].elems if p[2] in st.heap else ()))

    at = [i for i, p in enumerate(parts) if ours(p)]
    if not at:
        if all(p[0] == "const" for p in parts):
            s = "".join(str(p[1]) for p in parts)
            if cls in ("nan", "none") and s.strip("'").lower() in ("none", "nan"):
                return f"{KINDS[cls]} is written as {s}"
            if cls not in ("nan", "none") and s.lower() == "null":
                return f"{KINDS[cls]} is written as null"
        return None
    i = at[0]
    quoted = 0 < i < len(parts) - 1 and parts[i - 1][0] == parts[i + 1][0] == "const" and \
        str(parts[i - 1][1]).endswith("'") and str(parts[i + 1][1]).startswith("'")
    if cls in ("nan", "none"):
        return f"{KINDS[cls]} is not written as null"
    if cls == "mid":
        return "a number is written as a string" if quoted else None
    if not quoted and (parts[i][0] == "abs" or parts[i][0] == "call" and parts[i][1] in ("str", "format")):
        return f"{KINDS[cls]} is written without quotes"
    if cls == "txt":
        p = parts[i]
        while p[0] == "fstr" and len(p[1]) == 1:
            p = p[1][0]
        if p[0] == "join" and all(x == A("txt") for x in alts(p[2])):
            return "string text is not escaped"
        for p in alts(p):
            if p[0] == "abs" or p[0] == "call" and p[1] in ("str", "format") and p[2][0][0] == "abs":
                return "string text is not escaped"
            if p[0] == "join" and p[2][0] == "new" and p[2] in st.heap and \
                    all(x in (A("txt"), ("elem", A("txt"))) for x in st.heap[p[2]].elems):
                return "string text is not escaped"
    return None


def formats(ctx, rep, q):
    """the literal each kind of value is written as"""
    ps = [p for p in ctx.prog.fn(q).params if p not in ("self", "cls")]
    if len(ps) != 1:
        return
    for cls in KINDS:
        c = Texts(ctx, q)
        ip = ctx.interp([c])
        ip.dom = Kinds(None, None, None, None, False, False)
        ip.run_entry(q, args={ps[0]: NONE if cls == "none" else A(cls)})
        rep.fns |= ip.fns_seen
        for where, parts, st in c.out:
            bad = wrong(cls, parts, st)
            rep.ob("literal", f"{where} {cls}", not bad, key=f"{q}:{cls}", what=f"{q}: {bad}")


class Chars(Kinds):
    """every character of a text is of the same class"""

    def method(self, ip, base, name, args, kwargs, st, node):
        while base[0] in ("join", "item") or base[0] == "fstr" and len(base[1]) == 1:
            base = base[2] if base[0] == "join" else base[1] if base[0] == "item" else base[1][0]
        k = kind(base)
        if k in ("letter", "digit", "other"):
            if name in ("isalnum", "isalpha", "isdigit", "isnumeric", "isdecimal", "isidentifier", "isspace"):
                return const(name == "isalnum" and k != "other" or name == "isalpha" and k == "letter" or name in (
                    "isdigit", "isnumeric", "isdecimal") and k == "digit" or name == "isidentifier" and k == "letter")
            if name in ("lower", "casefold", "strip", "upper") and not args:
                return base
        return super().method(ip, base, name, args, kwargs, st, node)

    def compare(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == "abs" and y[0] == "const" and isinstance(y[1], str):
                return None
        return super().compare(op, a, b)

    def elem(self, x):
        return x if x[0] == "abs" else None

    def item(self, b, k, st):
        if b[0] == "new" and b in st.heap:
            e = st.heap[b].elems
            if len(e) == 1 and next(iter(e))[0] == "abs":
                return next(iter(e))
        return b if b[0] == "abs" else None


class Names(Client):
    """what the conversion of a name returns, and whether its first character was replaced"""

    def __init__(self, ctx, q):
        self.ctx, self.q, self.out = ctx, q, []

    def event(self, ev, ip):
        if ev.kind == "setitem" and ev.key == const(0) and all(v[0] == "const" for v in alts(ev.value)):
            ev.st.may = ev.st.may | {("first",)}
        if ev.kind == "return" and len(ev.stack) == 1:
            self.out.append((self.ctx.loc(ev.fn, ev.node), ev.value, ev.st))


def left(t, st, cls, depth=0):
    """are characters of the class left in a text"""
    if depth > 8:
        return False
    if t == A(cls):
        return True
    if t[0] == "new":
        return t in st.heap and any(left(x, st, cls, depth + 1) for x in st.heap[t].elems)
    if t[0] in ("join", "fstr", "union", "ifexp", "or", "and", "choice"):
        return any(left(x, st, cls, depth + 1) for x in (alts(t) if t[0] not in ("join", "fstr") else t[1] if t[0] == "fstr" else t[2:]))
    return False


def legal_names(ctx, rep, q="pgtd._pg_name"):
    """the conversion of names leaves nothing but letters, digits and underscores, and no digit in front"""
    for cls in ("letter", "digit", "other"):
        c = Names(ctx, q)
        ip = ctx.interp([c])
        ip.dom = Chars(None, None, None, None, False, False)
        ip.run_entry(q, args={ctx.prog.fn(q).params[0]: A(cls)})
        rep.fns |= ip.fns_seen
        for where, v, st in c.out:
            if cls == "other":
                rep.ob("quoted-name", f"{where} {cls}", not left(v, st, cls), key=f"{q}:{cls}",
                       what=f"{q} leaves characters other than letters, digits and underscores in a name")
            if cls == "digit":
                rep.ob("quoted-name", f"{where} {cls}", not left(v, st, cls) or ("first",) in st.may or
                       v[0] == "fstr" and v[1][0][0] == "const", key=f"{q}:{cls}", what=f"{q} leaves a digit at the start of a name")


def prepare(ip, q):
    ip.refine, ip.inner = literal, True


def C18(ctx, rep):
    rep.rule("bound", "no data value is part of the text of a statement that is executed; values are bound as parameters")
    rep.rule("literal", "a value written into an SQL script is null, quoted and escaped text, or an unquoted value known to "
             "be neither a string nor a date")
    rep.rule("whole-script", "a script is run as a whole: its text is not cut up at characters that may be inside a string")
    rep.rule("quoted-name", "names are bracketed (SQLite, Access fields) or made legal (PostgreSQL)")
    dcls = {ctx.data_class(f) for f in FACTORIES}
    T.MAX_SIZE = 1500
    for q in (W, PW, "pgtd._pg_name"):
        ctx.prog.fn(q)
    entries = [q for c in SQL_CLASSES for n, q in ctx.prog.cls(c).methods.items() if not n.startswith("_")]
    base = ctx.prog.classes.get("pgtd._PostgresFactory")
    if base:
        entries += [q for n, q in base.methods.items() if not n.startswith("_")]
    if len(entries) < 15:
        raise AnchorError(f"only {len(entries)} database operations found")
    names = {ctx.prog.cls(f).methods.get(a) for f in FACTORIES for a in ("primary_key_fields", "data_fields", "all_tables")}
    res, seen = ctx.par(entries, lambda q: Statements(ctx, q, dcls), opaque=GOOD | (names - {None}) | ({"utils.all_underscore_replacements"} & set(ctx.prog.fns)),
                        models={W: adj_model("tic"), PW: adj_model("pan"), "pgtd._pg_name": pgn},
                        prepare=prepare)
    rep.fns |= seen
    n = {}
    legal_names(ctx, rep)
    for q in sorted({fq for out in res.values() for rule, fq, _, _, _ in out if rule == "formatter"}):
        formats(ctx, rep, q)
    for q, out in sorted(res.items()):
        for rule, fq, where, ok, what in out:
            if rule == "formatter":
                continue
            rep.ob(rule, f"{where} ({q})", ok, key=f"{fq}:{what[:60]}", what=f"{q}: {what}")
            n[rule] = n.get(rule, 0) + 1
    for r, m in (("bound", 15), ("literal", 1), ("whole-script", 1), ("quoted-name", 6)):
        if n.get(r, 0) < m:
            raise AnchorError(f"rule {r} matched only {n.get(r, 0)} constructs")


QUERY_PRAGMAS = re.compile(r"\s*pragma\s+(\w+\.)?(\w*_info|\w*_xinfo|\w*_list|\w*_check|foreign_keys|busy_timeout|cache_size|temp_store|"
                           r"query_only|case_sensitive_like|read_uncommitted|(user|schema|data)_version\s*;?\s*$)")
CHANGES = re.compile(r"\b(insert|update|delete|replace|create|drop|alter|truncate|into|attach|vacuum)\b")
MAKERS = {"os.mkdir", "os.makedirs", "os.utime", "os.chmod", "os.chown", "os.symlink", "os.link", "shutil.chown", "shutil.copymode"}


def query(s):
    """is a statement nothing but a query"""
    h = head(s)
    if h is None or not h <= {"select", "pragma", "with", "explain"}:
        return False
    text = [str(x[1]).lower() for x in walk(s) if isinstance(x, tuple) and len(x) == 2 and x[0] == "const" and isinstance(x[1], str)]
    if "pragma" in h:
        return all(QUERY_PRAGMAS.match(t) for t in text if t.lstrip().startswith("pragma"))
    return not any(CHANGES.search(t) for t in text)


class Mutations(Client):
    """C28: file and database changes made by an operation that only reads."""

    def __init__(self, ctx, q, dcls):
        self.ctx, self.q, self.dcls, self.out = ctx, q, dcls, []
        self.roots = {("param", q, p) for p in ctx.prog.fns[q].params}

    def rooted(self, t):
        return any(r in self.roots for r in roots(t))

    def add(self, rule, ev, ok, what):
        self.out.append((rule, ev.fn.qual, self.ctx.loc(ev.fn, ev.node), ok, what))

    def event(self, ev, ip):
        if ev.kind == "with_enter" and any(x[0] == "param" and x[2] in ("con", "engine", "connection") and x in self.roots
                                           for x in alts(ev.cm)):
            self.add("select-only", ev, False, "commits what the caller has pending on his connection")
        if ev.kind != "call":
            return
        run_handed_out(ev, ip, self.dcls)
        nm = call_name(ev)
        if nm is None:
            return
        if nm[0] == "f" and nm[1] in MAKERS or nm[0] == "m" and nm[1].split(".")[-1] in ("mkdir", "touch", "chmod") and self.rooted(nm[2]):
            self.add("no-file-change", ev, False, f"{nm[1]} of {fmt(ev.args[0] if ev.args else UNKNOWN)[:60]}")
        name = nm[1].split(".")[-1]
        s = sql_stmt(ev)
        if s is not None:
            recv = nm[2] if nm[0] == "m" else (ev.args[0] if ev.args else UNKNOWN)
            ok = query(s)
            if not ok and in_memory(recv):
                ok = True
            self.add("select-only", ev, ok, f"runs {fmt(s)[:80]}")
            return
        for p in file_sinks(ev, lambda p: p in self.roots and any(w in p[2] for w in ("path", "file", "dir", "buf"))):
            if any(x[0] in ("new", "inst") or "StringIO" in str(x[1]) for x in alts(p)) and not self.rooted(p):
                continue
            self.add("no-file-change", ev, False, f"{name}({fmt(p)[:60]})")
        if nm[0] == "m" and name in SAVERS and not self.rooted(nm[2]) is None and name not in ("save",) and \
                (ev.args or "path_or_buf" in ev.kwargs or "con" in ev.kwargs):
            self.add("no-file-change", ev, False, f"{name} of {fmt(nm[2])[:60]}")
        if nm[0] == "f" and name == "connect" and "sql" in nm[1]:
            p = ev.args[0] if ev.args else ev.kwargs.get("database", UNKNOWN)
            if p == const(":memory:") or ev.kwargs.get("uri") == TRUE and any(
                    x[0] == "const" and "mode=ro" in str(x[1]) for x in walk(p) if isinstance(x, tuple) and len(x) == 2):
                self.add("no-file-created", ev, True, "")
                return
            ok = any(len(c) == 1 and all(pol and l[0] == "call" and str(l[1]).split(".")[-1] in ("exists", "isfile")
                                         and l[2][0] == p for l, pol in c) for c in ev.facts)
            self.add("no-file-created", ev, ok, f"connecting to {fmt(p)[:60]} creates the file when it does not exist")
        if nm[0] == "f" and name in ("open",):
            self.add("no-file-change", ev, True, "opened for reading")
        if nm[0] == "m" and name in ("commit", "rollback") and self.rooted(nm[2]):
            self.add("select-only", ev, False, f"{name} of what the caller has pending on his connection")


def in_memory(recv):
    for x in walk(recv):
        if isinstance(x, tuple) and x and x[0] == "call" and str(x[1]).endswith("connect"):
            return x[2][:1] == (const(":memory:"),)
    return False


def C28(ctx, rep):
    rep.rule("select-only", "every statement a reading operation runs on the caller's database only selects")
    rep.rule("no-file-change", "a reading operation opens files for reading only and saves nothing")
    rep.rule("no-file-created", "a database file is connected to only where it is known to exist (connecting creates it)")
    entries = [q for c in TIC_IO + PAN_IO for n, q in ctx.prog.cls(c).methods.items()
               if n.startswith(("create", "find", "get", "read", "load")) and not n.startswith("_")]
    dcls = {ctx.data_class(f) for f in FACTORIES}
    if len(entries) < 17:
        raise AnchorError(f"only {len(entries)} reading operations found: {entries}")
    T.MAX_SIZE = 400
    res, seen = ctx.par(entries, lambda q: Mutations(ctx, q, dcls), opaque=GOOD | {R, PR, W})
    rep.fns |= seen
    n = {}
    for q, out in sorted(res.items()):
        for rule, fq, where, ok, what in out:
            rep.ob(rule, f"{where} ({q})", ok, key=f"{fq}:{what[:60]}", what=f"{q}: {what}")
            n[rule] = n.get(rule, 0) + 1
    for r, m in (("select-only", 6), ("no-file-change", 4), ("no-file-created", 3)):
        if n.get(r, 0) < m:
            raise AnchorError(f"rule {r} matched only {n.get(r, 0)} constructs")
