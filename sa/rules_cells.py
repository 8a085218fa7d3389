"""C09 / C10: every cell written or read goes through the schema's cell adjustment for its own table and field."""
from . import terms as T
from .ctx import *
from .rules_io import GOOD, EXECUTE, SAVERS, call_name, _writers

W = TDF + "._infinity_flag_write_cell"
R = TDF + "._general_read_cell"
PW = PDF + "._pre_write_adjustment"
PR = PDF + "._general_post_read_adjustment"
TICPARAM = TDF + "._parameter_table_post_read_adjustment"


def adj_model(which):
    """an adjusted value is an opaque token: it carries no data roots"""
    def m(ip, q, recv, args, kwargs, st, node, star, dstar):
        return ("adj", which)
    return m


def read_model(ip, q, recv, args, kwargs, st, node, star, dstar):
    a = list(args) + [kwargs[k] for k in ("t", "f", "x") if k in kwargs]
    return ("adj", "tic", a[0], a[1]) if len(a) == 3 else ("adj", "tic", UNKNOWN, UNKNOWN)


def is_data(r, dat, dcls):
    return r in dat or (r[0] == "inst" and r[1] in dcls)


def _na(t):
    return t[0] == "cmp" and t[1] in ("==", "is") and any(x[0] == "const" and x[1] == "N/A" for x in t[2:4]) and \
        any(isinstance(x, tuple) and len(x) == 3 and x[0] == "attr" and "infinity" in x[2] for x in walk(t))


def _params(l):
    """literal: this is not the (declared) parameters table"""
    t, pol = l
    if pol:
        return False
    if t[0] == "cmp":
        return t[1] == "==" and any(x[0] == "const" and x[1] == "parameters" for x in t[2:4])
    return (t[0] == "attr" and t[2] in ("parameters", "_parameters")) or (t[0] == "inst" and "Frozen" in t[1])


def exempt(v, st):
    """values the adjustment is known to leave as they are: dates, and everything outside the parameters table when
    the infinity flag is 'N/A'"""
    if v[0] in ("const", "adj", "new", "func"):
        return v
    core = v[2][0] if v[0] == "call" and v[1] == "str" and len(v[2]) == 1 else v
    na = notp = False
    for c in st.facts:
        if len(c) == 1:
            (t, pol), = c
            if pol and t[0] == "call" and t[1] == "isinstance" and t[2][0] == core and \
                    any(w in fmt(t[2][1]) for w in ("date", "Timestamp")):
                return ("adj", "date")
            if pol and _na(t):
                na = True
        if all(_params(l) for l in c):
            notp = True
    return ("adj", "identity") if na and notp else v


class Leaves:
    """The raw (unadjusted) cell values inside a value."""

    def __init__(self, ip, st, dat, dcls, text=False):
        self.ip, self.st, self.dat, self.dcls, self.text = ip, st, dat, dcls, text
        self.raw, self.adj, self.seen = [], 0, set()

    def rooted(self, t):
        return any(is_data(r, self.dat, self.dcls) for r in roots(t))

    def visit(self, t, depth=0):
        if t in self.seen or depth > 12:
            return
        self.seen.add(t)
        k = t[0]
        v = lambda x: self.visit(x, depth + 1)
        if k == "adj":
            self.adj += 1
        elif k in ("const", "func", "class", "extern", "builtin", "unknown", "global", "free", "self", "missing",
                   "unbound", "cmp", "not", "bool", "idx", "all", "any"):
            return
        elif k == "new":
            c = self.st.heap.get(t)
            if c is None:
                return
            if t[1] == "dict":
                for _, x in c.items:
                    v(x)
            else:
                for x in c.elems:
                    v(x)
                for x in (c.exact or ()):
                    v(x)
                for _, x in c.items:
                    v(x)
        elif k == "tuple":
            for x in t[1:]:
                v(x)
        elif k in ("union", "or", "and", "ifexp", "choice"):
            for x in alts(t):
                v(x)
        elif k in ("op", "fstr", "zip"):
            for x in t[-1] if isinstance(t[-1], tuple) else ():
                if isinstance(x, tuple):
                    v(x)
        elif k == "join":
            v(t[2])
        elif k == "call":
            if t[1] in ("len", "isinstance", "type", "id", "hash"):
                return
            for x in t[2]:
                v(x)
        elif k == "method":
            v(t[1])
            for x in t[3]:
                v(x)
        elif k in ("elem", "item", "attr", "getattr", "view", "mix", "param", "inst", "deepcopy", "enumerate"):
            if not self.rooted(t):
                if any(isinstance(x, tuple) and x and x[0] == "adj" for x in walk(t)):
                    self.adj += 1
                if k in ("elem", "item") and t[1][0] in ("new", "op", "tuple", "union"):
                    v(t[1])
                return
            if self.text:
                # in statement text, field names (keys of a row) come from the data object too
                if k == "mix" or not any(x[0] == "item" and not (x[2][0] == "const") for c in chains(t) for x in c[:1]):
                    return
            self.raw.append(t)


def same_table(tarms, x, dat, dcls):
    """tables whose rows x is taken from, as far as x says"""
    out = set()
    for s in walk(x):
        if isinstance(s, tuple) and s and s[0] == "getattr" and any(is_data(y, dat, dcls) for y in alts(s[1])):
            out.update(alts(s[2]))
    return out


def field_ok(f):
    """a field argument is a name taken from the schema or from a row, not a rewritten one"""
    for x in alts(f):
        if x[0] in ("fstr", "op", "join") and not (x[0] == "op" and x[1] == "+" and False):
            return False
        if x[0] == "method" and x[2] in ("lower", "upper", "replace", "strip", "title"):
            return False
    return True


ORDER_RULE = ("wherever field names are put together with cells (zip, or the index of one in the other), both are in the same "
              "order, as far as they follow the schema's fields, a row, a selection of columns or a json row")
PK, DF = "_primary_key_fields", "_data_fields"


class Order:
    """The order of a sequence of field names or cells, as segments: the primary key fields, the data fields.

    segs(t) is a list of (segment, keyless), where keyless says that it is from a row of a table without a primary key;
    None when the order is not known."""

    def __init__(self, ip, st, isdata, rows=None):
        self.ip, self.st, self.isdata, self.rows = ip, st, isdata, rows or {}

    def table(self, t):
        return t[0] == "getattr" and any(self.isdata(y) for y in alts(t[1]))

    def row(self, t):
        """None, or whether t, a row of data cells keyed by field name, is of a table without primary key"""
        if t[0] == "item" and self.table(t[1]) and t[2][0] == "elem":
            return False
        b = t[1] if t[0] == "elem" else None
        if b is not None and (self.table(b) or b[0] == "call?" or (b[0] in ("call", "method") and any(
                isinstance(x, tuple) and x and self.table(x) for x in b))):
            return True
        return None

    def segs(self, t, depth=0):
        if depth > 12:
            return None
        k, go = t[0], lambda x: self.segs(x, depth + 1)
        if k in ("union", "or", "and", "ifexp", "choice"):
            got = {tuple(s) for s in map(go, alts(t)) if s is not None}
            return list(got.pop()) if len(got) == 1 else None
        if k == "op" and t[1] == "+":
            parts = [go(x) for x in t[2]]
            return None if None in parts else [s for p in parts for s in p]
        if k == "tuple":
            parts = [[("pk", False)] if x[0] == "elem" and self.table(x[1]) else None for x in t[1:]]
            return None if None in parts else [s for p in parts for s in p]
        if k == "new":
            c = self.st.heap.get(t)
            if c is None:
                return None
            if c.exact is not None:
                return go(("tuple",) + tuple(c.exact))
            if c.order is None:
                return None
            s = go(c.order)
            if s is not None:
                kl = [self.row(x[1]) for e in c.elems for x in walk(e) if isinstance(x, tuple) and x and
                      x[0] == "item" and x[2][0] != "const"]
                if True in kl and False not in kl:
                    s = [(a, True) for a, _ in s]
            return s
        if k == "perm":
            s = go(t[2]) if t[2] else None
            return s if s is None or len(s) == 0 else [(("perm", t), any(x[1] for x in s))]
        if k in ("item", "attr", "method"):
            b, key = (t[1], t[2]) if k != "method" else (t[1], t[2])
            if k == "method":
                if t[2] == "get" and b[0] == "attr":
                    return self.fields(b)
                if t[2] in ("items", "keys", "values"):
                    r = self.row(b)
                    return None if r is None else [("df", r)]
                return None
            if k == "item" and b[0] == "attr":
                f = self.fields(b)
                if f is not None:
                    return f
            if k == "item" and key[0] == "slice":
                return self.part(go(b), key, go, t)
            r = self.row(t)
            return [("df", r)] if r is not None else None
        if k == "view":
            r = self.row(t[2])
            return None if r is None else [("df", r)]
        if k == "elem":
            if t[1] in self.rows:
                return self.rows[t[1]]
            if self.table(t[1]):
                return [("pk", False)]
            if t[1][0] in ("item", "elem", "view") and any(x[0] == "call" and str(x[1]) in ("json.load", "json.loads")
                                                           for x in walk(t[1]) if isinstance(x, tuple) and x):
                return [("pk", False), ("df", False)]        # how a row that is a list is laid out in json
            return self.selected(t[1], go)
        return None

    def fields(self, b):
        n = b[2] if isinstance(b[2], str) else None
        n = n if n is None or n.startswith("_") else "_" + n
        return [("pk", False)] if n == PK else [("df", False)] if n == DF else None

    def part(self, s, key, go, t):
        if s is None:
            return None
        lo, hi, step = key[1:]
        none = ("const", None)
        if step[:2] != none and step[:2] != ("const", 1):
            return [(("perm", t), any(x[1] for x in s))]

        def upto(x):
            if x[0] == "call" and x[1] == "len":
                p = go(x[2][0])
                if p is not None and s[:len(p)] == p:
                    return len(p)
            return None
        a = 0 if lo[:2] == none else upto(lo)
        z = len(s) if hi[:2] == none else upto(hi)
        return None if a is None or z is None else s[a:z]

    def selected(self, rows, go):
        """the columns of the query the rows are from"""
        while rows[0] == "method" and rows[2] in ("fetchall", "fetchmany", "execution_options"):
            if rows[1] in self.rows:
                return self.rows[rows[1]]
            rows = rows[1]
        if rows[0] != "method" or rows[2] != "execute" or not rows[3]:
            return None
        return self.query(rows[3][0], go)

    def query(self, text, go=None):
        go = go or self.segs
        joins = []
        for x in walk(text):
            if isinstance(x, tuple) and x and x[0] == "join" and x not in joins:
                joins.append(x)
        if not joins or not any(isinstance(x, tuple) and x and x[0] == "const" and "select" in str(x[1]).lower()
                                for x in walk(text)):
            return None
        got = {tuple(s) for o in self.ip.joined.get(joins[0], ()) if o for s in [go(o)] if s is not None}
        return list(got.pop()) if len(got) == 1 else None

    def differ(self, a, b):
        """the two are known to be in different orders"""
        if a is None or b is None:
            return False
        if any(kl for _, kl in a + b) or any(not pol and self.segs(t) == [("pk", False)] for c in self.st.facts
                                             if len(c) == 1 for t, pol in c):
            a, b = [[x for x, _ in s if x != "pk"] for s in (a, b)]
        else:
            a, b = [x for x, _ in a], [x for x, _ in b]
        n = min(len(a), len(b))
        return a[:n] != b[:n]


def shift(k):
    """(the position in the sequence that is walked through, how far from it), or None"""
    if k[0] == "idx":
        return k, 0
    if k[0] == "op" and k[1] in ("+", "-") and len(k[2]) == 2:
        a, b = k[2]
        if k[1] == "+" and a[0] == "const":
            a, b = b, a
        s = shift(a)
        if s is not None and b[0] == "const" and type(b[1]) is int:
            return s[0], s[1] + (b[1] if k[1] == "+" else -b[1])
    return None


def plain(x):
    s = shift(x[2]) if x[0] == "item" else None
    return ("item", x[1], s[0]) if s is not None and s[1] == 0 else x


def off(k):
    """is the position another one than that of the cell?"""
    s = shift(k)
    if s is not None:
        return s[1] != 0
    if not any(isinstance(y, tuple) and y and y[0] == "idx" for y in walk(k)):
        return False
    return any(isinstance(y, tuple) and y and (y[0] in ("neg", "usub") or y[0] == "op" and y[1] in ("%", "//", "*", "neg", "USub") or
                                               y[0] == "call" and y[1] in ("min", "max", "abs")) for y in walk(k))


def paired(ev, ip, isdata, rows):
    """[(ok, what)]: are the field names and the cells that are put together here in the same order?"""
    nm = call_name(ev)
    if nm is not None and nm[0] == "m" and nm[1].split(".")[-1] == "execute" and ev.args:
        q = Order(ip, ev.st, isdata).query(ev.args[0])
        if q is not None:
            rows[nm[2]] = q
        else:
            rows.pop(nm[2], None)
    pairs = []
    if ev.target == ("builtin", "zip") and len(ev.args) == 2:
        pairs.append(ev.args)
    elif ev.data.get("qual") in (W, R):
        f = ev.args[1] if len(ev.args) > 1 else ev.kwargs.get("f", UNKNOWN)
        for x in alts(f):
            x = plain(x)
            if x[0] == "item" and x[2][0] == "idx":
                pairs.append((x[1], x[2][1]))
                rows_of = x[2][1][2] if x[2][1][0] == "view" else x[2][1]
                if any(Order(ip, ev.st, isdata).table(y) for y in alts(rows_of)):
                    return [(False, "the field a cell is adjusted as is chosen by the number of its row")]
            elif x[0] == "item" and off(x[2]):
                return [(False, f"the field a cell is adjusted as is not the one in its position ({fmt(x[2])[:60]})")]
            elif x[0] == "item" and x[2][0] == "const" and x[1][0] == "op":
                s = Order(ip, ev.st, isdata).segs(x[1])
                if s is not None and len(s) > 1:
                    return [(False, f"every cell is adjusted as field number {x[2][1]} of {fmt(x[1])[:90]}")]
    out, o = [], Order(ip, ev.st, isdata, rows)
    for p, q in pairs:
        a, b = o.segs(p), o.segs(q)
        if a is not None and b is not None:
            ok = not o.differ(a, b)
            out.append((ok, "" if ok else f"{fmt(p)[:90]} and {fmt(q)[:90]} are in different orders"))
    return out


class Writes(Client):
    def __init__(self, ctx, q, dcls):
        self.ctx, self.q, self.dcls, self.out = ctx, q, dcls, []
        self.rows = {}
        ps = ctx.prog.fns[q].params
        self.dat = {("param", q, p) for p in ps if p in ("tic_dat", "pan_dat")}

    def add(self, rule, ev, ok, what):
        self.out.append((rule, ev.fn.qual, self.ctx.loc(ev.fn, ev.node), ok, what))

    def cells(self, ev, ip, values, what, text=False):
        lv = Leaves(ip, ev.st, self.dat, self.dcls, text)
        for x in values:
            lv.visit(x)
        if lv.raw:
            self.add("write-adjusted", ev, False, f"{what} gets {fmt(lv.raw[0])[:110]} without the write adjustment")
        elif lv.adj or not text:
            self.add("write-adjusted", ev, True, "" if lv.adj else "none")

    def event(self, ev, ip):
        if ev.kind != "call":
            return
        for ok, what in paired(ev, ip, lambda y: is_data(y, self.dat, self.dcls), self.rows):
            self.add("own-order", ev, ok, what)
        if ev.data.get("qual") == W:
            a = list(ev.args) + [ev.kwargs[k] for k in ("t", "f", "x") if k in ev.kwargs]
            if len(a) == 3:
                t, f, x = a
                tabs = same_table(t, x, self.dat, self.dcls)
                ok = tabs <= set(alts(t)) or any(y[0] == "mix" for y in alts(t))
                self.add("own-table-field", ev, ok, f"cell of table {[fmt(y) for y in tabs]} adjusted as table {fmt(t)}")
                self.add("own-table-field", ev, field_ok(f), f"the field passed on is rewritten: {fmt(f)[:120]}")
            return
        nm = call_name(ev)
        if nm is None:
            return
        name = nm[1].split(".")[-1]
        args = list(ev.args)
        if name in EXECUTE:
            if name in ("execute_values", "execute_batch"):
                args = args[1:]
            if len(args) > 1:
                self.cells(ev, ip, args[1:], name)
            self.cells(ev, ip, args[:1], name + " text", text=True)
        elif name in ("writerow", "writerows"):
            self.cells(ev, ip, args, name)
        elif name == "write" and nm[0] == "m":
            if len(args) > 2:
                self.cells(ev, ip, args[2:], name)
            elif len(args) == 1:
                self.cells(ev, ip, args, "write text", text=True)
        elif name in ("dump", "dumps") and "json" in nm[1]:
            self.cells(ev, ip, args[:1], name)
        elif name in SAVERS and nm[0] == "m" and name.startswith("to_"):
            self.cells(ev, ip, [nm[2]], name)


def C09(ctx, rep):
    rep.rule("write-adjusted", "no value taken from the data object reaches a file or database call without having gone "
             "through the schema's write adjustment (infinity flag, None, parameters)")
    rep.rule("own-table-field", "the adjustment is asked for the table and field the cell belongs to")
    rep.rule("own-order", ORDER_RULE)
    dcls = {ctx.data_class(f) for f in FACTORIES}
    for q in (W, PW):
        ctx.prog.fn(q)
    T.MAX_SIZE = 400
    entries = _writers(ctx, TIC_IO + PAN_IO, lambda n, f: n.startswith("write") and {"tic_dat", "pan_dat"} & set(f.params))
    if len(entries) < 13:
        raise AnchorError(f"only {len(entries)} writers found: {entries}")
    res, seen = ctx.par(entries, lambda q: Writes(ctx, q, dcls), opaque=GOOD,
                        models={W: adj_model("tic"), PW: adj_model("pan")},
                        prepare=lambda ip, q: (setattr(ip, "refine", exempt), setattr(ip, "inner", True)))
    rep.fns |= seen
    broken = any(not o[3] for out in res.values() for o in out)
    for q, out in sorted(res.items()):
        if not broken and not any(o[0] == "write-adjusted" and o[3] and o[4] != "none" for o in out):
            raise AnchorError(f"no adjusted cell seen to be written in {q}")
        for rule, fq, where, ok, what in out:
            rep.ob(rule, f"{where} ({q})", ok, key=f"{q}:{fq}:{what.split(' gets ')[0][:30]}", what=f"{q}: {what}")


def _infstr(v):
    """v is float(y) or float(y.lower()): the value y read as a number"""
    if v[0] == "call" and v[1] == "float" and len(v[2]) == 1:
        y = v[2][0]
        while y[0] == "method" and y[2] in ("lower", "strip", "upper"):
            y = y[1]
        return y
    return None


def read_exempt(v, st):
    """'inf' texts read as infinities where the infinity flag is known to be 'N/A': the adjustment would leave them"""
    y = _infstr(v)
    if y is None:
        return v
    na = isinf = False
    for c in st.facts:
        if all(p and t[0] == "cmp" and t[1] in ("==", "in") and any(z == y for z in walk(t)) and
               any(z[0] == "const" and "inf" in str(z[1]) for z in walk(t) if isinstance(z, tuple) and z) for t, p in c):
            isinf = True
        if len(c) == 1:
            (t, pol), = c
            na = na or (pol and _na(t)) or (not pol and t[0] == "cmp" and t[1] == "!=" and _na(("cmp", "==") + t[2:]))
    return ("adj", "inf", UNKNOWN, UNKNOWN) if na and isinf else v


class ReadLeaves:
    """The leaf values of a table handed to the data class constructor."""

    def __init__(self, ip, st):
        self.ip, self.st, self.seen, self.raw, self.adj = ip, st, set(), [], []
        self.odd = []                 # cells adjusted as another field than the one they are filed under

    def table(self, t):
        """t: a table - a container of rows, a generator function, a dictionary of rows, or a union of these"""
        self.row(t, 0)

    def row(self, t, depth=1):
        if (t, depth > 0) in self.seen or depth > 10:
            return
        self.seen.add((t, depth > 0))
        k = t[0]
        v = lambda x: self.row(x, depth + 1)
        if k in ("union", "or", "and", "ifexp", "choice"):
            for x in alts(t):
                self.row(x, depth)
        elif k == "adj":
            self.adj.append(t)
        elif k == "new":
            c = self.st.heap.get(t)
            if c is None:
                return
            for n, x in c.items:
                v(x)
                for y in alts(x):
                    if depth > 0 and t[1] == "dict" and y[:2] == ("adj", "tic") and "mix" not in (n[0], y[3][0]) and \
                            not set(alts(n)) & set(alts(y[3])):
                        self.odd.append((n, y[3]))
            if t[1] != "dict" or depth == 0:      # the keys of a keyed table are cells, those of a row field names
                for x in list(c.elems) + list(c.exact or ()):
                    v(x)
        elif k == "tuple":
            for x in t[1:]:
                v(x)
        elif k == "func":
            s = self.st.copy()
            r = self.ip.call_fn(t[1], t[2], None, [], {}, s, self.ip.prog.fns[t[1]].node)
            if not s.dead:
                sub = ReadLeaves(self.ip, s)
                sub.seen = self.seen
                sub.row(r, 1)
                self.raw += sub.raw
                self.adj += sub.adj
                self.odd += sub.odd
        elif k == "const" and (t[1] is None or isinstance(t[1], bool)):
            pass
        elif k == "call" and str(t[1]).endswith("DataFrame"):
            for x in t[2]:
                v(x)
            for n, x in t[3]:
                if n not in ("columns", "index", "dtype", "copy"):
                    v(x)
        elif k in ("op", "zip") and isinstance(t[-1], tuple):
            for x in t[-1]:
                if isinstance(x, tuple):
                    v(x)
        elif k == "call" and t[1] in ("tuple", "list", "dict", "zip", "sorted", "reversed"):
            for x in t[2]:
                self.row(x, depth)
        elif k in ("elem", "item", "attr", "getattr"):
            self.row(t[1], max(depth, 1)) if self.derived(t) else self.raw.append(t)
        elif k == "method" and t[2] in ("items", "values", "itertuples", "copy", "to_dict", "head", "sort_index", "get"):
            self.row(t[1], max(depth, 1))
        elif k in ("missing", "unbound"):
            pass
        else:
            self.raw.append(t)

    def derived(self, t):
        while t[0] in ("elem", "item", "attr", "getattr"):
            t = t[1]
        return t[0] in ("adj", "new", "union", "choice", "ifexp", "method", "call", "tuple")


FULL_CLONES = ("create_from_full_schema", "clone")


def carries_schema(ip, recv, entry_cls):
    """the factory is the reader's own one, or a clone made from its full schema"""
    ok = True
    for x in alts(recv):
        while x[0] == "attr" or (x[0] == "inst" and len(x) > 2 and x[2][0] == "of"):
            x = x[1] if x[0] == "attr" else x[2][1]
        if x[0] == "inst" and len(x) > 2:
            site = x[2]
            fns = [f for f in ip.prog.fns.values() if f.module == site[0] and f.qual.split(".")[-1] in FULL_CLONES and
                   f.node.lineno <= site[1] <= f.node.end_lineno]
            ok = ok and bool(fns)
        elif x[0] not in ("param", "self"):
            ok = False
    return ok


def pan_model(ip, q, recv, args, kwargs, st, node, star, dstar):
    return ("adj", "pan" if carries_schema(ip, recv, None) else "panother", UNKNOWN, UNKNOWN)


class Reads(Client):
    """C10: what a reader hands to the data class, and what it returns."""

    def __init__(self, ctx, q, dcls):
        self.ctx, self.q, self.dcls, self.out = ctx, q, dcls, []
        self.fn = ctx.prog.fns[q]
        self.rows = {}
        self.freeze = ("param", q, "freeze_it")

    def add(self, rule, where, ok, what, obj=""):
        self.out.append((rule, self.q, where, ok, what, obj))

    def event(self, ev, ip):
        loc = self.ctx.loc(ev.fn, ev.node)
        if ev.kind == "call":
            for ok, what in paired(ev, ip, lambda y: y[0] == "inst" and y[1] in self.dcls, self.rows):
                self.add("own-order", loc, ok, what)
        if ev.kind == "call" and ev.target[0] == "class" and ev.target[1] in self.dcls:
            tabs = [(None, v) for v in ev.args] + [(const(k), v) for k, v in ev.kwargs.items()]
            if ev.dstar is not None:
                c = ev.st.heap.get(ev.dstar)
                if c is None:
                    tabs.append((None, ev.dstar))
                else:
                    tabs += list(c.items)
                    if not c.items:
                        tabs += [(None, x) for x in c.elems]
            kinds = set()
            for k, v in tabs:
                lv = ReadLeaves(ip, ev.st)
                lv.table(v)
                for r in lv.raw + [x for x in lv.adj if x[1] == "panother"]:
                    self.add("read-adjusted", loc, False, f"{fmt(r)[:110]} enters the data object unadjusted")
                for n, f in lv.odd:
                    self.add("own-table-field", loc, False, f"the cell of field {fmt(n)[:70]} is adjusted as field {fmt(f)[:70]}")
                for x in lv.adj:
                    kinds.add(x[1])
                    if x[1] == "tic" and k is not None:
                        ok = bool(set(alts(x[2])) & set(alts(k))) or "mix" in (k[0], x[2][0])
                        self.add("own-table-field", loc, ok and field_ok(x[3]),
                                 f"a cell of table {fmt(k)[:60]} is adjusted as {fmt(x[2])[:60]}, {fmt(x[3])[:60]}")
                if lv.adj and not lv.raw:
                    self.add("read-adjusted", loc, True, "", "tables")
            self.kinds = kinds
            return
        if ev.kind == "built" and ev.cls in self.dcls:
            return [("fact", "typed", ev.value)] if self.kinds == {"pan"} else None
        if ev.kind == "call" and ev.data.get("qual") == TICPARAM and ev.args:
            return [("fact", "typed", x) for x in alts(ev.args[0])]
        if ev.kind == "called" and ev.qual.split(".")[-1] == "freeze_me":
            return [("fact", "frozen", x) for a in ev.args for x in alts(a)]
        if ev.kind == "return" and ev.frame.fn.qual == self.q and len(ev.stack) == 1 and "tic_dat" in self.q:
            for v in alts(ev.value):
                if v[0] in ("const", "missing"):
                    self.add("typed", loc, False, f"returns {fmt(v)}")
                    continue
                site = None
                typed = frozen = False
                for c in ev.facts:
                    ms = [l for l in c if l[0][0] == "fact"]
                    if ms and all(l[0][1] == "typed" and l[0][2] == v for l in ms) and len(ms) == len(c):
                        typed = True
                    if all((l[0][0] == "fact" and l[0][1] == "frozen" and l[0][2] == v) or l == (self.freeze, False)
                           for l in c):
                        frozen = True
                self.add("typed", loc, typed, "returns an object whose parameters table was not typed")
                self.add("frozen", loc, frozen, "returns an object that is not frozen although freeze_it may be true")
        if ev.kind == "return" and ev.frame.fn.qual == self.q and len(ev.stack) == 1 and "pan_dat" in self.q:
            for v in alts(ev.value):
                self.add("read-adjusted", loc, v[0] == "adj" and v[1] == "pan",
                         f"returns {fmt(v)[:80]}, not the result of the read adjustment", "object")


def _readers(ctx):
    out = [q for c in TIC_IO + PAN_IO for n, q in ctx.prog.cls(c).methods.items() if n.startswith("create")]
    if len(out) < 11:
        raise AnchorError(f"only {len(out)} readers found: {out}")
    return out


def _run_reads(ctx):
    tic, pan = ctx.data_class(TDF), ctx.data_class(PDF)
    for q in (R, PR, TICPARAM):
        ctx.prog.fn(q)
    T.MAX_SIZE = 400
    names = ctx.prog.fn("utils.all_underscore_replacements").qual
    res, seen = ctx.par(_readers(ctx), lambda q: Reads(ctx, q, {tic}), opaque=GOOD | {names},
                        models={R: read_model, PR: pan_model},
                        prepare=lambda ip, q: setattr(ip, "refine", read_exempt))
    return res, seen


def C10(ctx, rep):
    rep.rule("read-adjusted", "every cell of every table a reader hands to the data class (generators included) has gone "
             "through the schema's read adjustment; pan dat readers return the adjusted object")
    rep.rule("own-table-field", "the adjustment is asked for the table the cell ends up in, and for an unmodified field name")
    rep.rule("own-order", ORDER_RULE)
    res, seen = _run_reads(ctx)
    rep.fns |= seen
    for q, out in sorted(res.items()):
        mine = [o for o in out if o[0] in ("read-adjusted", "own-table-field", "own-order")]
        if not mine:
            raise AnchorError(f"no table seen to be handed over by {q}")
        for rule, _, where, ok, what, obj in mine:
            rep.ob(rule, f"{where} {obj}({q})", ok, key=f"{q}:{what[:60]}", what=f"{q}: {what}")


def C14(ctx, rep):
    from .rules_params import typed_values
    typed_values(ctx, rep)
    rep.rule("typed", "every tic dat a reader returns has had its parameters table typed")
    rep.rule("frozen", "every tic dat a reader returns is frozen wherever freeze_it may be true")
    res, seen = _run_reads(ctx)
    rep.fns |= seen
    n = 0
    for q, out in sorted(res.items()):
        mine = [o for o in out if o[0] in ("typed", "frozen")]
        if "tic_dat" in q.split(".")[-1] and not mine:
            raise AnchorError(f"{q} was not seen to return anything")
        for rule, _, where, ok, what, obj in mine:
            rep.ob(rule, f"{where} ({q})", ok, key=f"{q}:{rule}", what=f"{q}: {what}")
            n += 1
    if n < 14:
        raise AnchorError("too few reader results seen")
