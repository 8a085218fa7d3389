"""C17, C16: the failure scans, by following one arbitrary failing cell or row through the scan.

The test of the scan (data type, predicate, look up, duplication) is fixed to come out "failing"; everything else is unknown.  A loop
over the tables, rows or fields is taken to reach our row; a condition that is not decided by the scenario may leave it out."""
import ast

from . import rules_memo
from . import terms as T
from .ctx import *
from .interp import State

RAISE = ("abs", "raise")
MSG = ("abs", "msg")
OPAQUE = {"utils.dictish", "utils.containerish", "utils.TypeDictionary.valid_data"} | \
    {f + m for f, m in ((TDF, ".good_tic_dat_object"), (PDF, ".good_pan_dat_object"))} | \
    {f + m for f in FACTORIES for m in (".foreign_keys", "._foreign_keys_by_native")}
PASS = {"elem", "item", "attr", "getattr", "enumerate", "idx"}
COPY = {"list", "tuple", "sorted", "set", "frozenset", "dict", "iter", "reversed", "enumerate"}


def root(t):
    """what a term is a part of"""
    while True:
        k = t[0]
        if k in PASS:
            t = t[1]
        elif k == "view":
            t = t[2]
        elif k == "method" and t[2] in ("get", "setdefault", "copy", "items", "values", "keys", "itertuples", "iterrows",
                                        "to_dict", "drop_duplicates", "reset_index", "join", "merge"):
            t = t[1]
        elif k == "call" and isinstance(t[1], str) and t[1].split(".")[-1] in COPY and t[2]:
            t = t[2][0]
        elif k == "call" and t[1] == "range" and t[2] and t[2][-1][0] == "call" and t[2][-1][1] == "len":
            t = t[2][-1][2][0]
        elif k == "call" and isinstance(t[1], str) and t[1].startswith(FACTORIES) and t[2]:
            t = t[2][0]
        elif k == "zip" and t[1]:
            t = t[1][0]
        elif k == "op" and t[1] == "+":
            t = t[2][0]
        else:
            return t


class Scenario:
    """how the things a scan depends on come out; `dat`: the data object, `keyed`: does the table have a primary key"""

    def __init__(self, dat, keyed=True, response=None, predicate=None, maker=None, convert="ok"):
        self.dat, self.keyed, self.response, self.predicate, self.maker, self.convert = dat, keyed, response, predicate, maker, convert
        self.ip, self.true, self.asked, self.cells = None, set(), set(), set()

    def table(self, t):
        return t[0] in ("getattr", "attr") and t[1] == self.dat

    def of_dat(self, t, st):
        for x in walk(t):
            if x == self.dat:
                return True
            if isinstance(x, tuple) and x and x[0] == "new":
                c = st.heap.get(x)
                if c is not None and any(self.dat in list(walk(y)) for y in c.elems):
                    return True
        return False

    def fail(self, st, ip):
        if not any(c.catches for c in ip.trystack):
            self.escapes = True
        ip._propagate_raise(st)
        st.dead = True
        return UNKNOWN

    def value(self, v, st, ip):
        self.ip = ip
        k = v[0]
        if k == "attr" and v[2] == "_parameters":
            return v if self.params else FALSE
        if k == "call" and isinstance(v[1], str):
            tail = v[1].split(".")[-1]
            if tail in ("dictish", "containerish") and v[2] and self.table(v[2][0]):
                return const(tail == "dictish" and self.keyed or tail == "containerish" and not self.keyed)
            if tail.startswith("good_") and tail.endswith("_object"):
                return TRUE
            if tail == "valid_data":
                self.asked.add("type")
                return FALSE
            if tail == "isinstance" and len(v[2]) == 2:
                return self.instance(v)
            if tail == "len" and v[2][0] in (TRUE, FALSE):
                return ("abs", "len")
            if tail in ("list", "tuple", "array", "asarray", "Series") and len(v[2]) >= 1 and v[2][0] in (TRUE, FALSE):
                return v[2][0]
            if tail in ("any", "all", "bool") and v[2] and v[2][0] in (TRUE, FALSE):
                return v[2][0]
        if k == "call" and not isinstance(v[1], str) and "_convert_dat" in fmt(v[1]) and self.convert:
            self.asked.add("convert")
            return self.fail(st, ip) if self.convert == "raise" else ("abs", "converted")
        if k == "new" and v[1] in ("list", "tuple"):
            c = st.heap.get(v)
            if c is not None and c.elems and all(y in (("elem", TRUE), ("elem", FALSE)) for y in c.elems) and len(c.elems) == 1:
                return next(iter(c.elems))[1]
        if k == "item" and v[2][0] == "elem" and v[2][1] == ("call", "range", (("call", "len", (v[1],), ()),), ()):
            return ("elem", v[1])
        if v == ("builtin", "__debug__"):
            return const(self.debug)
        if k == "not" and alts(v[1]) and all(x in (FALSE, NONE) for x in alts(v[1])):
            return TRUE
        if k == "not" and v[1] == TRUE:
            return FALSE
        if k == "op" and v[1] in ("~", "invert") and v[2][0] in (TRUE, FALSE):
            return const(v[2][0] == FALSE)
        if k == "bool" and v[1] in (TRUE, FALSE):
            return v[1]
        return v

    def instance(self, v):
        names = {str(x[1]).split(".")[-1] for x in walk(v[2][1]) if isinstance(x, tuple) and len(x) >= 2 and x[0] in ("builtin", "extern")}
        if names & {"dict", "Mapping"} and self.maker:
            got = {y == ("abs", "dict") or y[0] == "new" and y[1] == "dict" for y in alts(v[2][0])}
            return const(got.pop()) if len(got) == 1 else v
        if names == {"str"} and self.maker:
            got = {y[0] == "fstr" or y[0] == "const" and isinstance(y[1], str) for y in alts(v[2][0]) if not y[0] in ("unknown", "item")}
            return const(got.pop()) if len(got) == 1 else v
        return v

    def compare(self, op, a, b):
        if op in ("In", "NotIn") and self.untyped and any(
                isinstance(x, tuple) and x and x[0] == "attr" and x[2] in ("_data_types", "data_types") for x in walk(b)):
            self.asked.add("untyped")
            return op == "NotIn"
        if op == "Is" and b in (TRUE, FALSE) and alts(a) and \
                all(x[0] in ("abs", "fstr") or x in (TRUE, FALSE, NONE) and x != b for x in alts(a)):
            return False
        if op in ("In", "NotIn") and self.convert == "raise" and any(
                isinstance(x, tuple) and x and x[0] == "attr" and x[2] == "_convert_dat" for x in walk(b)):
            return op == "In"
        if JOINED in alts(a) or JOINED in alts(b):         # the foreign table's columns of a row without a match: NaN
            return op == "NotEq" if op in ("Eq", "NotEq", "Is") else None
        if self.field and op == "Eq" and self.ip:
            for x, y in ((a, b), (b, a)):
                c = self.ip.frames[-1].cur.heap.get(x) if x[0] == "new" else None
                if (c is not None and c.exact and len(c.exact) == 1 or x[0] == "tuple" and len(x) == 2) and \
                        (pk_fields(pieces(y)) or y[0] == "new" and y in self.ip.frames[-1].cur.heap and
                         any(pk_fields(pieces(z)) for z in self.ip.frames[-1].cur.heap[y].elems)):
                    return self.field == "single"
        if self.field and op in ("In", "NotIn") and b[0] in ("item", "elem") and self.table(b[1]) and not pk_fields(pieces(b) - pieces(b[1])):
            return (op == "In") == (self.field == "data")
        if op in ("Eq", "Is"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "attr" and x[2] == "predicate_failure_response" and y[0] == "const" and self.response:
                    return y[1] == self.response
        if op == "Lt" and b == const(float("inf")) and a[0] != "abs" and a != b:
            return True                                   # counts are finite
        if op == "LtE" and a == const(float("inf")) and b != a:
            return False
        if self.counting and op in ("Lt", "LtE") and a[0] == "const" and b[0] != "const" and isinstance(a[1], int):
            self.asked.add("count")
            return a[1] <= (1 if op == "Lt" else 2) or None      # our row is there twice
        if op in ("Eq", "Lt", "LtE") and ("abs", "len") in (a, b):
            o = b if a == ("abs", "len") else a
            if o[0] == "const" and isinstance(o[1], int) and o[1] < 1:
                return op != "Eq" and a == o
        st = self.ip.frames[-1].cur if self.ip else None
        if op in ("In", "NotIn") and st is not None:
            if b[0] == "new":
                c = st.heap.get(b)
                if c is not None and not c.elems and not c.items and not c.exact and ("touched", b) not in st.may:
                    return op == "NotIn"
            if b[0] == "new" and b in st.heap and self.lookup and st.heap[b].elems and all(
                    any(z == WITHOUT for z in pieces(y)) for y in st.heap[b].elems):
                return op == "NotIn"
            if self.lookup and self.field and self.of_dat(a, st):
                for x in alts(a):
                    self.cells |= {z for y in st.heap[x].elems for z in alts(y)} if x[0] == "new" and x in st.heap else {x}
            if self.lookup and self.of_dat(a, st) and not any(x[0] == "idx" for x in walk(a) if isinstance(x, tuple) and x):
                self.asked.add("lookup")
                return op == self.lookup
        return None

    schema = ("self",)
    lookup = debug = untyped = escapes = False
    field = None                                           # which kind of field: data, the single primary key field, one of several
    params = False                                         # are there parameters
    counting = False

    def method(self, ip, base, name, args, kwargs, st, node):
        self.ip = ip
        if name == "valid_data":
            self.asked.add("type")
            ip.emit("tested", node, st, args=tuple(args), by=base)
            return FALSE
        if name == "predicate" and self.predicate is not None:
            self.asked.add("predicate")
            ip.emit("tested", node, st, args=tuple(args), by=base)
            return self.fail(st, ip) if self.predicate == RAISE else self.predicate
        if name == "predicate_kwargs_maker" and self.maker:
            self.asked.add("maker")
            return self.fail(st, ip) if self.maker == "raise" else ("abs", "dict") if self.maker == "dict" else ("abs", "list")
        if name == "duplicated" and self.of_dat(base, st):
            self.asked.add("duplicated")
            ip.emit("tested", node, st, args=tuple(args), by=base)
            return TRUE
        if name in ("join", "merge") and self.lookup and not (base[0] == "const" and isinstance(base[1], str)) and self.of_dat(base, st):
            ip.note_try(st)
            return JOIN
        if base == JOINED and name in ("isnull", "isna"):
            return TRUE
        if base == JOINED and name in ("notnull", "notna"):
            return FALSE
        if base == JOINED and name == "fillna" and args:
            return args[0]
        if base in (TRUE, FALSE):
            if name in ("any", "all", "copy", "values", "to_numpy", "astype", "tolist", "fillna", "item"):
                return base
            if name in ("apply", "map") and args:
                return self.each(ip, args[0], base, st, node)
            if name == "sum":
                return ("abs", "len") if base == TRUE else const(0)
            return None
        if alts(base) and all(x[0] in ("abs", "fstr") for x in alts(base)) and name in ("apply", "map") and args:
            return self.each(ip, args[0], base, st, node)
        if name in ("apply", "map", "transform") and args and base[0] == "item" and self.table(base[1]):
            return self.each(ip, args[0], ("elem", base), st, node)
        return None

    def each(self, ip, f, x, st, node):
        if f[0] not in ("func", "bound", "builtin", "extern"):
            return None
        r = self.value(ip.call_value(f, [x], {}, st, node), st, ip)
        ip.frames[-1].cur = st
        return r

    def item(self, b, k, st):
        if JOIN in alts(b):
            return WITH if k == TRUE else WITHOUT if k == FALSE else JOINED
        if b in (WITH, WITHOUT):
            return b
        return None

    def pick(self, node, a, b):
        return a, b

    def elem(self, x):
        return None

    def made(self, site, st):
        c = st.heap.get(site)
        inner = {x for v in [*c.elems, *(y for kv in c.items for y in kv)] for x in walk(v) if isinstance(x, tuple) and x and x[0] == "new"} \
            if c is not None else ()
        st.may = (st.may - {("touched", site), *(("fresh", x) for x in inner)}) | {("miss", site), ("fresh", site)}


JOIN = ("method", ("abs", "rows"), "join", (), ())
JOINED, WITH, WITHOUT = ("abs", "joined"), ("abs", "the joined rows with ours"), ("abs", "the joined rows without ours")


def apply_rows(ip, q, recv, args, kwargs, st, node, star, dstar):
    """utils.faster_df_apply: the function on our row"""
    df = args[0] if args else kwargs.get("df")
    fn = args[1] if len(args) > 1 else kwargs.get("func")
    if df is None or fn is None:
        return None
    return ip.call_value(fn, [("elem", df)], {}, st, node)


def pk_fields(xs):
    return any(x[0] == "attr" and x[2].endswith("primary_key_fields") for x in xs)


class Null:
    """a null value, or a value that is not null"""

    def __init__(self, null):
        self.null = null

    def value(self, v, st, ip):
        if v[0] == "call" and v[2] and v[2][0] in (NONE, ("abs", "nan"), ("abs", "value")) and str(v[1]).split(".")[-1] in ("isnull", "isna"):
            return const(self.null)
        b = self.truth(v) if v[0] != "extern" else None
        return v if b is None else const(b)

    def truth(self, v):
        if v in (TRUE, FALSE):
            return v == TRUE
        if v[0] == "extern":
            return True
        if v[0] == "not":
            b = self.truth(v[1])
            return None if b is None else not b
        if v[0] in ("and", "or"):
            bs = {self.truth(x) for x in v[1]}
            return (v[0] == "or") if (v[0] == "or") in bs else None if None in bs else v[0] == "and"
        if v[0] == "bool":
            return self.truth(v[1])
        if v[0] == "call" and v[1] in ("bool", "builtin.bool") and v[2]:
            return self.truth(v[2][0])
        return None

    def compare(self, op, a, b):
        return {"Is": False, "Eq": False}.get(op) if (a[0] == "abs") != (b[0] == "abs") and NONE in (a, b) else None

    def method(self, ip, base, name, args, kwargs, st, node):
        return const(self.null) if name in ("isnull", "isna") and args else None

    def item(self, b, k, st):
        return None

    def pick(self, node, a, b):
        return a, b

    def elem(self, x):
        return None

    def made(self, site, st):
        pass


def untyped(ctx, rep, q):
    """primary key fields without a data type are given, on every path, a filter that rejects null and nothing else"""
    dat = ("param", q, ctx.prog.fn(q).params[1])
    c = scan(ctx, rep, q, lambda: with_(Scenario(dat), untyped=True))
    if "untyped" not in c.sc.asked:
        raise AnchorError(f"{q}: the fields without a data type are not looked for")
    for where, ok, _ in c.out:
        rep.ob("untyped", f"{q} {where}", ok, key=f"{q}:untyped",
               what=f"{where} {q}: a primary key field without a data type may be left without the filter that rejects null")
    for f in c.filters:
        m = next((ctx.prog.classes[b].methods["valid_data"] for b in ctx.interp([]).mro(f) if "valid_data" in ctx.prog.classes[b].methods), None)
        for null in (True, False):
            got = None
            if m:
                ip = ctx.interp([])
                ip.dom = Null(null)
                b = set()
                for v in (NONE, ("abs", "nan")) if null else (("abs", "value"),):
                    got, _ = ip.run_entry(m, self_term=("self", f), args={ctx.prog.fn(m).params[1]: v})
                    b |= {ip.dom.truth(x) for x in alts(got)}
                got = const(b.pop()) if len(b) == 1 and None not in b else None
            rep.ob("untyped", f"{q} {f} null={null}", got == const(not null), key=f"{q}:filter:{null}",
                   what=f"{q}: the filter of primary key fields without a data type ({f}) " +
                        ("lets null through" if null else "rejects values that are not null"))


UNTYPED = ("untyped",)                                  # stands for the filter a primary key field without a data type is given


class Scan(Client):
    """marks fresh containers that may be without our row: ("miss", container) in st.may"""

    def __init__(self, ctx, q, sc):
        self.ctx, self.q, self.sc, self.out, self.saved, self.active, self.left = ctx, q, sc, [], {}, [], set()
        self.filters, self.keys, self.keysof, self.replaced = set(), {}, {}, []
        self.records, self.tested, self.loops, self.over, self.from_, self.result = [], [], {}, set(), {}, set()

    def schema(self, t):
        r = root(t)
        return r[0] in ("self", "inst") or r[0] == "param" and r != self.sc.dat and r[2] in self.sc.schema

    def known(self, t, st, made=None):
        """does iterating t come to our element?  (made: the container being made of it, which t cannot be yet)"""
        bs = [b for b in alts(t) if root(b) != made]
        if len(bs) > 1:                                   # nothing holds a container that was not put anywhere yet
            bs = [b for b in bs if ("fresh", root(b)) not in st.may]
        if not bs or t == UNKNOWN:
            return False
        for b in bs:
            r = root(b)
            if r == self.sc.dat or self.schema(b) or r in (TRUE, WITH):
                continue
            if self.has(r, st):
                continue
            if is_nt(b) and any(self.known(y, st) for y in b[2]):
                continue
            if r[0] == "mix" and self.sc.dat in r[1]:
                continue
            if r[0] == "tuple" or r[0] == "const":
                continue
            return False
        return True

    def live(self, conds, st):
        out = []
        for c in conds:
            if any(self.decided(t, st) is p for t, p in c):
                continue
            if len(c) == 1:
                (t, p), = c
                if p and t[0] == "cmp" and t[1] == "in" and self.known(t[3], st):
                    continue
            out.append(c)
        return out

    def decided(self, t, st=None):
        if t in self.sc.true:
            return True
        if t[0] in ("item", "method") and t[1][0] == "attr" and t[1][2].endswith("primary_key_fields") and \
                not T.is_const(t[2]):
            return self.sc.keyed
        if t[0] == "attr" and t[2] == "predicate_kwargs_maker" and (self.sc.maker in ("raise", "list") or self.sc.convert == "raise"):
            return True
        if t[0] == "attr" and t[2] == "_convert_dat" and self.sc.convert == "raise":
            return True
        if t[0] == "new" and st is not None:
            c = st.heap.get(t)
            if c is not None and not c.elems and not c.items and not c.exact and ("touched", t) not in st.may:
                return False
            if self.has(t, st):
                return True
        if st is not None and len(alts(t)) > 1:
            ds = {self.decided(x, st) for x in alts(t)}
            return ds.pop() if len(ds) == 1 else None
        return None

    def forget(self, st, t):
        st.facts = frozenset(c for c in st.facts if not any(l == t for l, _ in c))

    def has(self, x, st):
        return x[0] == "new" and x in st.heap and ("miss", x) not in st.may

    def full(self, x, st, seen=()):
        """does the container hold our row, and the containers in it?"""
        if not self.has(x, st):
            return False
        c = st.heap[x]
        for v in [v for _, v in c.items] or list(c.elems):
            for y in self.within(v):
                if y not in seen and not self.full(y, st, seen + (x,)):
                    return False
        return True

    def within(self, v):
        for x in alts(v):
            if x[0] == "new":
                yield x
            elif x[0] == "tuple" or is_nt(x):
                for y in x[2] if is_nt(x) else x[1:]:
                    yield from self.within(y)

    def hold(self, x, st):
        st.may = st.may - {("miss", x)}

    def marks(self, st):
        return frozenset(m for m in st.may if m[0] == "miss")

    def put(self, st, marks):
        st.may = frozenset(m for m in st.may if m[0] != "miss") | frozenset(marks)

    def event(self, ev, ip):
        k = ev.kind
        key = (id(ev.node), len(ev.stack))
        if k == "iter" and "elem" in ev.data:
            must = not self.live(ev.conds, ev.st) and self.known(ev.over, ev.st)
            self.saved[key] = (self.marks(ev.st), must)
            self.left.discard(key)
            self.loops[key] = (self.ctx.loc(ev.fn, ev.node), must)
            if must:
                self.over |= {x for x in self.parts(ev.over)}
        elif k == "loop_enter":
            if key in self.saved:
                self.put(ev.st, self.saved[key][0])
                if key not in self.active:
                    self.active.append(key)
        elif k == "loop_exit":
            if key in self.active:
                self.active.remove(key)
            if key in self.saved:
                base, must = self.saved[key]
                if must and not ev.breaks and key not in self.left and ev.body_must is not None:
                    self.put(ev.st, frozenset(m for m in ev.body_may if m[0] == "miss"))
                elif must and ev.body_must is None and key not in self.left and not ev.breaks:
                    ev.st.dead = True                     # for our element the body never completes
                else:
                    self.put(ev.st, base | self.marks(ev.st))
        elif k == "branch":
            for x in list(walk(ev.cond)):
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    d = self.decided(x, ev.st)
                    if d is not None:
                        self.forget(ev.st, x)
                        ev.st.facts = ev.st.facts | {frozenset([(x, d)])}
        elif k == "comp":
            ev.st.may = ev.st.may - {("fresh", x) for x in self.news([ev.value, ev.key or NONE], ev.st)}
            self.from_.setdefault(ev.made, set()).update(self.news(list(ev.over) + [ev.value, ev.key or NONE], ev.st))
            if all(self.known(o, ev.st, ev.made) for o in ev.over) and not self.live(ev.conds, ev.st):
                self.hold(ev.made, ev.st)
                self.over |= {x for o in ev.over for x in self.parts(o)}
        elif k == "copied":
            self.from_.setdefault(ev.made, set()).update(self.news(ev.over, ev.st))
            if any(self.known(o, ev.st) for o in ev.over):
                self.hold(ev.made, ev.st)
        elif k == "mutate" and ev.method in ("add", "append", "update", "extend", "setdefault"):
            for b in alts(ev.base):
                r = root(b)
                self.forget(ev.st, r)
                if r[0] == "new" and ev.args:
                    self.record(ev, r, b, ev.args[-1])
        elif k == "setitem":
            if self.sc.untyped and ev.key[0] == "elem" and pk_fields(pieces(ev.key)) and \
                    any(x[0] == "attr" and x[2] in ("_data_types", "data_types") for x in pieces(ev.base)):
                self.filters |= {x[1] if x[0] == "inst" else fmt(x) for x in alts(ev.value)}
                self.hold(UNTYPED, ev.st)
            for b in alts(ev.base):
                r = root(b)
                self.forget(ev.st, r)
                if r[0] == "new":
                    c = ev.st.heap.get(b)
                    if c is not None and c.elems and ev.key[0] == "const" and ("miss", b) not in ev.st.may and ("touched", b) not in ev.st.may:
                        self.replaced.append((self.ctx.loc(ev.fn, ev.node), b, ev.key, self.spread([ev.value], ev.st) & (
                            {v for _, v in c.items} | set(c.elems))))
                    self.record(ev, r, ("item", b, ev.key), ev.value)
        elif k == "delitem" or k == "mutate" and ev.method in ("pop", "clear", "discard", "remove", "popitem"):
            for r in map(root, alts(ev.base)):
                if r[0] == "new":
                    ev.st.may = ev.st.may | {("miss", r)}
        elif k == "tested":
            self.tested.append((ev, self.spread(ev.args, ev.st)))
        elif k == "return":
            mine = [a for a in self.active if a[1] == len(ev.stack)]
            if mine:
                self.left |= set(mine)
                self.put(ev.st, self.saved[mine[0]][0] | self.marks(ev.st))
            if len(ev.stack) == 1 and ev.frame.fn.qual == self.q:
                if self.sc.untyped:
                    self.out.append((self.ctx.loc(ev.fn, ev.node), ("miss", UNTYPED) not in ev.st.may, ""))
                    return
                ok = [x for x in alts(ev.value) if not self.full(x, ev.st)]
                self.result |= self.news([ev.value], ev.st)
                self.out.append((self.ctx.loc(ev.fn, ev.node), not ok, fmt(ev.value)[:80]))

    def parts(self, t):
        for b in alts(t):
            while True:
                yield b
                if b[0] == "view":
                    b = b[2]
                elif b[0] in ("enumerate",):
                    b = b[1]
                else:
                    break

    def record(self, ev, r, place, value):
        self.hold(r, ev.st)
        ev.st.may = (ev.st.may | {("touched", r)}) - {("fresh", x) for x in self.news([value], ev.st)}
        self.records.append((self.ctx.loc(ev.fn, ev.node), r, place, value))
        keys, p = [], place
        while p[0] in ("item", "method"):
            keys.append(p[2] if p[0] == "item" else p[3][0] if p[3] else NONE)
            p = p[1]
        keys = self.spread(keys, ev.st)
        for x in [x for x in keys if x[0] == "new"]:
            keys |= self.keysof.get(x, set())
        self.keysof.setdefault(r, set()).update(keys)
        self.keys.setdefault((place, value), set()).update(keys)
        self.from_.setdefault(r, set()).update(self.news([value], ev.st) - {r})

    def news(self, ts, st):
        return {x for t in ts for x in walk(t) if isinstance(x, tuple) and x and x[0] == "new"}

    def spread(self, ts, st):
        """the terms a value is made of, with what the containers in it hold"""
        out, work = set(), list(ts)
        while work:
            t = work.pop()
            for x in walk(t):
                if isinstance(x, tuple) and x and isinstance(x[0], str) and x not in out:
                    out.add(x)
                    if x[0] == "new" and x in st.heap:
                        c = st.heap[x]
                        work += list(c.elems) + [v for kv in c.items for v in kv]
        return out

    def final(self):
        """the records that reach the result"""
        reach, work = set(), list(self.result)
        while work:
            x = work.pop()
            if x not in reach:
                reach.add(x)
                work += list(self.from_.get(x, ()))
        return [r for r in self.records if r[1] in reach and self.holds(r[1], reach)]

    def holds(self, r, reach):
        return r in self.result or any(r in self.from_.get(x, ()) for x in reach)




INF = const(float("inf"))


def scan(ctx, rep, q, make, eh=None):
    """one run (a second one assuming what the loops go over is not empty, should the first one find a way out)"""
    ps = ctx.prog.fn(q).params
    args = {k: v for k, v in (("max_failures", INF), ("exception_handling", eh and const(eh))) if k in ps and v}
    true = set()
    for _ in range(2):
        sc = make()
        sc.true = true
        c = Scan(ctx, q, sc)
        ip = ctx.interp([c], opaque=OPAQUE, models={"utils.faster_df_apply": apply_rows})
        ip.dom = sc
        ip.run_entry(q, args=args, st=State(may=frozenset([("miss", UNTYPED)])) if sc.untyped else None)
        rep.fns |= ip.fns_seen
        c.fns = set(ip.fns_seen)
        if c.out and all(o[1] for o in c.out):
            break
        true = set(c.over)
    return c


def is_nt(v):
    return v[0] == "call" and isinstance(v[1], tuple) and v[1][0] == "nt"


def pieces(t):
    return {x for x in walk(t) if isinstance(x, tuple) and x and isinstance(x[0], str)}


ASKS = {"type": "valid_data", "predicate": "predicate", "maker": "predicate_kwargs_maker", "duplicated": "duplicated"}


def complete(rep, c, q, label, asks, none=False):
    for a in asks:
        if a in c.sc.asked:
            rep.reached.add((q, a))
        elif (q, a) in rep.reached:
            rep.ob("found", f"{q} [{label}]", False, key=f"{q}:{label}", what=f"{q}: {label}, and the row is not put to the test")
            return
        elif any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == ASKS.get(a)
                 for f in {q} | c.fns for n in ast.walk(c.ctx.prog.fn(f).node)):
            rep.ob("found", f"{q} [{label}]", False, key=f"{q}:{label}", what=f"{q}: {label}, and the row is not put to the test")
            return
        else:
            raise AnchorError(f"{q} [{label}]: the scan does not come to the {a} test")
    if none:
        rep.ob("raises", f"{q} [{label}]", not c.out, key=f"{q}:{label}",
               what=f"{c.out and c.out[0][0]} {q}: {label}, yet the scan may come to its end")
        return
    if not c.out:
        rep.ob("found", f"{q} [{label}]", False, key=f"{q}:{label}", what=f"{q}: {label}, and the scan never returns")
    if c.sc.escapes:
        rep.ob("found", f"{q} [{label}]", False, key=f"{q}:escapes:{label}", what=f"{q}: {label}, and the exception may come out of the scan")
    for where, ok, what in c.out:
        rep.ob("found", f"{q} {where} [{label}]", ok, key=f"{q}:{label}",
               what=f"{where} {q}: {label}, yet the result may be without it")


def keyed_by(rep, c, q, label, dat, ids):
    """the records that reach the result: under the right table and name, and of the row looked at"""
    tables = {x for _, sp in c.tested for x in sp if x[0] in ("getattr", "attr") and x[1] == dat}
    recs = c.final()
    n = 0
    for where, r, place, value in recs:
        keys = c.keys[place, value]
        for ev, sp in c.tested:
            if ev.data.get("by") is None:
                continue
            names = []
            b = ev.by
            while b[0] in ("item", "attr"):
                if b[0] == "item":
                    names.append(b[2])
                b = b[1]
            for nm in names[:2]:
                if any(nm == x for x in (t[2] for t in tables)) or nm[0] == "elem":
                    n += 1
                    rep.ob("key", f"{q} {where} [{label}]", nm in keys, key=f"{q}:{where}",
                           what=f"{where} {q}: the failure is recorded under a key without {fmt(nm)[:70]}")
    got = set()
    for where, r, place, value in recs:
        for v in alts(value):
            vs = list(v[2]) if is_nt(v) else v[1:] if v[0] == "tuple" else [v]
            for y in vs:
                got |= {z for z in ids(y)}
    return recs, got


def row_ids(dat, keyed):
    def f(v):
        if v[0] == "elem" and v[1][0] in ("getattr", "attr") and v[1][1] == dat and keyed:
            yield v[1]
        if not keyed and v[0] in ("idx", "elem"):
            t = v[1]
            if v[0] == "elem" and not any(x[0] == "call" and x[1] in ("range", "len") for x in walk(t) if isinstance(x, tuple) and x):
                return
            while t[0] not in ("getattr", "attr") or t[1] != dat:
                if t[0] in ("call", "enumerate", "elem") and len(t) > 1:
                    t = t[2][0] if t[0] == "call" and t[2] else t[1]
                else:
                    return
            yield t
    return f


def ident(rep, c, q, label, dat, keyed):
    recs, got = keyed_by(rep, c, q, label, dat, row_ids(dat, keyed))
    rep.ob("row", f"{q} [{label}]", bool(got), key=f"{q}:row:{label}",
           what=f"{q}: {label}, and what is recorded does not tell the row ({'primary key' if keyed else 'position'})")


FEWER = {"drop_duplicates", "head", "tail", "sample", "dropna", "nlargest", "nsmallest", "query", "filter", "truncate", "first", "last", "unique",
         "drop", "groupby", "take"}


def values(rep, c, q, label, dat):
    """what is put to the type test is the cell, or None in place of a null one"""
    for ev, sp in c.tested:
        where = c.ctx.loc(ev.fn, ev.node)
        vs = [x for a in ev.args[:1] for x in alts(a)]
        bad = [x for x in vs if x != NONE and x[0] == "const"]
        rep.ob("value", f"{q} {where} [{label}]", bool(vs) and not bad, key=f"{q}:value:{where}",
               what=f"{where} {q}: {fmt(bad[0])[:60] if bad else 'nothing'} may be put to the type test in place of the cell")


def frames(rep, c, q, label, dat):
    recs, _ = keyed_by(rep, c, q, label, dat, lambda v: ())
    for where, r, place, value in recs:
        if place[0] != "item":
            continue
        for v in alts(value):
            if v[0] in ("const",) and v != FALSE or is_nt(v):
                continue
            ok = v == TRUE or any(x[0] == "item" and x[2] == TRUE for x in pieces(v)) or \
                v[0] == "new" and v[1] in ("dict", "defaultdict")
            ok = ok and not any(x[0] == "method" and x[2] in FEWER and any(y[0] == "item" and y[2] == TRUE for y in pieces(x[1])) for x in pieces(v))
            rep.ob("row", f"{q} {where} [{label}]", ok, key=f"{q}:row:{where}",
                   what=f"{where} {q}: {label}, and what is recorded are not the rows that fail ({fmt(v)[:80]})")


def C17(ctx, rep):
    rules_memo.within(ctx, rep, [c + '.find_' + k + '_failures' for c in FACTORIES for k in ('data_type', 'data_row', 'foreign_key')])
    rep.rule("found", "one arbitrary row fails the test (its value is not of the data type, its predicate is false or gives a message, its "
             "look up fails, its key is there twice): every path of the unlimited scan returns a result that holds it")
    rep.rule("key", "what is recorded about it is kept under the table and the field or predicate the test came from")
    rep.rule("row", "what is recorded tells the row: its primary key, or its position in a table without one; for a pan dat the mask of the "
             "failing rows or the rows it selects")
    rep.rule("value", "what is put to the type test is the cell, or None for a null one")
    rep.rule("argument", "a row predicate is given the whole row: the primary key fields and the data fields")
    rep.rule("cell", "what a foreign key looks up is the row's own value of the field, whichever kind of field it is")
    rep.rule("kept", "no predicate is put out of the scan by the check of the parameters")
    rep.rule("untyped", "primary key fields without a data type are scanned against a type that rejects null")
    for keyed in (True, False):
        kl = "in a table with a primary key" if keyed else "in a table without a primary key"
        q = TDF + ".find_data_type_failures"
        dat = ("param", q, ctx.prog.fn(q).params[1])
        lb = f"a cell {kl} is not of its data type"
        c = scan(ctx, rep, q, lambda: Scenario(dat, keyed))
        complete(rep, c, q, lb, ["type"])
        values(rep, c, q, lb, dat)
        ident(rep, c, q, lb, dat, keyed)
        q = TDF + ".find_foreign_key_failures"
        dat = ("param", q, ctx.prog.fn(q).params[1])
        for field in ("data", "single", "part") if keyed else ("data",):
            lb = f"a row {kl} has no match in the foreign table, by {FIELDS[field]}"
            c = scan(ctx, rep, q, lambda: with_(Scenario(dat, keyed), lookup="NotIn", field=field))
            complete(rep, c, q, lb, ["lookup"])
            ident(rep, c, q, lb, dat, keyed)
            cells(rep, c, q, lb, dat, keyed, field)
        q = TDF + ".find_data_row_failures"
        dat = ("param", q, ctx.prog.fn(q).params[1])
        for r, p, w in KINDS:
            for eh in ("Handled as Failure", "Unhandled"):
                lb = f"the predicate of a row {kl} {w}"
                c = scan(ctx, rep, q, lambda: Scenario(dat, keyed, r, p, "dict"), eh)
                complete(rep, c, q, lb, ["predicate"])
                ident(rep, c, q, lb, dat, keyed)
                argument(rep, c, q, dat, keyed)
        c = scan(ctx, rep, q, lambda: with_(Scenario(dat, keyed, r, p, "dict"), params=True), eh)
        kept(rep, c, q, lb)
    untyped(ctx, rep, TDF + ".find_data_type_failures")
    untyped(ctx, rep, PDF + ".find_data_type_failures")
    q = PDF + ".find_data_type_failures"
    dat = ("param", q, ctx.prog.fn(q).params[1])
    lb = "a cell is not of its data type"
    c = scan(ctx, rep, q, lambda: Scenario(dat))
    complete(rep, c, q, lb, ["type"])
    values(rep, c, q, lb, dat)
    frames(rep, c, q, lb, dat)
    q = PDF + ".find_duplicates"
    dat = ("param", q, ctx.prog.fn(q).params[1])
    lb = "a row's primary key is there twice"
    c = scan(ctx, rep, q, lambda: Scenario(dat))
    complete(rep, c, q, lb, ["duplicated"])
    frames(rep, c, q, lb, dat)
    duplicated(rep, c, q)
    q = PDF + ".find_foreign_key_failures"
    dat = ("param", q, ctx.prog.fn(q).params[1])
    lb = "a row has no match in the foreign table"
    c = scan(ctx, rep, q, lambda: with_(Scenario(dat), lookup="In"))
    complete(rep, c, q, lb, ["lookup"])
    frames(rep, c, q, lb, dat)
    q = PDF + ".find_data_row_failures"
    dat = ("param", q, ctx.prog.fn(q).params[1])
    for r, p, w in KINDS:
        for eh in ("Handled as Failure", "Unhandled"):
            lb = f"the predicate of a row {w}"
            c = scan(ctx, rep, q, lambda: Scenario(dat, True, r, p, "dict"), eh)
            complete(rep, c, q, lb, ["predicate"])
            frames(rep, c, q, lb, dat)
            argument(rep, c, q, dat, None)
    c = scan(ctx, rep, q, lambda: with_(Scenario(dat, True, r, p, "dict"), params=True), eh)
    kept(rep, c, q, lb)
    for q in ("utils.find_duplicates", "utils.find_duplicates_from_dict_ticdat"):
        ps = ctx.prog.fn(q).params
        dat = ("param", q, ps[0] if q.endswith("duplicates") else ps[1])
        lb = "two rows have the same primary key"
        c = scan(ctx, rep, q, lambda: with_(Scenario(dat), counting=True, schema=tuple(p for p in ps if p != dat[2])))
        complete(rep, c, q, lb, ["count"])


KINDS = (("Boolean", FALSE, "is false"), ("Boolean", NONE, "is None"), ("Error Message", MSG, "gives a message"),
         ("Error Message", FALSE, "gives False in place of a message"))


FIELDS = {"data": "a data field", "single": "the only primary key field", "part": "one of several primary key fields"}


def cells(rep, c, q, label, dat, keyed, field):
    """what is looked up is the row's own value of a field the foreign key maps"""
    def native(t):
        return t[0] in ("getattr", "attr") and t[1] == dat and t[2][0] != "attr"

    def cell(v):
        if field == "single":
            return v[0] == "elem" and native(v[1])
        if v[0] != "item":
            return False
        if field == "part":
            return v[1][0] == "elem" and native(v[1][1]) and v[2][0] != "const"
        row = v[1]
        ok = row[0] == "item" and native(row[1]) and row[2] == ("elem", row[1]) if keyed else \
            row[0] == "elem" and native(row[1]) or row[0] == "item" and native(row[1]) and row[2][0] in ("idx", "elem")
        return ok and v[2][0] != "const"
    bad = sorted(fmt(v)[:80] for v in c.sc.cells if not cell(v))
    rep.ob("cell", f"{q} [{label}]", bool(c.sc.cells) and not bad, key=f"{q}:cell:{label}",
           what=f"{q}: {label}, and what is looked up is not the value of that field ({'; '.join(bad)[:160]})")


def kept(rep, c, q, label):
    for where, b, key, own in c.replaced:
        rep.ob("kept", f"{q} {where}", bool(own) or b not in c.over, key=f"{q}:kept",
               what=f"{where} {q}: what there was to test under {fmt(key)} is put out of the scan")


def with_(sc, **kw):
    for k, v in kw.items():
        setattr(sc, k, v)
    return sc


def whole(t, dat):
    """is it a table of the data object, with all its rows in order"""
    while t[0] == "method" and t[2] in ("copy", "itertuples", "iterrows", "reset_index", "rename", "astype", "assign", "to_dict"):
        t = t[1]
    return t[0] in ("getattr", "attr") and t[1] == dat or t[0] == "attr" and t[2] in ("index", "columns", "values", "T")


def argument(rep, c, q, dat, keyed):
    if not c.tested:
        raise AnchorError(f"{q}: no call of a row predicate was followed")
    for ev, sp in c.tested:
        where = c.ctx.loc(ev.fn, ev.node)
        tb = {x for x in sp if x[0] in ("getattr", "attr") and x[1] == dat}
        ok = bool(tb)
        if keyed:
            ok = ok and any(("elem", t) in sp and any(x[0] == "item" and x[1] == t for x in sp) for t in tb)
        elif keyed is False:
            ok = ok and any(("elem", t) in sp for t in tb)
        if keyed is None:
            ok = ok and all(whole(x[1], dat) for x in sp if x[0] == "elem" and x[1][0] in ("method", "item", "new", "call") and tb & pieces(x[1]))
        ok = ok and not any(x[0] == "new" and x[1] == "dict" and ("miss", x) in ev.st.may for a in ev.args[:1] for x in alts(a))
        rep.ob("argument", f"{q} {where}", ok, key=f"{q}:argument:{where}",
               what=f"{where} {q}: the predicate is not given the whole row")


def C16(ctx, rep):
    rules_memo.within(ctx, rep, [c + '.find_data_row_failures' for c in FACTORIES])
    rep.rule("found", "the predicate, the maker of its keyword arguments or the conversion for it raises (or the maker gives something that "
             "is not a dictionary) for one arbitrary row: under 'Handled as Failure' every path returns a result that holds an entry for it")
    rep.rule("raises", "under 'Unhandled' the exception comes out: no path reaches the end of the scan")
    rep.rule("row", "the entry made for a predicate that raised tells the row, as any other failure")
    H, U, D = "Handled as Failure", "Unhandled", "__debug__"
    for q, kinds in ((TDF + ".find_data_row_failures", (True, False)), (PDF + ".find_data_row_failures", (True,))):
        dat = ("param", q, ctx.prog.fn(q).params[1])
        for keyed in kinds:
            kl = " in a table with a primary key" if keyed else " in a table without a primary key"
            for eh, debug in ((H, None), (U, None), (D, True), (D, False)):
                out = eh == U or debug is True
                el = f"exception_handling {eh}" + ("" if debug is None else f", __debug__ {debug}")
                for r in ("Boolean", "Error Message"):
                    lb = f"a {r} predicate raises{kl}, {el}"
                    c = scan(ctx, rep, q, lambda: with_(Scenario(dat, keyed, r, RAISE, "dict"), debug=debug), eh)
                    complete(rep, c, q, lb, ["predicate"], none=out)
                    if not out:
                        (ident if q.startswith(TDF) else lambda *a: frames(*a[:-1]))(rep, c, q, lb, dat, keyed)
                for m, w in (("raise", "raises"), ("list", "gives something that is not a dictionary")):
                    lb = f"the keyword argument maker{kl} {w}, {el}"
                    c = scan(ctx, rep, q, lambda: with_(Scenario(dat, keyed, None, TRUE, m), debug=debug), eh)
                    complete(rep, c, q, lb, ["maker"], none=out and m == "raise")
                lb = f"the conversion of the data for a keyword argument maker raises{kl}, {el}"
                c = scan(ctx, rep, q, lambda: with_(Scenario(dat, keyed, None, TRUE, "dict", "raise"), debug=debug), eh)
                complete(rep, c, q, lb, ["convert"], none=out)


def duplicated(rep, c, q):
    for ev, sp in c.tested:
        where = c.ctx.loc(ev.fn, ev.node)
        rep.ob("argument", f"{q} {where}", any(x[0] in ("attr",) and x[2].endswith("primary_key_fields") for x in sp),
               key=f"{q}:argument", what=f"{where} {q}: the duplicates are not looked for by the primary key fields")
