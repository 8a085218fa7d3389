"""C14: what the conversion of the parameters table makes of a value, by abstract interpretation over classes of values and of data types."""
from . import terms as T
from .ctx import *
from .interp import State
from .rules_inf import Domain, TEXT, WORDS, A, kind

PR = TDF + "._parameter_table_post_read_adjustment"
EMPTY = const("")
WORD = dict(WORDS, mid="a number", txt="a text", date="a date", empty="the empty text", **{"t:mid": "the text of a number"})


class Typing(Domain):
    """`opt`: is the parameter declared; `td`: what its data type says (None: it has none)"""

    def __init__(self, dat, cell, opt, td, dates):
        super().__init__(None, None, None, None, False, dates)
        self.dat, self.cell, self.opt, self.td = dat, cell, opt, td

    def tbl(self, t):
        return t[0] in ("getattr", "attr") and t[1] == self.dat and t[2] in ("parameters", const("parameters"))

    def row(self, t):
        return t[0] == "item" and self.tbl(t[1]) or t[0] == "elem" and t[1][0] == "view" and t[1][1] == "values" and self.tbl(t[1][2])

    def declared(self, t):
        """is it the collection of the declared parameters"""
        return t[0] == "attr" and t[2] in ("_parameters", "parameters") and t[1][0] in ("self", "inst") or \
            t[0] == "call" and str(t[1]).endswith("TicDatFactory.parameters") or \
            t[0] in ("call", "new", "inst") and "_parameters" in fmt(t) and not self.tbl(t) and self.dat not in list(walk(t))

    def value(self, v, st, ip):
        if self.declared(v):
            return A("declared")
        if v[0] == "new" and v in st.heap and any("_parameters" in fmt(x) for x in [*st.heap[v].elems, *(y for kv in st.heap[v].items for y in kv)]):
            return A("declared")
        if v[0] in ("attr", "getattr") and v[1] in (A("option"), NONE) and v[2] in ("type_dictionary", const("type_dictionary")):
            return A("td") if self.td and v[1] != NONE else NONE
        if v[0] == "attr" and v[1] == A("td"):
            got = {"number_allowed": self.td["number"], "nullable": self.td["none"], "datetime": self.td["date"],
                   "strings_allowed": const("*" if self.td["text"] else "")}.get(v[2])
            return got if isinstance(got, tuple) else v if got is None else const(got)
        if v[0] == "item" and self.row(v[1]):
            return self.cell
        if v[0] in ("call", "method") and "valid_data" in str(v[1] if v[0] == "call" else v[2]):
            k = kind((v[2] if v[0] == "call" else v[3])[-1])
            r = self.valid(k)
            return v if r is None else const(r)
        return super().value(v, st, ip)

    def valid(self, k):
        td = self.td
        if td is None:
            return None
        if k == "none":
            return td["none"]
        if k == "date":
            return td["date"]
        if k in TEXT or isinstance(k, tuple) and k[0] == "str":
            return td["date"] and self.dates and k in TEXT or td["text"] and not td["date"]
        if k == "mid":
            return td["number"] and not td["date"]
        return None

    def unary(self, name, a):
        if name in ("int", "trunc", "floor", "round"):
            return a if kind(a) == "mid" else ("abs", "raise") if kind(a) in ("none", "txt", "date") else None
        if name in ("float", "to_numeric") and a == EMPTY:
            return ("abs", "raise")
        if name in ("isnull", "isna", "notnull", "notna") and a == EMPTY:
            return const(name.startswith("not"))
        if name == "stringish" and a == EMPTY:
            return TRUE
        return super().unary(name, a)

    def equal(self, a, b, identity=False):
        if ("str", "") in (a, b) and (a in TEXT or b in TEXT):
            return False
        if a == b == "mid":
            return True                                    # one and the same number
        if a == "date" or b == "date":
            return True if a == b else False
        return super().equal(a, b, identity)

    def item(self, b, k, st):
        if b == A("declared"):
            return A("option") if self.opt else UNKNOWN
        return super().item(b, k, st)

    def compare(self, op, a, b):
        if b == A("declared") and op in ("In", "NotIn"):
            return (op == "In") == self.opt
        return super().compare(op, a, b)

    def method(self, ip, base, name, args, kwargs, st, node):
        if base == A("declared") and name == "get":
            return A("option") if self.opt else (args[1] if len(args) > 1 else NONE)
        if base == A("td") and name == "valid_data" and args:
            self.asked = True
            r = self.valid(kind(args[0]))
            return None if r is None else const(r)
        if base == EMPTY and name in ("strip", "lower", "upper"):
            return EMPTY
        return super().method(ip, base, name, args, kwargs, st, node)


class Kept(Client):
    """the classes the value may have in the table: ("kept", term) in st.may"""

    def __init__(self, ctx, q, dom):
        self.ctx, self.q, self.dom, self.out, self.saved, self.reached, self.active = ctx, q, dom, [], {}, False, []
        self.early = set()

    def event(self, ev, ip):
        d = self.dom
        key = (id(ev.node), len(ev.stack))
        if ev.kind == "iter" and "elem" in ev.data:
            b = ev.over
            while b[0] in ("view", "call", "enumerate") or b[0] == "method" and b[2] in ("items", "values", "keys", "copy"):
                nb = b[2] if b[0] == "view" else b[2][0] if b[0] == "call" and b[2] else b[1]
                if not isinstance(nb, tuple):
                    break
                b = nb
            if b[0] == "new" and b in ev.st.heap:
                c = ev.st.heap[b]
                if not c.conds and any(d.tbl(x) for y in c.elems for x in walk(y) if isinstance(x, tuple) and x):
                    self.saved[key] = ev.st.may
            elif d.tbl(b) and not ev.conds:
                self.saved[key] = ev.st.may
        elif ev.kind == "loop_enter" and key in self.saved and key not in self.active:
            self.active.append(key)
        elif ev.kind == "loop_exit" and key in self.saved:
            self.active = [a for a in self.active if a != key]
            if ev.breaks:
                self.early.add(self.ctx.loc(ev.fn, ev.node))
            self.reached = True
            if ev.body_may is None:
                ev.st.dead = True
            else:
                ev.st.may = frozenset(m for m in ev.st.may if m[0] != "kept") | frozenset(m for m in ev.body_may if m[0] == "kept")
        elif ev.kind == "setitem":
            for b in alts(ev.base):
                if d.tbl(b) or d.row(b):
                    vs = []
                    for v in alts(ev.value):
                        if v[0] == "new" and v in ev.st.heap:
                            c = ev.st.heap[v]
                            vs += [y for _, y in c.items] or list(c.exact or c.elems)
                        elif v[0] == "tuple":
                            vs += v[1:]
                        elif not self.nothing(v, ev.st):
                            vs.append(v)
                    if not vs:
                        continue
                    ev.st.may = frozenset(m for m in ev.st.may if m[0] != "kept") | frozenset(("kept", x) for y in vs for x in alts(y))
        elif ev.kind == "return" and len(ev.stack) == 1 and ev.frame.fn.qual == self.q:
            if any(a[1] == 1 for a in self.active):
                self.early.add(self.ctx.loc(ev.fn, ev.node))
            self.out.append((self.ctx.loc(ev.fn, ev.node), {m[1] for m in ev.st.may if m[0] == "kept"}))

    def nothing(self, v, st):
        """a part of a container nothing was put into"""
        while v[0] in ("elem", "item", "view"):
            v = v[2] if v[0] == "view" else v[1]
        c = st.heap.get(v) if v[0] == "new" else None
        return c is not None and not c.elems and not c.items and not c.exact


def cls(t):
    k = kind(t)
    return "empty" if t == EMPTY else k if isinstance(k, str) else k[0] if k else fmt(t)[:60]


def wanted(td, c, dates):
    """what a value of class c may become"""
    td = td or {"number": True, "text": True, "none": True, "date": False}
    if c == "empty":
        return {"none"} if td["none"] and (td["date"] or not td["text"]) else {"empty"}
    if td["date"]:
        return {"date"} if dates and c in TEXT else {c}
    if c == "t:mid":
        return {"mid"} if td["number"] else {"t:mid"}
    return {c}


TYPES = [(True, {"number": n, "text": t, "none": o, "date": d}) for n in (True, False) for t in (True, False) for o in (True, False)
         for d in (True, False)]


def typed_values(ctx, rep):
    rep.rule("typed-value", "the conversion of the parameters table makes numbers of texts of numbers unless the declared type allows no numbers, "
             "dates of texts of dates for date parameters, None of the empty text where only None is allowed, and keeps everything else")
    dat = ("param", PR, ctx.prog.fn(PR).params[1])
    n = 0
    for opt, td in [(False, None), (True, None)] + TYPES:
        for c, dates in (("t:mid", False), ("txt", False), ("txt", True), ("mid", False), ("empty", False)):
            if td and td["date"] and c in ("mid", "t:mid"):
                continue
            cell = EMPTY if c == "empty" else A(c)
            dom = Typing(dat, cell, opt, td, dates and bool(td and td["date"]))
            k = Kept(ctx, PR, dom)
            ip = ctx.interp([k], opaque={"utils.dateutil_adjuster", "utils.TypeDictionary.valid_data", TDF + ".parameters"})
            ip.dom = dom
            ip.run_entry(PR, st=State(may=frozenset([("kept", cell)])))
            rep.fns |= ip.fns_seen
            if not k.reached or not k.out:
                raise AnchorError(f"{PR}: no loop over all the parameters was seen")
            rep.ob("typed-value", f"{PR} goes on to the last parameter", not k.early, key=f"{PR}:early",
                   what=f"{sorted(k.early)[:1]} {PR}: the conversion may stop before the last parameter")
            want = wanted(td, c, dates)
            words = "an undeclared parameter" if not opt else "a parameter without a data type" if td is None else \
                "a parameter of a type with " + ", ".join(w for w in ("number", "text", "none", "date") if td[w])
            for where, got in k.out:
                bad = {cls(x) for x in got} - want
                n += 1
                rep.ob("typed-value", f"{PR} {where} {c} dates={dates} [{words}]", not bad, key=f"{PR}:{c}:{opt}:{td and sorted(td.items())}:{dates}",
                       what=f"{where} {PR}: for {words}, {WORD[c]} may be kept as {', '.join(sorted(WORD.get(b, b) for b in bad))}")
    if n < 60:
        raise AnchorError(f"{PR} was not seen to return")
