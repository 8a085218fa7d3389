"""C11: the infinity flag, by abstract interpretation of the conversions over classes of cell values.

A number is abstracted to where it lies relative to the flag F (a positive finite number):
-inf < (below -F) < -F < (between) < F < (above F) < inf, or NaN; a text to "a text" or "the text of a number" of such a class;
a cell of a table stands for the whole column and for the whole row (element-wise reading of pandas operations)."""
import itertools

from . import terms as T
from .ctx import *
from .interp import State
from .rules_cells import PR, PW, R, W

APPLY = "utils.faster_df_apply"
RANK = {"ninf": -3, "lo": -2, "nF": -1, "mid": 0, "F": 1, "hi": 2, "pinf": 3}
NAME = {v: k for k, v in RANK.items()}
POINTS = {"ninf", "nF", "F", "pinf"}
TEXT = {"txt": None, "t:hi": "hi", "t:lo": "lo", "t:F": "F", "t:nF": "nF", "t:mid": "mid"}
WORDS = {"ninf": "-infinity", "pinf": "infinity", "hi": "a number above the flag", "lo": "a number below minus the flag",
         "F": "the flag", "nF": "minus the flag", "mid": "a number between", "nan": "NaN", "txt": "a text", "date": "a date",
         "t:hi": "the text of a number above the flag", "t:lo": "the text of a number below minus the flag",
         "t:F": "the text of the flag", "t:nF": "the text of minus the flag", "t:mid": "the text of a number between",
         "none": "None"}
RAISE = ("abs", "raise")


def A(c):
    return ("abs", c)


def kind(t):
    """the abstract class of a term: a RANK name, 'nan', 'none', a text class, 'date', ('zero'), or None when unknown"""
    if t[0] == "abs":
        return t[1]
    if t[0] == "const":
        v = t[1]
        if v is None:
            return "none"
        if isinstance(v, float) and v != v:
            return "nan"
        if isinstance(v, bool):
            return None
        if isinstance(v, (int, float)):
            return "pinf" if v == float("inf") else "ninf" if v == -float("inf") else ("num", v)
        if isinstance(v, str):
            return ("str", v)
    if t[0] == "op" and t[1] == "neg":
        k = kind(t[2][0])
        return NAME[-RANK[k]] if k in RANK else k if k == "nan" else None
    return None


def word(t):
    return WORDS.get(kind(t) if not isinstance(kind(t), tuple) else None) or fmt(t)[:90]


def is_number(k):
    return k in RANK or k == "nan" or isinstance(k, tuple) and k[0] == "num"


class Domain:
    """the abstract operations; `flag`: class of the flag, `bias`: what _none_as_infinity_bias gives, `params`: the table is parameters"""

    def __init__(self, F, flag, bias, table, params, dates):
        self.dates = dates                       # does dateutil_adjuster read the value as a date?
        self.F, self.flag, self.bias, self.table, self.params = F, flag, bias, table, params

    mixed = False                                # is the field one whose texts of numbers count as numbers?

    def of_type(self, v):
        """what is known about the data type of a field of both texts and numbers, and the option that goes with it"""
        if v[0] == "item" and v[1][0] == "item" and "data_types" in fmt(v[1][1]):
            return A("td")
        if v[0] == "attr" and v[1] == A("td"):
            return {"datetime": FALSE, "strings_allowed": const("*"), "number_allowed": TRUE}.get(v[2])
        if v[0] in ("item", "call") and fmt(v[1] if v[0] == "item" else v).split("(")[0].endswith("automunge_multitype_fields"):
            return TRUE
        return None

    # -- what a term denotes
    def value(self, v, st, ip):
        if v == self.F:
            return self.flag
        if self.mixed:
            r = self.of_type(v)
            if r is not None:
                return r
        k = v[0]
        if k == "union":
            return union([self.value(x, st, ip) for x in v[1]])
        if k == "call" and isinstance(v[1], str) and v[1].endswith("_none_as_infinity_bias"):
            return self.bias
        if k == "call" and isinstance(v[1], str):
            tail = v[1].split(".")[-1]
            if tail == "dateutil_adjuster" and v[2] and kind(v[2][0]) is not None:
                return A("date") if self.dates and all(kind(x) in TEXT or kind(x) == "date" for x in alts(v[2][0])) else NONE
            args = v[2]
            if tail == "len" and len(args) == 1 and (args[0] in (TRUE, FALSE) or args[0][0] == "abs" or self.frame(args[0])):
                return A("len")                                   # there is at least the one row we look at
            if args and not v[3]:
                r = self.over([args[0]], lambda a: self.unary(tail, a)) if len(args) == 1 else None
                if len(args) == 2:
                    r = self.over(args, lambda a, b: self.binary(tail, a, b))
                if tail == "isinstance" and len(args) == 2:
                    r = self.isinstance_(args[0], args[1])
                if r == RAISE:
                    ip._propagate_raise(st)
                    st.dead = True
                    return UNKNOWN
                if r is not None:
                    return r
        if k == "op" and v[1] == "neg":
            r = self.over([v[2][0]], lambda a: self.unary("neg", a))
            return v if r is None else r
        if k == "op" and v[1] in ("*", "+", "-", "&", "|") and len(v[2]) == 2:
            r = self.over(v[2], lambda a, b: self.binary(v[1], a, b))
            return v if r is None else r
        if k == "op" and v[1] in ("~", "invert", "Invert") and v[2][0] in (TRUE, FALSE):
            return const(not v[2][0][1])
        if k == "not" and v[1] in (TRUE, FALSE):
            return const(v[1] == FALSE)
        return v

    def over(self, args, f):
        """f on every combination of the alternatives; None when some result is unknown"""
        combos = [[]]
        for a in args:
            combos = [c + [x] for c in combos for x in alts(a)]
        out = []
        for c in combos:
            r = f(*c)
            if r is None:
                return None
            out.append(r)
        ok = [x for x in out if x != RAISE]
        return union(ok) if ok else RAISE

    def unary(self, name, a):
        k = kind(a)
        if k is None or isinstance(k, tuple) and k[0] == "str":
            if name == "numericish" and k:
                return FALSE
            return None
        if name == "numericish":
            return const(is_number(k))
        if name == "stringish":
            return const(k in TEXT)
        if name in ("isnull", "isna", "notnull", "notna"):
            return const((k in ("nan", "none")) == name.startswith("is"))
        if name in ("isnan", "isinf", "isfinite"):
            if not is_number(k):
                return RAISE
            if isinstance(k, tuple):
                k = "mid"
            return const({"isnan": k == "nan", "isinf": k in ("pinf", "ninf"),
                          "isfinite": k not in ("nan", "pinf", "ninf")}[name])
        if name in ("float", "to_numeric"):
            if k in TEXT:
                return A(TEXT[k]) if TEXT[k] else RAISE
            return a if is_number(k) else RAISE
        if name in ("abs", "fabs"):
            if k in RANK:
                return A(NAME[abs(RANK[k])])
            return a if k == "nan" else const(abs(k[1])) if isinstance(k, tuple) else RAISE
        if name == "neg":
            if k in RANK:
                return A(NAME[-RANK[k]])
            return a if k == "nan" else const(-k[1]) if isinstance(k, tuple) else RAISE
        if name == "callable":
            return FALSE
        return None

    def isinstance_(self, a, ty):
        k = kind(a)
        names = {x.split(".")[-1] for x in re_names(ty)}
        if k is None or not names:
            return None
        num, txt, boo = {"Number", "float", "int", "Real"}, {"str"}, {"bool"}
        if is_number(k):
            return TRUE if names & {"Number", "Real"} or {"int", "float", "number"} <= names else FALSE if not names & num else None
        if k in TEXT:
            return const(bool(names & txt))
        if k == "none":
            return FALSE
        return None

    def binary(self, name, a, b):
        ka, kb = kind(a), kind(b)
        if name in ("max", "min"):
            x, y = (b, a) if name == "max" else (a, b)          # max keeps a unless b > a; min keeps a unless b < a
            if name == "max":
                r = self.less(ka, kb)
            else:
                r = self.less(kb, ka)
            if r is None and ka == kb and ka is not None:
                return a
            return None if r is None else RAISE if r == "raise" else (b if r else a)
        if name in ("&", "|"):
            if a in (TRUE, FALSE) and b in (TRUE, FALSE):
                return const((a[1] and b[1]) if name == "&" else (a[1] or b[1]))
            if (FALSE in (a, b)) and name == "&":
                return FALSE
            return None
        if name == "*":
            if "nan" in (ka, kb):
                return A("nan")
            for x, y in ((ka, kb), (kb, ka)):
                if isinstance(y, tuple) and y[0] == "num" and y[1] in (1, -1) and x in RANK:
                    return A(NAME[RANK[x] * y[1]])
                if x in ("pinf", "ninf") and isinstance(y, tuple) and y[0] == "num" and y[1]:
                    return A(NAME[RANK[x] * (1 if y[1] > 0 else -1)])
                if x in ("pinf", "ninf") and y in RANK and RANK[y]:
                    return A(NAME[3 * (1 if RANK[x] * RANK[y] > 0 else -1)])
            if "none" in (ka, kb) or ka in TEXT or kb in TEXT:
                return RAISE
        return None

    def less(self, a, b):
        """a < b; 'raise' when the comparison is an error; None when unknown"""
        if a is None or b is None:
            return None
        if "len" in (a, b):
            o = b if a == "len" else a
            if isinstance(o, tuple) and o[0] == "num":
                if a == "len":
                    return False if o[1] <= 1 else None
                return True if o[1] < 1 else None
            return None
        if not is_number(a) or not is_number(b):
            return "raise" if (is_number(a) or is_number(b)) else None
        if "nan" in (a, b):
            return False
        for x, y, s in ((a, b, 1), (b, a, -1)):
            if isinstance(x, tuple):
                if isinstance(y, tuple):
                    return a[1] < b[1]
                if x[1] == 0 and RANK[y]:
                    return (RANK[y] > 0) == (s > 0)
                if abs(RANK[y]) == 3:
                    return (RANK[y] > 0) == (s > 0)
                return None
        if RANK[a] != RANK[b]:
            return RANK[a] < RANK[b]
        return False if a in POINTS else None

    def equal(self, a, b, identity=False):
        if a is None or b is None:
            return None
        if "len" in (a, b):
            o = b if a == "len" else a
            return False if isinstance(o, tuple) and o[0] == "num" and o[1] < 1 else None
        if is_number(a) and is_number(b):
            if "nan" in (a, b):
                return False if not identity else None
            x, y = self.less(a, b), self.less(b, a)
            if x is True or y is True:
                return False
            return True if x is False and y is False else None
        if a == b:
            return True if a == "none" or isinstance(a, tuple) else None
        if a in TEXT and isinstance(b, tuple) or b in TEXT and isinstance(a, tuple):
            t, s = (a, b) if a in TEXT else (b, a)
            if s[0] != "str":
                return False
            try:
                float(s[1])
                return None
            except ValueError:
                return None if TEXT[t] is None else False
        return False

    def compare(self, op, a, b):
        if op in ("Eq", "Is") and self.table is not None:
            for x, y in ((a, b), (b, a)):
                if y == const("parameters") and self.table(x):
                    return self.params
        if not any(z[0] == "abs" for x in (a, b) for z in alts(x)):
            return None
        if op in ("In", "NotIn"):
            return None
        out = set()
        for x in alts(a):
            for y in alts(b):
                kx, ky = kind(x), kind(y)
                if op in ("Eq", "Is"):
                    out.add(self.equal(kx, ky, op == "Is"))
                elif op == "Lt":
                    out.add(self.less(kx, ky))
                elif op == "LtE":
                    r = self.less(ky, kx)
                    if r is False and "nan" not in (kx, ky):
                        out.add(True)
                    elif r is None and self.equal(kx, ky) is None:
                        out.add(None)
                    else:
                        out.add(False if r is True or "nan" in (kx, ky) else r)
                else:
                    out.add(None)
        out.discard("raise")
        return out.pop() if len(out) == 1 else None

    def item(self, b, k, st):
        if self.frame(b):
            if k[0] in ("new", "tuple") or k in (TRUE, FALSE):
                return b
            return self.cells(st)
        if b[0] == "attr" and b[2] in ("loc", "at", "iloc") and self.frame(b[1]):
            return self.cells(st)
        return None

    def elem(self, x):
        """an arbitrary cell of a column (ours), of a mask (what it says of ours)"""
        return x if x[0] == "abs" and x[1] in CLASSES or x in (TRUE, FALSE, NONE) else None

    def made(self, site, st):
        pass

    def frame(self, t):
        return False

    def pick(self, node, a, b):
        return a, b

    def cells(self, st):
        return UNKNOWN

    def method(self, ip, base, name, args, kwargs, st, node):
        if self.frame(base):
            if name in ("apply", "agg") and args and args[0][0] in ("func", "bound", "builtin", "extern"):
                return self.value(ip.call_value(args[0], [base], {}, st, node), st, ip)
            if name in ("copy", "reset_index", "infer_objects"):
                return base
            return None
        if base in (TRUE, FALSE):
            if name in ("any",):
                return TRUE if base == TRUE else None
            if name in ("copy", "values", "to_numpy", "astype", "reindex"):
                return base
            return None
        bs = alts(base)
        if not any(x[0] == "abs" or x == NONE for x in bs) or not all(x[0] == "abs" or x == NONE for x in bs):
            return None
        if name in ("apply", "map", "transform") and args and args[0][0] in ("func", "bound", "builtin", "extern"):
            out = []
            for x in bs:
                s = st.copy()
                r = self.value(ip.call_value(args[0], [x], {}, s, node), s, ip)
                st.may, st.must, st.heap = st.may | s.may, st.must & s.must, s.heap
                out.append(r)
            ip.frames[-1].cur = st
            return union(out)
        if name in ("isnull", "isna", "notnull", "notna", "abs") and not args:
            return self.over([base], lambda a: self.unary(name, a))
        if name in ("lower", "upper", "strip", "copy", "infer_objects"):
            return base
        if name in ("where", "mask") and len(args) == 2 and args[0] in (TRUE, FALSE):
            return base if (args[0] == TRUE) == (name == "where") else args[1]
        if name == "fillna" and args:
            return union([args[0] if kind(x) in ("nan", "none") else x for x in bs])
        if name == "clip":
            lo, hi = (list(args) + [None, None])[:2]
            lo, hi = kwargs.get("lower", lo), kwargs.get("upper", hi)
            r = base
            if hi is not None:
                r = self.over([r, hi], lambda a, b: self.binary("min", a, b))
            if r is not None and lo is not None:
                r = self.over([r, lo], lambda a, b: self.binary("max", a, b))
            return r
        return None


def re_names(ty):
    return [str(x[1]) for x in walk(ty) if isinstance(x, tuple) and len(x) >= 2 and x[0] in ("builtin", "extern", "class")]


def flag_term(ctx, cls):
    q = ctx.prog.cls(cls).methods.get("infinity_io_flag")
    if not q:
        raise AnchorError(f"{cls} has no infinity_io_flag")
    v, _ = ctx.interp().run_entry(q)
    if v is None or v[0] not in ("item", "attr"):
        raise AnchorError(f"{q} does not return a stored flag: {v and fmt(v)}")
    return v


NUMBERS = ("ninf", "lo", "nF", "mid", "F", "hi", "pinf", "nan")
CLASSES = NUMBERS + ("none", "txt") + tuple(k for k in TEXT if k != "txt")


MIXED = " (in a field of texts and numbers)"


def expected(write, scen, bias, cls, pan, mixed=False):
    """classes a cell of class `cls` may have after the conversion"""
    if mixed:
        return expected(write, scen, bias, TEXT[cls] or cls, pan) - {"date"}
    same = {cls}
    if scen == "parameters":
        return same | {"none"} if cls == "nan" and write else same
    if cls == "txt":
        same |= {"date", "none"} if not write else set()
    if cls in TEXT and TEXT[cls] and not write:                 # texts of numbers may stay or become the number
        same |= {"date"} | expected(write, scen, bias, TEXT[cls], pan)
    if scen == "off":
        return same | ({"date"} if not write else set())
    if scen == "number":
        if not write:
            return {"pinf", "date"} if cls in ("F", "hi", "pinf") else {"ninf", "date"} if cls in ("nF", "lo", "ninf") else same | {"date"}
        return {"pinf": {"F"}, "ninf": {"nF"}, "hi": {"hi", "F"}, "lo": {"lo", "nF"}}.get(cls, same)
    if write:
        return {"none"} if (cls, bias) in (("pinf", 1), ("ninf", -1)) else same
    if cls in ("none", "nan"):
        big = {1: "pinf", -1: "ninf"}.get(bias)
        if big is None:
            return same
        return {big} if pan or cls == "none" else {big, "nan"}
    return same | {"date"}


SCENARIOS = [("off", None), ("number", None), ("none", None), ("none", 1), ("none", -1), ("parameters", None)]


def classes(v):
    out = set()
    for x in alts(v):
        if x[0] == "ifexp":
            out |= classes(x[2]) | classes(x[3])
        elif x[0] in ("or", "and"):
            for y in x[1]:
                out |= classes(y)
        else:
            k = kind(x)
            out.add(k if isinstance(k, str) else "?" + fmt(x)[:70])
    return out


def flag_of(scen):
    return {"number": A("F"), "none": NONE}.get(scen, const("N/A"))


class Results(Client):
    def __init__(self, ctx, q):
        self.ctx, self.q, self.out = ctx, q, []

    def event(self, ev, ip):
        if ev.kind == "return" and ev.frame.fn.qual == self.q and len(ev.stack) == 1:
            self.out.append((self.ctx.loc(ev.fn, ev.node), classes(ev.value)))


def label(scen, bias):
    if scen == "parameters":
        return "in the parameters table"
    return {"off": "with no flag", "number": "with a number as the flag"}.get(scen) or \
        "with the flag None where None stands for " + {None: "None", 1: "infinity", -1: "-infinity"}[bias]


def tic_cell(ctx, rep, q, write):
    ps = ctx.prog.fns[q].params
    if len(ps) != 4:
        raise AnchorError(f"{q}: expected table, field and value")
    t, x = ("param", q, ps[1]), ps[3]
    F = flag_term(ctx, TDF)
    n = 0
    for scen, bias in SCENARIOS:
        for cls in CLASSES:
            if scen == "off" and cls in TEXT and TEXT[cls] and cls != "t:hi":
                continue
            flags = [A("F"), NONE] if scen == "parameters" else [flag_of(scen)]
            for fl, dates, mixed in [(f, d, m) for f in flags for d in (False, True) for m in (False, True)]:
                if dates and (write or scen == "parameters"):
                    continue
                if mixed and (dates or write or cls not in TEXT or scen == "parameters"):
                    continue
                c = Results(ctx, q)
                ip = ctx.interp([c], opaque={TDF + "._none_as_infinity_bias", "utils.dateutil_adjuster", TDF + ".data_types"})
                ip.dom = Domain(F, fl, const(bias), lambda y: y == t, scen == "parameters", dates)
                ip.dom.mixed = mixed
                ip.run_entry(q, args={x: NONE if cls == "none" else A(cls)})
                rep.fns |= ip.fns_seen
                want = expected(write, scen, bias, cls, False, mixed)
                got = set()
                for where, ks in c.out:
                    got |= ks
                    bad = ks - want
                    n += 1
                    rep.ob("cell", f"{q} {where} {cls} [{scen} {bias}{' mixed' * mixed}]", not bad,
                           key=f"{q}:{scen}:{bias}:{cls}{':mixed' * mixed}",
                           what=f"{label(scen, bias)}, {q} may turn {WORDS[cls]}{MIXED * mixed} into "
                                f"{', '.join(sorted(WORDS.get(b, b) for b in bad))}")
    if n < 60:
        raise AnchorError(f"{q} was not seen to return")


CV = "cellclass"


class Pan(Client):
    """tracks the class of one arbitrary cell of an arbitrary table through an adjustment of a whole pan dat object"""

    def __init__(self, ctx, q, cls, params=False):
        self.params = params
        self.ctx, self.q, self.cls, self.out, self.saved, self.changed, self.mutated = ctx, q, cls, [], {}, 0, set()

    # the current class of the cell lives in st.may
    def get(self, st):
        return frozenset(m for m in st.may if isinstance(m, tuple) and m[0] == CV)

    def put(self, st, marks):
        st.may = frozenset(m for m in st.may if not (isinstance(m, tuple) and m[0] == CV)) | frozenset(marks)

    def covering(self, el):
        """is `el` an arbitrary column of the tables: any of them?"""
        if el == UNKNOWN:
            return False
        names = [fmt(x) for x in alts(el)]
        if any(".columns" in n and "data_fields" not in n and "primary" not in n for n in names) and len(names) == 1:
            return True
        words = (".columns", "primary_key_fields", "data_fields")
        return all(any(w in n for n in names) for w in words) and all(any(w in n for w in words) for n in names)

    def must_loop(self, ev, ip):
        el, conds = ev.elem, ev.conds
        live = []
        for c in conds:
            if len(c) == 1:
                (t, p), = c
                if t[0] == "cmp" and t[1] == "==" and const("parameters") in t[2:4] and not p:
                    continue
                if t[0] == "cmp" and t[1] == "in" and is_table(t[2]) and fmt(t[3]).endswith("all_tables") and p:
                    continue
                if t[0] == "cmp" and t[1] == "in" and not p and self.only_parameters(t[3], ev, ip):
                    continue
                if t[0] == "cmp" and t[1] == "in" and p and self.covering(ip._elem(t[3], ev.st)[0]):
                    continue
            live.append(c)
        if live:
            return False
        if is_table(el):
            return True
        for x in alts(ev.over):
            if x in self.mutated and ("added", x) not in ev.st.must:
                return False
        return self.covering(el)

    @staticmethod
    def only_parameters(t, ev, ip):
        return tuple(ip._exact(t, ev.st) or ()) == (const("parameters"),)

    def excluded(self, ev, ip):
        """does the loop leave out the parameters table?"""
        return any(len(c) == 1 and not p and t[0] == "cmp" and
                   (t[1] == "==" and const("parameters") in t[2:4] or t[1] == "in" and const("parameters") in (ip._exact(t[3], ev.st) or ()))
                   for c in ev.conds for t, p in c)

    def event(self, ev, ip):
        k = ev.kind
        if k == "iter" and hasattr_(ev, "elem"):
            self.saved[(id(ev.node), len(ev.stack))] = (self.get(ev.st), self.must_loop(ev, ip), self.excluded(ev, ip))
        elif k == "loop_enter":
            sv = self.saved.get((id(ev.node), len(ev.stack)))
            if sv:
                self.put(ev.st, sv[0])
        elif k == "loop_exit":
            sv = self.saved.get((id(ev.node), len(ev.stack)))
            if sv and self.params and sv[2]:
                self.put(ev.st, sv[0])
            elif sv and sv[1] and not ev.breaks:
                if ev.body_may is not None:
                    self.put(ev.st, [m for m in ev.body_may if isinstance(m, tuple) and m[0] == CV])
                    ev.st.must = ev.st.must | frozenset(m for m in ev.body_must if isinstance(m, tuple) and m[0] == "added")
        elif k == "mutate" and ev.method in ("add", "append", "update", "extend") and ev.args and ev.base[0] == "new":
            self.mutated.add(ev.base)
            arg = ev.args[0]
            if self.covering(arg):
                ev.st.must = ev.st.must | {("added", ev.base)}
        elif k == "setitem":
            b = ev.base
            if is_frame(b):
                if ev.key[0] != "new":
                    self.assign(ev, ip, TRUE)
            elif b[0] == "attr" and b[2] in ("loc", "at", "iloc") and is_frame(b[1]):
                self.assign(ev, ip, ev.key[1] if ev.key[0] == "tuple" else ev.key)
        elif k == "return" and ev.frame.fn.qual == self.q and len(ev.stack) == 1:
            self.out.append((self.ctx.loc(ev.fn, ev.node), frozenset(m[1] for m in self.get(ev.st))))

    def assign(self, ev, ip, mask):
        self.changed += 1
        v = union([ip._elem(x, ev.st)[0] if x[0] == "new" else x for x in alts(ev.value)])
        new = {(CV, k) for k in classes(ip.dom.value(v, ev.st, ip))}
        if mask == FALSE:
            return
        if mask != TRUE and not (mask[0] == "slice" or mask[0] == "const"):
            new |= self.get(ev.st)
        self.put(ev.st, new)


def hasattr_(ev, k):
    try:
        getattr(ev, k)
        return True
    except Exception:
        return False


def is_table(el):
    if el == UNKNOWN:
        return False
    return all("all_tables" in fmt(x) and x[0] in ("elem", "item") for x in alts(el)) and not any(
        w in fmt(el) for w in ("columns", "data_fields", "primary_key"))


def is_frame(b):
    return all(x[0] == "getattr" and any(is_table(y) for y in alts(x[2])) for x in alts(b)) and b != UNKNOWN


class Frames(Domain):
    def __init__(self, F, flag, bias, client, params, dates, script):
        super().__init__(F, flag, bias, is_table, params, dates)
        self.client, self.choices, self.script = client, {}, script

    def frame(self, t):
        return is_frame(t)

    def pick(self, node, a, b):
        """the two sides of a condition we know nothing about leave the cell different: follow one of them per run"""
        if self.client.get(a) == self.client.get(b):
            return a, b
        c = self.choices.setdefault((node.lineno, node.col_offset), len(self.choices) < len(self.script) and
                                    self.script[len(self.choices)])
        return (None, b) if c else (a, None)

    def cells(self, st):
        return union([NONE if m[1] == "none" else A(m[1]) if not m[1].startswith("?") else UNKNOWN for m in self.client.get(st)])


def apply_model(ip, q, recv, args, kwargs, st, node, star, dstar):
    df = args[0] if args else kwargs.get("df")
    fn = args[1] if len(args) > 1 else kwargs.get("func")
    if df is None or fn is None or not is_frame(df):
        return None
    return ip.call_value(fn, [df], {}, st, node)


def pan_side(ctx, rep, q, write):
    F = flag_term(ctx, PDF)
    dat = ctx.prog.fns[q].params[1]
    n = 0
    for scen, bias in SCENARIOS:
        for cls in CLASSES:
            if scen == "off" and cls in TEXT and TEXT[cls] and cls != "t:hi":
                continue
            par = scen == "parameters"
            for dates, mixed in itertools.product((False, True), repeat=2):
                if dates and (write or par) or mixed and (dates or write or par or cls not in TEXT):
                    continue
                todo = [()]
                while todo:
                    script = todo.pop()
                    c = Pan(ctx, q, cls, par)
                    ip = ctx.interp([c], opaque={PDF + "._none_as_infinity_bias", "utils.dateutil_adjuster", PDF + ".data_types"},
                                    models={APPLY: apply_model})
                    ip.dom = Frames(F, A("F") if par else flag_of(scen), const(bias), c, par, dates, script)
                    ip.dom.mixed = mixed
                    ip.run_entry(q, st=State(may=frozenset([(CV, cls)])))
                    for i in range(len(script), len(ip.dom.choices)):
                        todo.append(script + (False,) * (i - len(script)) + (True,))
                    rep.fns |= ip.fns_seen
                    want = expected(write, scen, bias, cls, True, mixed)
                    for where, ks in c.out:
                        bad = ks - want
                        n += 1
                        rep.ob("column", f"{q} {where} {cls} [{scen} {bias}{' mixed' * mixed}]", not bad,
                               key=f"{q}:{scen}:{bias}:{cls}{':mixed' * mixed}",
                               what=f"{label(scen, bias)}, {q} may leave {WORDS[cls]}{MIXED * mixed} as "
                                    f"{', '.join(sorted(WORDS.get(b, b) for b in bad))}")
    if n < 60:
        raise AnchorError(f"{q} was not seen to return")


class Types(Domain):
    """what the data type of the field allows: numbers, None, infinity, -infinity"""

    def __init__(self, F, allow, texts, whole):
        super().__init__(F, NONE, NONE, None, False, False)
        self.allow, self.asked, self.texts, self.whole = allow, set(), texts, whole

    def value(self, v, st, ip):
        if v[0] == "attr" and v[2] == "number_allowed":
            return const(self.allow["num"])
        if v[0] == "attr" and v[2] == "nullable":
            return const(self.allow["none"])
        if v[0] == "attr" and v[2] == "strings_allowed":
            return const(self.texts)
        if v[0] == "attr" and v[2] == "must_be_int":
            return const(self.whole)
        if v[0] in ("call", "method") and "valid_data" in str(v[1] if v[0] == "call" else v[2]):
            k = kind((v[2] if v[0] == "call" else v[3])[-1])
            if k in self.allow:
                self.asked.add(k)
                return const(self.allow[k])
        if v == self.F or v[0] == "call" and isinstance(v[1], str) and v[1].endswith("_none_as_infinity_bias"):
            return super().value(v, st, ip) if v == self.F else v
        return super().value(v, st, ip)


class Stored(Client):
    def __init__(self, ctx, q):
        self.ctx, self.q, self.out, self.where = ctx, q, set(), ""

    def event(self, ev, ip):
        if ev.kind == "setitem" and "cache" in fmt(ev.base) or ev.kind == "return" and len(ev.stack) == 1:
            vs = [v for v in alts(ev.value) if v[0] == "const" or v[0] == "op"]
            self.out |= {kind(v) for v in vs}
            self.where = self.ctx.loc(ev.fn, ev.node)


def bias_side(ctx, rep, cls):
    q = ctx.prog.cls(cls).methods.get("_none_as_infinity_bias")
    if not q:
        raise AnchorError(f"{cls} has no _none_as_infinity_bias")
    F = flag_term(ctx, cls)
    asked = set()
    for num, none, hi, lo, texts, whole in itertools.product(*[(True, False)] * 4, ("*", ""), (False, True)):
        if whole and (not num or none):
            continue
        ip = ctx.interp([Stored(ctx, q)], opaque={"utils.TypeDictionary.valid_data"})
        ip.dom = Types(F, {"num": num, "none": none, "pinf": hi and num, "ninf": lo and num}, texts, whole)
        ip.run_entry(q)
        rep.fns |= ip.fns_seen
        asked |= ip.dom.asked
        got = {x[1] if isinstance(x, tuple) else x for x in ip.clients[0].out} - {"none"}
        want = set() if not num or none or hi == lo else {1} if hi else {-1}
        words = "a field that " + ("allows numbers" if num else "allows no numbers") + (", None" if none else "") + \
            (", infinity" if hi else "") + (", -infinity" if lo else "") + (", texts" if texts else "") + (", whole numbers only" if whole else "")
        rep.ob("bias", f"{q} [{words}]", got == want, key=f"{q}:{num}:{none}:{hi}:{lo}:{texts}:{whole}",
               what=f"{ip.clients[0].where} {q}: for {words}, None stands for {sorted(map(str, got)) or 'nothing'} "
                    f"times infinity, not {sorted(want) or 'nothing'}")
    if not {"pinf", "ninf"} <= asked:
        raise AnchorError(f"{q} does not ask the data type whether it allows the infinities")


def number_side(ctx, rep):
    """numbers of every class (and of every library) are numbers to the conversions"""
    q = "utils.numericish"
    if q not in ctx.prog.fns:
        return
    x = ctx.prog.fn(q).params[0]
    for cls in NUMBERS + ("none", "txt"):
        c = Results(ctx, q)
        ip = ctx.interp([c])
        ip.dom = Domain(None, None, None, None, False, False)
        v, _ = ip.run_entry(q, args={x: NONE if cls == "none" else A(cls)})
        v = v if v is None else ip.dom.value(v, State(), ip)
        rep.fns |= ip.fns_seen
        rep.ob("number", f"{q} {cls}", v == const(cls in NUMBERS), key=f"{q}:{cls}",
               what=f"{q} does not say whether {WORDS[cls]} is a number as it should for every number type (int, float, numpy's): "
                    f"{v and fmt(v)[:80]}")


def C11(ctx, rep):
    rep.rule("number", "the test for being a number that the conversions use is true of every kind of number and of nothing else")
    rep.rule("bias", "with the flag None, None stands for the one infinity the field's data type allows, and for nothing where the type "
             "allows None, no numbers, or neither infinity; where it allows both there is an error")
    rep.rule("cell", "whatever a cell's class, under each kind of flag (none, a number, None) every path of the tic dat cell conversions "
             "returns a value of the class the flag calls for: the flag for an infinity when writing, an infinity for what "
             "reaches the flag when reading, everything else (NaN, texts, None) unchanged; the parameters table is left alone")
    rep.rule("column", "the same for an arbitrary cell of an arbitrary column of an arbitrary table of a pan dat object: no path "
             "through the whole-object adjustments leaves or makes it of another class")
    T.MAX_SIZE = 300
    number_side(ctx, rep)
    for q, w in ((W, True), (R, False)):
        ctx.prog.fn(q)
        tic_cell(ctx, rep, q, w)
    for q, w in ((PW, True), (PR, False)):
        ctx.prog.fn(q)
        pan_side(ctx, rep, q, w)
    for cls in FACTORIES:
        bias_side(ctx, rep, cls)
