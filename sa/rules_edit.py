"""C21: the operations that edit a data object in place change what the scan found failing, and nothing else.

As in the failure scans, one arbitrary failing cell or row is followed."""
import ast

from .ctx import *
from .interp import State
from .rules_clone import COPIES
from .rules_schema import WRITE_EVENTS
from .rules_scan import Scan, Scenario, apply_rows, root

SCANS = ("find_data_type_failures", "find_foreign_key_failures", "_find_foreign_key_failure_rows")
OPAQUE = {f"{f}.{m}" for f in FACTORIES for m in SCANS + ("good_tic_dat_object", "good_pan_dat_object", "_true_data_types")} | \
    {"utils.dictish", "utils.containerish", "utils.TypeDictionary.valid_data"}
CELL = ("cell",)
NEW = ("abs", "replacement")


class Edit(Scenario):
    """`valid`: is the replacement of the right type; `bad`: does our cell or row fail; `given`: is there a replacement value;
    `key`: is the field part of the primary key; `fails`: does the scan find anything"""

    def __init__(self, dat, keyed=True, valid=True, bad=True, given=True, key=False, fails=True, good=True):
        super().__init__(dat, keyed)
        self.present, self.good, self.types = set(), good, set()
        self.valid, self.bad, self.given, self.key, self.fails = valid, bad, given, key, fails

    def failures(self, t):
        return t[0] == "call" and isinstance(t[1], str) and t[1].split(".")[-1] in SCANS

    def found(self, t):
        """a part of what the scan found"""
        while t[0] in ("item", "attr", "elem", "view", "method"):
            t = t[2] if t[0] == "view" else t[1]
        return self.failures(t)

    def mask(self, t):
        """the rows of the data frame that have a failure"""
        return t[0] == "item" and self.failures(t[1]) and t[1][1].endswith("_rows")

    def replacement(self, t, st=None, deep=4):
        """a value a failing cell is replaced with"""
        if t[0] == "item" and t[1][0] == "new" and st is not None and deep:
            c = st.heap.get(t[1])
            vals = {v for _, v in c.items} | set(c.elems) if c is not None else set()
            return all(self.replacement(x, st, deep - 1) for v in vals for x in alts(v))
        return t == NEW or any(isinstance(x, tuple) and x and (x == NEW or x[0] == "param" and x[2] == "replacement_values" or x[0] == "attr" and
                               x[2] in ("_default_values", "default_values")) for x in walk(t))

    def value(self, v, st, ip):
        self.ip = ip
        k = v[0]
        if k == "call" and isinstance(v[1], str) and v[1].endswith(".valid_data"):
            return self.verdict(v[2][-1], st) or v
        if k == "attr" and v[2] == "_parameters":
            return v
        if k == "call" and isinstance(v[1], str) and v[1].endswith("_dat_object"):
            return const(self.good)
        if k == "elem" and v[1] in (TRUE, FALSE):
            return v[1]
        if self.mask(v):
            return const(self.bad)
        if k == "call" and isinstance(v[1], str) and v[1].split(".")[-1] in ("list", "tuple", "Series", "array") and v[2] and v[2][0] in (TRUE, FALSE):
            return v[2][0]
        return super().value(v, st, ip)

    def verdict(self, x, st):
        self.asked.add("replacement" if self.replacement(x, st) else "cell")
        if self.valid is None and self.replacement(x, st):
            return None
        return const(self.valid if self.replacement(x, st) else not self.bad)

    def method(self, ip, base, name, args, kwargs, st, node):
        self.ip = ip
        if name == "valid_data" and args:
            b = base
            while b[0] in ("item", "method", "elem"):
                b = b[1]
            self.types.add(b[2] if b[0] == "attr" else str(b[1]).split(".")[-1] if b[0] == "call" else "?")
            return self.verdict(args[0], st)
        return super().method(ip, base, name, args, kwargs, st, node)

    def pick(self, n, a, b):
        for st in (a, b):
            if st is not None and not st.dead and nothing(self, st):
                st.must = st.must | {("fixed",)}
        return super().pick(n, a, b)

    def compare(self, op, a, b):
        st = self.ip.frames[-1].cur
        if op in ("In", "NotIn"):
            if self.found(b):
                return op == "In"
            if b[0] in ("getattr", "attr") and b[1] == self.dat:
                self.present.add((a, b))
                return op == "In"
            if b[0] != "attr" and any(x[0] == "attr" and x[2].endswith("primary_key_fields") for x in walk(b) if isinstance(x, tuple) and x):
                return (op == "In") == self.key
            if self.replacement(b, st):
                mine = any(isinstance(x, tuple) and x and x[0] == "param" and x[2] == "replacement_values" for x in walk(b))
                return (op == "In") == (not mine if self.given == "default" else self.given)
        if op in ("In", "NotIn") and b[0] == "new" and b in st.heap and (a[0] == "tuple" or self.found(a)):
            c = st.heap[b]
            if not c.elems and not c.items and not c.exact and ("touched", b) not in st.may:
                return op == "NotIn"
            if ("miss", b) not in st.may:
                return op == "In"
        return super().compare(op, a, b)


def nothing(sc, st):
    """the data as it is now was scanned, and nothing was found"""
    return ("stale",) not in st.may and any(len(c) == 1 and not p and all(sc.failures(x) for x in alts(t)) for c in st.facts for t, p in c)


def position(key):
    """does a sort key (of (table, position) pairs) have the position in it?"""
    if isinstance(key, ast.Lambda):
        names = {a.arg for a in key.args.args}
        subs = [n for n in ast.walk(key.body) if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in names]
        if any(ast.unparse(n.slice) in ("1", "-1", ":", "::-1") for n in subs):
            return True
        return any(isinstance(n, ast.Name) and n.id in names and not any(n is x.value for x in subs) for n in ast.walk(key.body))
    if isinstance(key, ast.Call):
        return any(isinstance(a, ast.Constant) and a.value in (1, -1) for a in key.args)
    return False


class Edits(Scan):
    """the writes to the data object; ("miss", CELL) while our cell or row may be as it was"""

    def __init__(self, ctx, q, sc):
        super().__init__(ctx, q, sc)
        fn = ctx.prog.fn(q).node
        self.asserted = {id(n) for a in ast.walk(fn) if isinstance(a, ast.Assert) for n in ast.walk(a)}
        self.writes, self.late, self.returns, self.sorts, self.void, self.overs, self.pairs, self.once, self.unique, self.origins = \
            [], [], [], {}, set(), {}, [], [], set(), set()

    def schema(self, t):
        return super().schema(t) or self.sc.found(t)

    def known(self, t, st, made=None):
        return all(self.sc.found(b) or b in (TRUE, FALSE) for b in alts(t)) or super().known(t, st, made)

    def decided(self, t, st=None):
        if self.sc.failures(t):                            # the first scan; nothing is assumed of what a later one finds
            return None if st is not None and ("again",) in st.may else self.sc.fails
        return super().decided(t, st)

    def empty(self, t, st):
        while t[0] == "view":
            t = t[2]
        if self.decided(t, st) is False:
            return True
        c = st.heap.get(t) if t[0] == "new" else None
        return c is not None and not c.items and not c.exact and bool(c.elems) and all(
            x[0] == "elem" and self.empty(x[1], st) for x in c.elems)

    def checking(self, ip):
        return any(f.call_node is not None and id(f.call_node) in self.asserted for f in ip.frames[1:])

    def event(self, ev, ip):
        k = ev.kind
        key = (id(ev.node), len(ev.stack))
        if k == "call" and str(ev.qual).split(".")[-1] in SCANS and not self.checking(ip):
            ev.st.may = ev.st.may - {("stale",)} | ({("again",)} if ("written",) in ev.st.may else set())
            ev.st.facts = frozenset(c for c in ev.st.facts if not any(self.sc.found(l) for l, _ in c))
        if k == "called" and ev.qual == self.q and self.sc.dat in [*ev.args, *ev.kwargs.values()] and \
                FALSE not in [*ev.args, *ev.kwargs.values()]:
            ev.st.may = ev.st.may - {("stale",)}
            ev.st.must = ev.st.must | {("fixed",)}
        if k == "raise" and not (isinstance(ev.node, ast.Assert) or self.checking(ip)):
            if ("written",) in ev.st.may:
                self.late.append(self.ctx.loc(ev.fn, ev.node))
        if k == "iter" and "elem" in ev.data:
            (self.void.add if all(self.empty(x, ev.st) for x in alts(ev.over)) else self.void.discard)(key)
            self.overs[key] = ev.over
        if key in self.void and k in ("loop_enter", "loop_exit"):
            if k == "loop_enter":
                ev.st.dead = True
            return
        if k == "copied" and isinstance(ev.node, ast.Call):
            f = ast.unparse(ev.node.func)
            over = [self.sorts.get(x) for x in ev.over]
            if all(x[0] == "new" and x[1] in ("set", "dict") or x in self.unique for x in ev.over):
                self.unique.add(ev.made)
            if f == "sorted":
                self.sorts[ev.made] = all(position(x.value) for x in ev.node.keywords if x.arg == "key") and any(x.arg == "reverse" and isinstance(x.value, ast.Constant) and bool(x.value.value)
                                          for x in ev.node.keywords)
            elif f == "reversed" and over and over[0] is not None:
                self.sorts[ev.made] = not over[0]
            elif f in ("list", "tuple") and over and over[0] is not None:
                self.sorts[ev.made] = over[0]
        if k == "setitem" and ev.key[0] == "tuple" and all(root(b)[0] == "new" for b in alts(ev.base)):
            for v in alts(ev.value):
                w = self.of(v)
                if w is not None:
                    self.origins.add(any(isinstance(x, tuple) and x and x[0] == "param" and x[2] == "replacement_values" for x in walk(v)))
                    self.pairs.append((self.ctx.loc(ev.fn, ev.node), w == ev.key,
                                       "a field is given the replacement of another one"))
            for x in walk(ev.value):
                if isinstance(x, tuple) and x and x[0] == "or" and any(self.of(y) is not None for y in alts(x[1][0])):
                    self.pairs.append((self.ctx.loc(ev.fn, ev.node), False, "a replacement that is 0, empty or None is taken for none"))
        if k in WRITE_EVENTS and not self.checking(ip):
            self.write(ev, ip)
        if k == "return" and len(ev.stack) == 1 and ev.frame.fn.qual == self.q:
            self.returns.append(Back(self.ctx.loc(ev.fn, ev.node), ev.value, ("miss", CELL) not in ev.st.may,
                                     nothing(self.sc, ev.st), ("fixed",) in ev.st.must))
        super().event(ev, ip)

    def of(self, v):
        """the (table, field) a replacement value is looked up for"""
        if v[0] == "method" and v[2] in ("get",) and v[3]:
            v = ("item", v[1], v[3][0])
        if v[0] != "item" or not self.sc.replacement(v):
            return None
        if v[1][0] == "param":
            return v[2]
        b = v[1]
        if b[0] == "method" and b[2] == "get" and b[3]:
            b = ("item", b[1], b[3][0])
        return ("tuple", b[2], v[2]) if b[0] == "item" else None

    def write(self, ev, ip):
        if ev.kind == "setattr":
            hit = [b for b in alts(ev.base) if b == self.sc.dat]
        else:
            hit = [b for b in alts(ev.base) if root(b) == self.sc.dat]
        if not hit:
            return
        ev.st.may = ev.st.may | {("written",), ("stale",)}
        ev.st.must = ev.st.must - {("fixed",)}
        ok, what = self.allowed(ev, ip)
        self.writes.append((self.ctx.loc(ev.fn, ev.node), ok, what))
        if ok:
            self.hold(CELL, ev.st)

    def failing(self, t):
        return all(self.sc.found(x) for x in alts(t))

    def allowed(self, ev, ip):
        d = self.sc.dat
        if ev.kind == "setattr":                           # another data frame: without the failing rows, with the others
            if not isinstance(ev.name, str) and not self.failing(ev.name):
                return False, "a table other than the one with the failing rows is set"
            for v in alts(ev.value):
                while v[0] == "method" and v[2] in ("copy", "reset_index"):
                    v = v[1]
                if not (v[0] == "item" and v[1] == ("getattr", d, ev.name) or v[0] == "item" and v[1] == ("attr", ("getattr", d, ev.name), "loc")):
                    return False, "the table is not set to a selection of its rows"
                m = v[2]
                c = ev.st.heap.get(m) if m[0] == "new" else None
                got = {x[1] if x[0] == "elem" else x for x in c.elems} if c is not None else {m}
                if got != {const(not self.sc.bad)}:
                    return False, "a failing row is kept" if self.sc.bad else "a row without failures is removed"
            return True, ""
        for b in alts(ev.base):
            if b[0] == "getattr" and b[1] == d:
                if not self.failing(b[2]):
                    return False, "a table other than one with failures is changed"
                if ev.kind == "delitem" or ev.kind == "mutate" and ev.method == "pop":
                    key = ev.key if ev.kind == "delitem" else ev.args[0] if ev.args else UNKNOWN
                    if not (all(x[0] == "elem" for x in alts(key)) and self.failing(key)):
                        return False, "a row other than the ones that fail is removed"
                    self.once.append((self.ctx.loc(ev.fn, ev.node), self.at_most_once(ev, key, b)))
                    if not self.sc.keyed and not self.backwards():
                        return False, "rows are removed by position, and not from the last one to the first"
                elif ev.kind == "setitem" and self.failing(ev.key):
                    ok = self.column(ev, b)
                    if not ok:
                        return False, "a cell that does not fail is changed" if not self.sc.bad else "a failing cell is not replaced with its replacement"
                else:
                    return False, f"the table is changed ({ev.kind})"
            elif b[0] == "item" and b[1][0] == "getattr" and b[1][1] == d:
                if ev.kind != "setitem" or not (self.failing(b[1][2]) and self.failing(b[2]) and self.failing(ev.key)):
                    return False, "a cell other than the ones that fail is changed"
                if not all(self.sc.replacement(v, ev.st) for v in alts(ev.value)):
                    return False, "a failing cell is set to something other than its replacement"
            else:
                return False, f"something else is changed ({fmt(b)[:60]})"
        return True, ""

    def column(self, ev, tab):
        """the new column of a data frame: for our row"""
        vals = set()
        for v in alts(ev.value):
            if v[0] == "call" and str(v[1]).split(".")[-1] == "Series" and v[2]:
                v = v[2][0]
            c = ev.st.heap.get(v) if v[0] == "new" else None
            vals |= {y for x in c.elems for y in alts(x)} if c is not None else {v}
        if self.sc.bad:
            return bool(vals) and all(self.sc.replacement(v, ev.st) for v in vals)
        return bool(vals) and all(v == ("item", ("elem", tab), ev.key) or v == ("elem", ("item", tab, ev.key)) for v in vals)

    def at_most_once(self, ev, key, tab):
        """a row that fails for two reasons is there to be removed only once"""
        if self.sc.keyed:
            return ev.kind == "mutate" and len(ev.args) == 2 or all((x, tab) in self.sc.present for x in alts(key))
        return any(all(x in self.unique or x[0] == "new" and x[1] == "set" for x in alts(self.overs[k])) for k in self.active if k in self.overs)

    def backwards(self):
        """is some loop we are in over a sequence sorted in descending order?"""
        return any(all(self.sorts.get(x) for x in alts(self.overs[k])) for k in self.active if k in self.overs)


class Back:
    """`cleared`: our cell or row was repaired; `clean`: the data was scanned, and nothing was found; `fixed`: or it was recursed on"""

    def __init__(self, loc, value, cleared, clean, fixed):
        self.loc, self.value, self.cleared, self.clean, self.fixed = loc, value, cleared, clean, fixed


def run(ctx, rep, q, sc, args=None):
    c = Edits(ctx, q, sc)
    ip = ctx.interp([c], opaque=OPAQUE, models={"utils.faster_df_apply": apply_rows, **COPIES})
    ip.dom = sc
    ip.run_entry(q, args=args, st=State(may=frozenset([("miss", CELL)])))
    rep.fns |= ip.fns_seen
    return c


def same(c, r, dat):
    """is what is returned the data object that was given, as this function leaves it?"""
    for v in alts(r.value):
        if v == dat:
            continue
        if not (v[0] == "call" and v[1] == c.q and dat in v[2] and all(x != FALSE for x in v[2]) and
                all(x != FALSE for _, x in v[3])):
            return False
    return True


def again(c, r):
    return any(v[0] == "call" and v[1] == c.q for v in alts(r.value))


def common(rep, c, q, label, dat):
    for loc, ok, what in c.writes:
        rep.ob("place", f"{loc} [{label}]", ok, key=f"{q} place", what=what)
    for loc in c.late:
        rep.ob("reject", loc, False, key=f"{q} reject", what="an error can be raised when part of the data has been changed")
    for r in c.returns:
        rep.ob("same", f"{r.loc} [{label}]", same(c, r, dat), key=f"{q} same",
               what=f"something other than the data object that was given is returned: {fmt(r.value)[:60]}")


def types(ctx, rep, q):
    """what the data types a scan goes by are read from"""
    sc = Edit(("param", q, ctx.prog.fn(q).params[1]))
    run(ctx, rep, q, sc)
    return sc.types


def C21(ctx, rep):
    rep.rule("place", "every write to the data object replaces a cell the scan found failing with its replacement, or removes a row the scan "
                      "found failing")
    rep.rule("complete", "the function returns only when our failing cell or row was replaced or removed")
    rep.rule("reject", "a replacement of the wrong type, or data that is not of this schema, is refused before anything is changed")
    rep.rule("spare", "what does not fail stays as it is, and nothing is changed if the scan finds nothing")
    rep.rule("match", "the replacement of a field is the one given for that table and field, or that field's default")
    rep.rule("fixpoint", "with cascading on, a data object is returned only after a scan of it as it then is found nothing")
    rep.rule("once", "a row that fails for more than one reason is removed once")
    rep.rule("same", "the data object that was given is the one returned")
    for cls in FACTORIES:
        q = cls + ".replace_data_type_failures"
        dat = ("param", q, ctx.prog.fn(q).params[1])
        for label, sc in (("a failing cell", Edit(dat)), ("a failing cell, default", Edit(dat, given="default")),
                          ("a failing cell, keyless", Edit(dat, keyed=False)),
                          ("some replacements are of the wrong type", Edit(dat, valid=None)), ("a replacement of the wrong type", Edit(dat, valid=False)),
                          ("no replacement", Edit(dat, given=False)), ("a primary key cell", Edit(dat, key=True)),
                          ("a good cell", Edit(dat, bad=False)), ("no failures", Edit(dat, fails=False)), ("not of this schema", Edit(dat, good=False))):
            c = run(ctx, rep, q, sc)
            common(rep, c, q, label, dat)
            lab = f"{q} [{label}]"
            if label.startswith("a failing cell"):
                rep.ob("complete", lab, bool(c.returns) and all(r.cleared for r in c.returns), key=f"{q} complete",
                       what="a failing cell with a good replacement is left as it is")
                for loc, ok, what in c.pairs:
                    rep.ob("match", loc, ok, key=f"{q} match", what=what)
                rep.ob("match", lab, bool(c.pairs), key=f"{q} match", what="no choice of the replacements is found")
                rep.ob("reject", f"{lab} asks", "replacement" in sc.asked, key=f"{q} asks", what="it is not asked whether the replacement is valid")
                if sc.given is True:
                    rep.ob("match", f"{lab} given", True in c.origins or not c.origins, key=f"{q} given",
                           what="a default replaces the failing cells although a replacement is given")
            if sc.valid is False or not sc.good:
                rep.ob("reject", lab, not c.writes and not c.returns, key=f"{q} reject",
                       what="data is changed, or returned as if it was repaired, although it should be refused: " + label)
            if not sc.given and cls == PDF or sc.key and cls == TDF or not sc.fails:
                rep.ob("spare", lab, not c.writes and bool(c.returns), key=f"{q} spare", what=f"data is changed: {label}")
            kinds = types(ctx, rep, cls + ".find_data_type_failures")
            if label == "a failing cell" and "_true_data_types" in kinds:
                rep.ob("complete", f"{lab} types", sc.types <= kinds, key=f"{q} types",
                       what=f"the failing cells are looked up in other data types ({', '.join(sorted(sc.types - kinds))}) than the scan goes by, "
                            "which has one for every primary key field")
        q = cls + ".remove_foreign_key_failures"
        dat = ("param", q, ctx.prog.fn(q).params[1])
        for label, sc, prop in (("a failing row, keyed", Edit(dat), True), ("a failing row, keyless", Edit(dat, keyed=False), True),
                                ("no cascading, keyed", Edit(dat), False), ("no cascading, keyless", Edit(dat, keyed=False), False),
                                ("a good row", Edit(dat, bad=False), True), ("no failures", Edit(dat, fails=False), True)):
            has = "propagate" in ctx.prog.fn(q).params
            if not has and not prop:
                continue
            c = run(ctx, rep, q, sc, {"propagate": const(prop)} if has else None)
            common(rep, c, q, label, dat)
            lab = f"{q} [{label}]"
            for loc, ok in c.once:
                rep.ob("once", loc, ok, key=f"{q} once", what="the same row can be removed twice")
            rep.ob("complete", lab, bool(c.returns), key=f"{q} complete", what="nothing is returned")
            for r in c.returns:
                clean = r.clean
                if sc.bad and sc.fails:
                    rep.ob("complete", f"{r.loc} [{label}]", r.cleared or clean or r.fixed, key=f"{q} complete", what="a failing row is left in")
                if prop:
                    rep.ob("fixpoint", f"{r.loc} [{label}]", clean or r.fixed or again(c, r) and r.cleared, key=f"{q} fixpoint",
                           what="rows whose parents were removed can be left in")
            if not sc.fails:
                rep.ob("spare", lab, not c.writes, key=f"{q} spare", what="data is changed although nothing fails")
