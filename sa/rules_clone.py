"""C15: a copy of a factory (schema and back, clone, the clone_* edits) is complete.

What a factory knows is split into the attributes its editing methods write.  Each attribute must travel on every path: into the
schema dictionary, out of it, and whatever the dictionary does not carry by hand in clone().  Followed as in the failure scans: one
arbitrary entry of the attribute, conditions not decided by the scenario may lose it."""
import ast

from . import terms as T
from .ctx import *
from .interp import State
from .terms import limit
from .rules_scan import Scan, Scenario, pieces, root

TABLES = "tables"
KEEP = "utils.clone_a_anchillary_info_schema"


class _Setters(Client):
    def __init__(self, cls, q):
        self.cls, self.q, self.out = cls, q, []

    def event(self, ev, ip):
        if ev.kind == "setattr":
            for b in alts(ev.base):
                if b == ("self", self.cls) and isinstance(ev.name, str):
                    self.out.append(ev.name)
        elif ev.kind == "setitem" or ev.kind == "mutate" and ev.method in ("add", "append", "update", "extend", "insert"):
            for b in alts(ev.base):
                while b[0] in ("item", "view", "elem", "method"):
                    b = b[2] if b[0] == "view" else b[1]
                if b[0] == "attr" and b[1] == ("self", self.cls):
                    self.out.append(b[2])


def slots(ctx, rep, cls):
    """{attribute: setter methods}"""
    ci = ctx.prog.cls(cls)
    names = [q for n, q in ci.methods.items() if not n.startswith("_") and not n.startswith("clone")
             and "staticmethod" not in ctx.prog.fn(q).decorators and n not in ("schema",)]
    key = "_setters:" + cls
    res, seen = ctx.par(names, lambda q: _Setters(cls, q))
    rep.fns |= seen
    out = {}
    for q, got in res.items():
        for a in got:
            out.setdefault(a, set()).add(q)
    return out


class Round(Scenario):
    """everything asked for is there"""
    ours, key, only = (), None, None

    def is_key(self, t):
        return False

    def part(self, t):
        return root(t) in self.ours

    # what may be false or empty although it is there: path from the entry
    FALSY = {"infinity_io_flag": (), "automunge_multitype_fields": (), "default_values": ("item", "item"),
             "tooltips": ("item", "elem"), "parameters": ("item", "item")}

    def leaf(self, t):
        path, x = [], t
        while x[0] in ("item", "elem") and x != self.only and not self.entry(x):
            path.append(x[0])
            x = x[1]
        k = x[2] if x[0] == "attr" else x[2][1] if x[0] == "item" and x[2][0] == "const" else None
        return self.FALSY.get(k, (None,)) == tuple(reversed(path))

    def entry(self, x):
        return False

    def there(self, t):
        """a part of what is followed: it is not empty"""
        return self.part(t) and (self.only is None or self.only in list(walk(t)) and not self.leaf(t))

    def value(self, v, st, ip):
        self.ip = ip
        k = v[0]
        if k == "or" and any(self.there(x) for x in alts(v[1][0])):
            return v[1][0]
        if k == "call" and isinstance(v[1], str) and v[1].split(".")[-1] == "hasattr" and len(v[2]) == 2:
            got = {self.hasattr(x, v[2][1], ip) for x in alts(v[2][0])}
            if len(got) == 1 and None not in got:
                return const(got.pop())
        if k == "call" and isinstance(v[1], str) and v[1].split(".")[-1] in ("any", "all") and v[2] and v[2][0] in (TRUE, FALSE):
            return v[2][0]
        if k in ("all", "any") and v[1] in (TRUE, FALSE):
            return v[1]
        return v if k == "attr" else super().value(v, st, ip)

    def hasattr(self, x, name, ip):
        if x[0] in ("inst", "class") and name[0] == "const":
            return any(name[1] in ctx_methods(ip, c) for c in ip.mro(x[1]))
        return None

    def compare(self, op, a, b):
        if op in ("In", "NotIn") and a[0] == "const" and b in self.ours:
            return op == "In"
        if op in ("Is", "Eq") and a[0] == b[0] == "class":
            return a[1] == b[1]
        if op in ("In", "NotIn") and root(b)[0] == "param" and root(b)[2] == "table_restrictions":
            return op == "In"
        return None

    def method(self, ip, base, name, args, kwargs, st, node):
        self.ip = ip
        if name == "get" and args and alts(base) and all(self.part(b) for b in alts(base)):
            return limit(("item", base, args[0]))
        if name == "issubset" and args and root(args[0])[0] == "param" and root(args[0])[2] == "table_restrictions":
            return TRUE
        return None


def ctx_methods(ip, c):
    ci = ip.prog.classes[c]
    return {n.split("=")[0] for n in ci.methods}


class Parts(Scan):
    """instances of the package's classes hold what they were made of"""

    def __init__(self, *a):
        super().__init__(*a)
        self.made_of = {}

    def event(self, ev, ip):
        if ev.kind == "built":
            self.made_of.setdefault(ev.value, set()).update(self.spread(list(ev.args) + list(ev.kwargs.values()), ev.st))
        super().event(ev, ip)

    def has(self, x, st):
        return super().has(x, st) or x[0] == "new" and x in st.heap and bool(st.heap[x].exact)

    def spread(self, ts, st):
        out = super().spread(ts, st)
        for x in [x for x in out if x[0] == "inst"]:
            out |= self.made_of.get(x, set())
        return out

    def full(self, x, st, seen=()):
        r = super().full(x, st, seen)
        return r


class Feed(Parts):
    """("miss", ("slot", a)) while attribute a of the new factory may be without our entry"""
    extra = needs = frozenset()

    def __init__(self, ctx, q, sc, wanted, setters):
        super().__init__(ctx, q, sc)
        self.wanted, self.setters, self.sites, self.returned = wanted, setters, {}, []
        self.inner = {s for ss in setters.values() for s in ss}

    def decided(self, t, st=None):
        if self.sc.there(t) or self.sc.only is None and t[0] == "attr" and t[1] in self.sc.ours:
            return True
        return super().decided(t, st)

    def live(self, conds, st):
        return [c for c in super().live(conds, st) if not self.same(c)]

    def same(self, c):
        """`self.flag`: the setter call under it stands for the value"""
        return any(p and self.sc.there(t) for t, p in c)

    def known(self, t, st, made=None):
        return all(self.sc.there(b) or super(Feed, self).known(b, st, made) for b in alts(t))

    def event(self, ev, ip):
        k = ev.kind
        if k == "call" and (ev.data.get("qual") or ev.target[0] == "attr"):
            recv = ev.recv if ev.data.get("qual") else ev.target[1]
            name = ev.qual.split(".")[-1] if ev.data.get("qual") else ev.target[2]
            if any(f in self.inner for f in ev.stack):
                return
            if ev.target[0] == "class" and TABLES in self.wanted and ev.qual in FACTORIES:
                if ev.dstar is not None and self.wanted[TABLES] & self.spread([ev.dstar], ev.st):
                    self.hold(("slot", TABLES), ev.st)
            for a in self.wanted:
                if name in {s.split(".")[-1] for s in self.setters.get(a, ())} and recv is not None and self.new(recv):
                    self.arrive(a, ev, name)
        elif any(f in self.inner for f in ev.stack):
            pass
        elif k == "setattr" and isinstance(ev.name, str) and all(self.new(b) for b in alts(ev.base)):
            if ev.name in self.wanted:
                self.take(ev.name, ev, () if self.cut(ev.value) else pieces(ev.value))
        elif k in ("setitem", "mutate") and all(self.new_slot(b) for b in alts(ev.base)):
            for b in alts(ev.base):
                a = self.new_slot(b)
                if a in self.wanted:
                    self.take(a, ev, {y for x in ([ev.value] if k == "setitem" else ev.args) if not self.cut(x)
                                       for y in self.spread([x], ev.st)})
        if k == "return" and len(ev.stack) == 1 and ev.frame.fn.qual == self.q:
            self.returned.append((self.ctx.loc(ev.fn, ev.node), all(b[0] == "inst" for b in alts(ev.value))))
            self.out.append((self.ctx.loc(ev.fn, ev.node), {m[1][1] for m in ev.st.may if m[0] == "miss" and m[1][0] == "slot"}))
            return
        super().event(ev, ip)

    def in_order(self, star, ev, ps):
        """are the parts of the entry (a tuple) handed over all, in their order?"""
        at = [(ps.index(p) if p in ps else None, x) for p, x in [*zip(ps, ev.args), *ev.kwargs.items()]]
        pos, todo, left = len(ev.args), [star] if star is not None else [], len(ps) - len(ev.args) - len(ev.kwargs)
        while todo:
            x = todo.pop(0)
            c = ev.st.heap.get(x) if x[0] == "new" else None
            if x[0] == "op" and x[1] == "+":
                todo = list(x[2]) + todo
            elif c is not None and c.order is not None and c.exact is None:
                if c.order[0] == "perm":
                    return False
                todo.insert(0, c.order)
            elif x[0] == "tuple" or c is not None and c.exact is not None:
                xs = x[1:] if c is None else c.exact
                at += [(pos + i, y) for i, y in enumerate(xs)]
                pos, left = pos + len(xs), left - len(xs)
            elif x[0] == "item" and x[2][0] == "slice":
                lo, hi, step = x[2][1:4]
                if lo not in (NONE, const(0)) or step not in (NONE, const(1)) or hi != NONE and not (hi[0] == "const" and hi[1] >= left):
                    return False
                at.append((pos, ("item", x[1], const(0))))
        index = {}
        for p, x in at:
            for y in alts(x):
                if y[0] == "item" and T.is_const(y[2]) and isinstance(y[2][1], int) and self.sc.part(y[1]):
                    index.setdefault(y[1], []).append((p, y[2][1]))
                if y[0] == "attr" and self.sc.part(y[1]) and y[2] in ps and p is not None and ps[p] != y[2]:
                    return False
        return all([i for _, i in sorted(xs)] == sorted({i for _, i in xs}) for xs in index.values() if all(p is not None for p, _ in xs))

    def deep(self, y):
        """one of the pairs of fields of a foreign key"""
        return y[0] == "item" and T.is_const(y[2]) and (
            y[1][0] == "attr" and y[1][2] == "mapping" or y[1][0] == "item" and T.is_const(y[1][2]) and y[1][2][1] == 2) \
            and "foreign_keys" in fmt(y) and self.sc.part(y)

    def cut(self, t):
        """does only a part of a sequence go into it?"""
        return any(x[0] == "item" and x[2][0] == "slice" and (x[2][1] not in (NONE, const(0)) or x[2][2] != NONE or x[2][3] not in (NONE, const(1)))
                   for x in walk(t) if isinstance(x, tuple) and len(x) == 3 and isinstance(x[2], tuple) and len(x[2]) > 3)

    def new(self, t):
        return all(b[0] == "inst" or b[0] == "call" and str(b[1]).startswith("utils.clone_") for b in alts(t))

    def new_slot(self, b):
        while b[0] in ("item", "elem"):
            b = b[1]
        if b[0] == "view":
            return self.new_slot(b[2])
        return b[2] if b[0] == "attr" and self.new(b[1]) else None

    def take(self, a, ev, got):
        if self.wanted[a] & set(got):
            self.sites.setdefault(a, set()).add(self.ctx.loc(ev.fn, ev.node))
            self.hold(("slot", a), ev.st)

    def arrive(self, a, ev, name):
        fns = [self.ctx.prog.fn(s) for s in self.setters[a] if s.split(".")[-1] == name]
        got = [self.spread([x], ev.st) for x in ev.args]
        kw = {k: self.spread([x], ev.st) for k, x in ev.kwargs.items()}
        want = self.wanted[a]
        star = self.spread([ev.star], ev.st) if ev.star is not None else set()
        ps = fns[0].params[1:]
        if not all(self.in_order(x, ev, ps) for x in (alts(ev.star) if ev.star is not None else [None])):
            return                                         # a part of the entry only, or its parts in another order
        for x in [*ev.args, *ev.kwargs.values()]:
            for y in alts(x):
                if y[0] == "new" and y in ev.st.heap and self.live(ev.st.heap[y].conds, ev.st):
                    return                                 # some of the entry only
                if self.deep(y):
                    return
        given = dict(zip(ps, got))
        given.update(kw)
        plain = dict([*zip(ps, ev.args), *ev.kwargs.items()])
        flags = {p for p, x in plain.items() if x in (TRUE, FALSE)}
        left = [p for p in ps if p not in given]
        if not ps and ev.dstar is not None:
            ok = bool(want & self.spread([ev.dstar], ev.st))
        elif not ps:                                       # enable_...(): under the condition that the value holds
            ok = any(p and t in want for c in ev.facts for t, p in c if len(c) == 1)
        else:
            ok = all((want | self.extra) & g for p, g in given.items() if p not in flags) and bool(want & star or not ev.star)
            ok = ok and any(want & g for g in [star, *given.values()]) and all(any(n in g for g in given.values()) for n in self.needs)
            ok = ok and (not left or bool(star) or FALSE in plain.values())
        if ok:
            self.sites.setdefault(a, set()).add(self.ctx.loc(ev.fn, ev.node))
            self.hold(("slot", a), ev.st)


def freeze_model(ip, q, self_term, args, kwargs, st, node, star, dstar):
    """a copy: its contents are what matters here"""
    return args[0] if args else UNKNOWN


COPIES = {"utils.deep_freeze": freeze_model, "utils.FrozenDict": freeze_model}
PLAIN = {"utils.dictish", "utils.containerish", "utils.verify"}


def feed(ctx, rep, q, ours, wanted, setters, args=None, models=None, opaque=(), only=None):
    sc = Round(("none",))
    sc.ours, sc.only = set(ours), only
    c = Feed(ctx, q, sc, wanted, setters)
    ip = ctx.interp([c], opaque=PLAIN | set(opaque), models=models or {})
    ip.dom = sc
    ip.run_entry(q, args=args, st=State(may=frozenset(("miss", ("slot", a)) for a in wanted)))
    rep.fns |= ip.fns_seen
    return c


class Out(Parts):
    """what a returned dictionary holds under each key: (whole?, what it is made of)"""

    def event(self, ev, ip):
        super().event(ev, ip)
        if ev.kind == "return" and len(ev.stack) == 1 and ev.frame.fn.qual == self.q:
            got = []
            for x in alts(ev.value):
                c = ev.st.heap.get(x) if x[0] == "new" else None
                d = {}
                if self.sc.part(x):                       # the very dictionary that was given
                    continue
                for k, v in (c.items if c is not None else ()):
                    k = const(self.sc.key) if self.sc.is_key(k) else k
                    if k[0] == "const":
                        whole, made = d.get(k[1], (True, set()))
                        ok = all(y[0] != "new" and (self.sc.part(y) or y[0] == "frozen" and self.sc.part(y[1])) or self.full(y, ev.st)
                                 for y in alts(v))
                        ok = ok and not (k[1] == "tables_fields" and shuffled([v], ev.st))      # the order of fields is part of it
                        d[k[1]] = (whole and ok, made | self.spread([v], ev.st))
                got.append(d)
            self.dicts.append((self.ctx.loc(ev.fn, ev.node), got))

    def known(self, t, st, made=None):
        return all(self.sc.part(b) or super(Out, self).known(b, st, made) for b in alts(t))


def contents(ctx, rep, q, ours, args, sc=None, models=None, opaque=()):
    sc = sc or Round(("none",))
    sc.ours = set(ours)
    c = Out(ctx, q, sc)
    c.dicts = []
    ip = ctx.interp([c], opaque=PLAIN | set(opaque), models=models or COPIES)
    ip.dom = sc
    ip.run_entry(q, args=args)
    rep.fns |= ip.fns_seen
    if not c.dicts:
        raise AnchorError(f"{q} returns no dictionary")
    return c.dicts


DOCUMENTED = ("foreign_keys", "default_values", "data_types", "parameters", "infinity_io_flag", "xlsx_trailing_empty_rows",
              "duplicates_ticdat_init", "automunge_multitype_fields", "tooltips")
SCHEMA = ("abs", "schema")


def accessor_attrs(ctx, rep, cls, name):
    """the attributes of the factory a public property reads"""
    m = ctx.prog.cls(cls).methods.get(name)
    if m is None:
        raise AnchorError(f"{cls} has no {name}")

    sc = Round(("none",))
    sc.ours = {("self", cls)}
    c = Seen(ctx, m, sc)
    ip = ctx.interp([c], opaque=PLAIN, models=COPIES)
    ip.dom = sc
    ip.run_entry(m)
    rep.fns |= ip.fns_seen
    return {y[2] for y in c.got if y[0] == "attr" and y[1] == ("self", cls)}


def reach(ts, st):
    out, work = set(), list(ts)
    while work:
        for x in walk(work.pop()):
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x not in out:
                out.add(x)
                c = st.heap.get(x) if x[0] == "new" else None
                if c is not None:
                    work += list(c.elems) + [v for kv in c.items for v in kv]
    return out


def shuffled(ts, st):
    """a sequence in `ts`, or in what they hold, that was sorted, reversed or went through a set"""
    seen, work = set(), list(ts)
    while work:
        for x in alts(work.pop()):
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "perm" or x[0] == "new" and x[1] in ("set", "frozenset"):
                return True
            c = st.heap.get(x) if x[0] == "new" else None
            if c is not None:
                work += [v for _, v in c.items] or list(c.elems)
                work += [c.order] if c.order is not None else []
            elif x[0] == "tuple":
                work += x[1:]
    return False


class Seen(Parts):
    """what the returned value is made of"""
    got = frozenset()

    def event(self, ev, ip):
        super().event(ev, ip)
        if ev.kind == "return" and len(ev.stack) == 1:
            self.got = self.got | self.spread([ev.value], ev.st)


def C15(ctx, rep):
    rep.rule("schema", "every attribute behind the documented schema entries is in the dictionary schema(True) returns, whole")
    rep.rule("create", "create_from_full_schema, given a dictionary with every key, hands each entry of each key to the method that edits the "
             "attribute the key was read from, all of its parts, on every path")
    rep.rule("clone", "clone() makes the new factory of its full schema and copies by hand, on every path, each attribute the schema does not "
             "carry; also under table restrictions (of a table kept) and, given a convert_dat, into the other kind of factory")
    rep.rule("restrict", "what clone does to the schema under table restrictions keeps every key, and everything of a table that is kept")
    rep.rule("edit", "clone_add_a_table, clone_add_a_column, clone_remove_a_column return a clone made of the whole schema, of all tables")
    rep.rule("rename", "renaming a column carries its data type, default value, tool tip and foreign keys over")
    all_slots = {cls: slots(ctx, rep, cls) for cls in FACTORIES}
    by_schema = {}
    for cls in FACTORIES:
        by_schema[cls] = schema_rule(ctx, rep, cls, all_slots[cls])
        create_rule(ctx, rep, cls, all_slots[cls], by_schema[cls])
    for cls in FACTORIES:
        clone_rule(ctx, rep, cls, all_slots, by_schema[cls])
    restrict_rule(ctx, rep, sorted({k for cls in FACTORIES for k in by_schema[cls]}))
    rename_rule(ctx, rep, all_slots)
    edit_rule(ctx, rep)
    rep.info["attributes of a factory"] = {c: sorted(s) for c, s in all_slots.items()}
    rep.info["carried by the schema dictionary"] = {c: {k: sorted(v) for k, v in d.items()} for c, d in by_schema.items()}


def schema_rule(ctx, rep, cls, setters):
    q, me = cls + ".schema", ("self", cls)
    out = {}
    need = {n: accessor_attrs(ctx, rep, cls, n) & set(setters) for n in DOCUMENTED}
    for n, got in need.items():
        if not got:
            raise AnchorError(f"{cls}.{n}: which attribute is behind it is not clear")
    tables = {y for n in ("primary_key_fields", "data_fields") for y in accessor_attrs(ctx, rep, cls, n)} | {"generic_tables"}
    for where, ds in contents(ctx, rep, q, [me], {ctx.prog.fn(q).params[1]: TRUE}):
        for d in ds:
            held = {}
            for k, (ok, made) in d.items():
                mine = {y[2] for y in made if y[0] == "attr" and y[1] == me}
                if k == "tables_fields":
                    rep.ob("schema", f"{q} {where} {k}", ok and mine >= tables, key=f"{q}:{k}",
                           what=f"{where} {q}: the tables and fields in the dictionary may be incomplete")
                    continue
                out.setdefault(k, set()).update(mine & set(setters))
                if ok:
                    for a in mine:
                        held.setdefault(a, set()).add(k)
            for n, got in need.items():
                for a in got:
                    rep.ob("schema", f"{q} {where} {n}", n in held.get(a, ()), key=f"{q}:{n}",
                           what=f"{where} {q}: {n} is not in the dictionary, or not all of it")
            rep.ob("schema", f"{q} {where} tables_fields", "tables_fields" in d, key=f"{q}:tables_fields",
                   what=f"{where} {q}: the dictionary has no tables_fields")
    return out


def create_rule(ctx, rep, cls, setters, by_schema):
    q = cls + ".create_from_full_schema"
    dat = ("param", q, ctx.prog.fn(q).params[0])
    wanted = {TABLES: {("item", dat, const("tables_fields"))}}
    for k, got in by_schema.items():
        for a in got:
            wanted.setdefault(a, set()).add(("item", dat, const(k)))
    for a in sorted(wanted):
        outs = []
        for w in sorted(wanted[a]):
            c = feed(ctx, rep, q, [dat], {a: {w}}, setters, only=w)
            outs += c.out
        if not outs:
            rep.ob("create", q, False, key=q, what=f"{q} never returns a factory when given a full schema")
        for where, missing in outs:
            rep.ob("create", f"{q} {where} {a}", a not in missing, key=f"{q}:{a}",
                   what=f"{where} {q}: {a.strip('_')} of the schema may not reach the new factory, or not all of it")


def clone_rule(ctx, rep, cls, all_slots, by_schema):
    q, me = cls + ".clone", ("self", cls)
    carried = {a for v in by_schema.values() for a in v}
    models = {KEEP: lambda ip, q, s, args, kw, st, node, star, ds: args[0] if args else kw.get("schema")}
    for f in FACTORIES:
        models[f + ".schema"] = lambda ip, q, s, args, kw, st, node, star, ds: \
            SCHEMA if s == me and TRUE in list(args) + list(kw.values()) else ("abs", "partial schema")
        models[f + ".create_from_full_schema"] = lambda ip, q, s, args, kw, st, node, star, ds: \
            ("inst", q.rsplit(".", 1)[0], ip._site(node)) if [*args, *kw.values()] == [SCHEMA] else ("abs", "a factory of something else")
    other = next(f for f in FACTORIES if f != cls)
    ps = ctx.prog.fn(q).params
    for label, given, to in (("", {}, cls), ("under table restrictions", {"table_restrictions": None}, cls),
                             ("with convert_dat", {"convert_dat": None}, cls),
                             ("into the other kind, with convert_dat", {"convert_dat": None, "clone_factory": ("class", other)}, other)):
        args = {p: given.get(p, NONE) for p in ps[1:] if given.get(p, NONE) is not None}
        setters = all_slots[to]
        wanted = {a: {("attr", me, a)} for a in all_slots[cls] if a not in carried and a in all_slots[to]}
        wanted["_convert_dat"] = {("attr", me, "_convert_dat")} if "convert_dat" not in given else {("param", q, "convert_dat")}
        c = feed(ctx, rep, q, [me] + [("param", q, p) for p in given if p == "convert_dat"], wanted, setters, args, models)
        if not c.out:
            rep.ob("clone", f"{q} [{label}]", False, key=q + ":" + label, what=f"{q} {label}: never returns a factory")
        for where, missing in c.out:
            for a in wanted:
                rep.ob("clone", f"{q} {where} {a} [{label}]", a not in missing, key=f"{q}:{a}:{label}",
                       what=f"{where} {q} {label}: {a.strip('_')} may not reach the clone")
        for where, ok in c.returned:
            rep.ob("clone", f"{q} {where} [{label}]", ok, key=f"{q}:schema:{label}",
                   what=f"{where} {q} {label}: the clone is not made of the full schema")


class Kept(Round):
    """a table that is kept, none of whose fields is removed; the entry of the schema looked at has key `key`"""
    key = None

    def is_key(self, t):
        return any(t == ("elem", o) for o in self.ours)

    def value(self, v, st, ip):
        if v[0] == "or" and root(v[1][0])[0] == "param" and root(v[1][0])[2] == "table_restrictions":
            return v[1][0]
        return super().value(v, st, ip)

    def table(self, t):
        """a key of the entries of the schema"""
        return t[0] == "elem" and t[1][0] == "item" and t[1][1] in self.ours

    def removed(self, t, st):
        return any(x[0] == "param" and x[2] == "fields_to_remove" for x in reach([t], st))

    def compare(self, op, a, b):
        st = self.ip.frames[-1].cur
        if op == "Eq" and a[0] != b[0] and "const" in (a[0], b[0]):
            k, c = (a, b) if b[0] == "const" else (b, a)
            if self.is_key(k):
                return c[1] == self.key
        if op in ("In", "NotIn"):
            if self.is_key(a):
                ex = self.ip._exact(b, st)
                if ex is None and b[0] == "new" and b in st.heap:
                    ex = st.heap[b].elems
                if ex and all(x[0] == "const" for x in ex):
                    return (self.key in {x[1] for x in ex}) == (op == "In")
                if root(b)[0] == "param" and root(b)[2] == "table_restrictions":
                    return op == "In"
            if self.removed(a, st):
                return op == "NotIn"
            if self.removed(b, st) and (a[0] == "tuple" or b[0] == "item" or self.table(a)):
                return op == "NotIn"             # (the same field name may be removed from another table)
        return super().compare(op, a, b)


def restrict_rule(ctx, rep, keys):
    ps = ctx.prog.fn(KEEP).params
    dat = ("param", KEEP, ps[0])
    for key in ["tables_fields"] + keys:
        sc = Kept(("none",))
        sc.key = key
        for where, ds in contents(ctx, rep, KEEP, [dat], {}, sc):
            for d in ds:
                ok, made = d.get(key, (False, set()))
                ok = ok and any(("item", dat, k) in made for k in (("elem", dat), const(key)))
                rep.ob("restrict", f"{KEEP} {where} {key}", ok, key=f"{KEEP}:{key}",
                       what=f"{where} {KEEP}: {key} of a table that is kept may be lost")


RENAME = "utils.clone_rename_a_column"


class Renamed(Round):
    """the column renamed has a data type, a default value and a tool tip, and is part of the foreign key looked at, whose mapping is
    one pair of fields or several"""
    several = False
    side = None                          # only this side of the foreign key is the renamed column; the other has the same name

    def there(self, t):
        return super().there(t) and not self.leaf(t)

    def equal(self, a, b):
        """is what the foreign key says the table and the field that is renamed?"""
        if a[0] == b[0] == "tuple" and len(a) == len(b):
            got = [self.equal(x, y) for x, y in zip(a[1:], b[1:])]
            return False if False in got else None if None in got else True
        for x, y in ((a, b), (b, a)):
            if y[0] == "param" and y[1] == RENAME and y[2] in ("table", "field") and x[0] == "attr" and x[2].endswith("_" + y[2]):
                return x[2].startswith(self.side) if y[2] == "table" else True
        return None

    def mapping(self, t):
        return t[0] == "attr" and t[2] == "mapping"

    def value(self, v, st, ip):
        if v[0] == "call" and str(v[1]).split(".")[-1] == "containerish" and v[2] and self.mapping(v[2][0]):
            return const(self.several)
        return super().value(v, st, ip)

    def hasattr(self, x, name, ip):
        if name[0] == "const" and name[1] in ("native_field", "foreign_field"):
            if self.mapping(x):
                return not self.several
            if x[0] == "elem" and self.mapping(x[1]):
                return self.several
        return super().hasattr(x, name, ip)

    def unknown(self, key, base, st):
        """there is nothing yet under the new name in the factory the column is renamed in"""
        return any(x[0] == "param" and x[2] == "new_field" for x in reach([key], st)) and bool(self.ours & reach([base], st))

    def method(self, ip, base, name, args, kwargs, st, node):
        self.ip = ip
        if name == "get" and args and self.unknown(args[0], base, st):
            return args[1] if len(args) > 1 else NONE
        return super().method(ip, base, name, args, kwargs, st, node)

    def compare(self, op, a, b):
        st = self.ip.frames[-1].cur
        if self.side and op in ("Eq", "NotEq"):
            got = self.equal(a, b)
            if got is not None:
                return got == (op == "Eq")
        if op in ("In", "NotIn") and self.unknown(a, b, st):
            return op == "NotIn"
        if op in ("In", "NotIn") and any(x[0] == "param" and x[2] == "field" for x in reach([a], st)):
            got = reach([b], st)
            if self.ours & got and any(x[0] == "attr" and x[2] in ("data_types", "default_values", "tooltips", "native_field", "foreign_field")
                                       for x in got):
                return op == "In"
        return super().compare(op, a, b)


class Renames(Feed):
    def __init__(self, *a):
        super().__init__(*a)
        self.placed, self.sides = [], []

    def event(self, ev, ip):
        if ev.kind == "call" and self.sc.side:
            name = str(ev.data.get("qual") or ev.target[-1]).split(".")[-1]
            if name == "add_foreign_key":
                for x in [*ev.args, *ev.kwargs.values()]:
                    for y in alts(x):
                        if y[0] == "tuple" and len(y) == 3:
                            self.sides.append((self.ctx.loc(ev.fn, ev.node), [any(r[0] == "param" and r[2] == "new_field" for z in alts(p)
                                               for r in reach([z], ev.st)) for p in y[1:]]))
        if ev.kind == "call" and ev.data.get("qual") == "utils.clone_add_a_column":
            ps = self.ctx.prog.fn(ev.qual).params
            old = ("param", RENAME, self.ctx.prog.fn(RENAME).params[2])
            for x in alts(ev.star) if ev.star is not None else [()]:
                given = dict(zip(ps, [*ev.args, *(x[1:] if x and x[0] == "tuple" else ())]), **ev.kwargs)
                pos = given.get(ps[4])
                ok = pos is not None and all(old in reach([y], ev.st) for y in alts(pos)) or \
                    bool(x) and x[0] != "tuple" and old in reach([x], ev.st)
                self.placed.append((self.ctx.loc(ev.fn, ev.node), ok))
        super().event(ev, ip)


def rename_rule(ctx, rep, all_slots):
    ps = ctx.prog.fn(RENAME).params
    dat, new, table = (("param", RENAME, p) for p in (ps[0], ps[3], ps[1]))
    setters, wanted = {}, {}
    for n in ("data_types", "default_values", "tooltips", "foreign_keys"):
        wanted[n] = {("attr", dat, n)}
        setters[n] = {m for cls in FACTORIES for a in accessor_attrs(ctx, rep, cls, n) & set(all_slots[cls]) for m in all_slots[cls][a]}
    for several in (False, True):
        sc = Renamed(("none",))
        sc.several, sc.ours = several, {dat}
        c = Renames(ctx, RENAME, sc, wanted, setters)
        c.needs, c.extra = {new}, {table, new}
        ip = ctx.interp([c], opaque=PLAIN | {"utils.clone_add_a_column", "utils.clone_remove_a_column"})
        ip.dom = sc
        ip.run_entry(RENAME, st=State(may=frozenset(("miss", ("slot", a)) for a in wanted)))
        rep.fns |= ip.fns_seen
        if not several:
            for where, ok in c.placed:
                rep.ob("rename", f"{RENAME} {where} position", ok, key=f"{RENAME}:position",
                       what=f"{where} {RENAME}: the renamed column may end up in another position")
        for where, missing in c.out:
            for a in wanted:
                rep.ob("rename", f"{RENAME} {where} {a} several={several}", a not in missing, key=f"{RENAME}:{a}:{several}",
                       what=f"{where} {RENAME}: {a} may not be carried over to the renamed column" +
                            (" (of a foreign key of several fields)" if several and a == "foreign_keys" else ""))
        if not c.out:
            raise AnchorError(f"{RENAME} returns nothing")
    for i, side in enumerate(("native", "foreign")):
        sc = Renamed(("none",))
        sc.several, sc.ours, sc.side = False, {dat}, side
        c = Renames(ctx, RENAME, sc, wanted, setters)
        c.needs, c.extra = {new}, {table, new}
        ip = ctx.interp([c], opaque=PLAIN | {"utils.clone_add_a_column", "utils.clone_remove_a_column"})
        ip.dom = sc
        ip.run_entry(RENAME, st=State(may=frozenset(("miss", ("slot", a)) for a in wanted)))
        for where, got in c.sides:
            rep.ob("rename", f"{RENAME} {where} {side} side", not got[1 - i], key=f"{RENAME}:{side} side",
                   what=f"{where} {RENAME}: a column of another table that has the same name may be renamed in a foreign key")


class Writes(Client):
    """what goes into the schema dictionary an edit makes its clone from"""

    def __init__(self, ctx, q):
        self.ctx, self.q, self.got, self.swapped, self.into = ctx, q, set(), None, set()
        self.ps = [("param", q, p) for p in ctx.prog.fn(q).params]

    def event(self, ev, ip):
        k = ev.kind
        if k in ("setitem", "mutate") and any(SCHEMA in reach([b], ev.st) for b in alts(ev.base)) or \
                k == "call" and ev.data.get("qual") == KEEP:
            ts = [t for c in ev.facts for t, _ in c]
            ts += [ev.base, ev.key, ev.value] if k == "setitem" else [ev.base, *ev.args] if k == "mutate" else [*ev.args, *ev.kwargs.values()]
            self.got |= reach(ts, ev.st)
            if k != "call" and len(self.ps) > 2 and self.ps[2] in self.got:
                for b in alts(ev.base):
                    self.into |= {x[2][1] for x in walk(b) if isinstance(x, tuple) and len(x) == 3 and x[0] == "item" and T.is_const(x[2])
                                  and x[2][1] in (0, 1) and SCHEMA in reach([x[1]], ev.st)}
        if k == "setitem":
            for v in alts(ev.value):
                ex = ip._exact(v, ev.st)
                if ex is not None and len(ex) == 2 and len(self.ps) > 3:
                    a, b = (reach([x], ev.st) & set(self.ps[2:4]) for x in ex)
                    if a == {self.ps[3]} and b == {self.ps[2]}:
                        self.swapped = self.ctx.loc(ev.fn, ev.node)


class Edited(Round):
    """clone(clone_factory=f) gives f(the full schema); create_from_full_schema(x) gives a factory of x"""

    def method(self, ip, base, name, args, kwargs, st, node):
        self.ip = ip
        if name == "clone" and base in self.ours:
            f = kwargs.get("clone_factory") or (args[1] if len(args) > 1 else None)
            tr = kwargs.get("table_restrictions") or (args[0] if args else NONE)
            if f is None or f[0] != "func" or not self.all_tables(tr, st):
                return ("abs", "a partial clone")
            return ip.call_value(f, [SCHEMA], {}, st, node)
        if name == "create_from_full_schema":
            a = args[0] if args else next(iter(kwargs.values()), NONE)
            return MADE if all(x == SCHEMA or x[0] == "new" and SCHEMA in reach([x], st) for x in alts(a)) else ("abs", "of something else")
        return None

    def all_tables(self, t, st):
        return t == NONE or any(x[0] == "attr" and x[2] == "all_tables" and x[1] in self.ours for x in reach([t], st)) and \
            not any(x[0] in ("param",) and x not in self.ours for x in reach([t], st))


MADE = ("abs", "a factory of the schema")


def edit_rule(ctx, rep):
    for n in ("clone_add_a_table", "clone_add_a_column", "clone_remove_a_column"):
        q = "utils." + n
        dat = ("param", q, ctx.prog.fn(q).params[0])
        sc = Edited(("none",))
        sc.ours = {dat}

        def keep(ip, q_, s, args, kw, st, node, star, ds):
            given = dict(zip(ctx.prog.fn(KEEP).params, args), **kw)
            t = given.get("table_restrictions", NONE)
            return given.get("schema") if sc.all_tables(t, st) else ("abs", "part of the schema")
        c, w = Seen(ctx, q, sc), Writes(ctx, q)
        ip = ctx.interp([c, w], opaque=PLAIN, models={KEEP: keep, "utils.deep_copy": lambda ip, q, s, a, *_: a[0]})
        ip.dom = sc
        got, _ = ip.run_entry(q)
        rep.fns |= ip.fns_seen
        rep.ob("edit", q, all(x == MADE for x in alts(got)), key=q, what=f"{q}: the factory returned may not be made of the whole schema ({fmt(got)[:80]})")
        for kind, want in (("primary key", 0), ("data", 1)) if n == "clone_add_a_column" else ():
            w2 = Writes(ctx, q)
            ip = ctx.interp([w2], opaque=PLAIN, models={KEEP: keep, "utils.deep_copy": lambda ip, q, s, a, *_: a[0]})
            ip.dom = sc
            ip.run_entry(q, args={ctx.prog.fn(q).params[3]: const(kind)})
            rep.ob("edit", f"{q} {kind}", w2.into <= {want}, key=f"{q}:{kind}",
                   what=f"{q}: a new {kind} field may end up among the other kind of fields")
            w.got |= {w.ps[3]}
        for p in w.ps[1:]:
            rep.ob("edit", f"{q} {p[2]}", p in w.got, key=f"{q}:{p[2]}", what=f"{q}: {p[2]} makes no difference to the schema of the clone")
        if n == "clone_add_a_table":
            rep.ob("edit", f"{q} kinds of fields", not w.swapped, key=f"{q}:swapped",
                   what=f"{w.swapped} {q}: primary key and data fields change places")
    for n in ("clone_add_a_table", "clone_add_a_column", "clone_remove_a_column", "clone_rename_a_column"):
        q = "utils." + n
        for cls in FACTORIES:
            m = ctx.prog.cls(cls).methods.get(n)
            ip = ctx.interp([], opaque={q})
            if m is None:
                raise AnchorError(f"{cls}.{n} is not there")
            got, _ = ip.run_entry(m)
            want = [("self", cls)] + [("param", m, p) for p in ctx.prog.fn(m).params[1:]]
            ps = ctx.prog.fn(q).params
            rep.ob("edit", m, all(x[0] == "call" and x[1] == q and [dict(zip(ps, x[2]), **dict(x[3])).get(p) for p in ps] == want
                                  for x in alts(got)), key=m,
                   what=f"{m} does not return the edited clone, or hands its arguments over in another order")
