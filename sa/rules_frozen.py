"""C04: a frozen object cannot be changed."""
import ast

from .ctx import *
from .interp import MUTATORS

DICT_MUTATORS = ("__setitem__", "__delitem__", "clear", "pop", "popitem", "setdefault", "update", "__ior__")
TYPE_CALLS = {q for q in TYPE_TESTS} | {"callable", "hasattr", "isinstance"}


def freeze_entry(ctx):
    q = "ticdatfactory.freeze_me"
    ctx.prog.fn(q)
    return q


class FlagWrites(Client):
    def __init__(self):
        self.out, self.rets = [], []
        self.loops = []

    def event(self, ev, ip):
        if ev.kind == "setattr":
            self.out.append(ev)
        elif ev.kind == "return" and len(ip.frames) == 1:
            self.rets.append(ev)
        elif ev.kind == "loop_exit":
            self.loops.append(ev)


def is_true(v):
    return all(T_true(x) for x in alts(v))


def T_true(x):
    return x[0] == "const" and x[1] is True


def allowed_guard(lit, flags, x):
    t, pol = lit
    if t[0] in ("or", "and"):
        return all(allowed_guard((y, pol), flags, x) for y in t[1])
    if t[0] == "not":
        return allowed_guard((t[1], not pol), flags, x)
    if t[0] == "union":
        return all(allowed_guard((y, pol), flags, x) for y in t[1])
    if t[0] == "call" and t[1] in TYPE_CALLS:
        return True
    if t[0] == "attr" and t[2] in flags:
        return True
    if t[0] == "cmp" and t[1] == "in" and t[3][0] == "attr" and t[3][2] in ("generic_tables", "all_tables",
                                                                           "generator_tables"):
        return True
    if t[0] == "cmp" and t[1] == "in" and t[3][0] in ("new", "frozen"):      # t in superself.generator_tables
        return True
    return False


def _args_of(t):
    """every sub-term, not descending into elements of the table"""
    out, work = set(), list(t[1:])
    while work:
        y = work.pop()
        if isinstance(y, tuple):
            if y and y[0] in ("elem", "item", "view"):
                continue
            out.add(y)
            work.extend(y)
    return out


def _about_rows(t, base):
    """t is a plain statement about the elements of base (what a finished loop over base established)"""
    return all(y[0] in ("elem", "item") and y[1] != base and contains(y, base) or
               (y[0] in ("elem", "item") and y[1] == base) for y in alts(t))


def C04(ctx, rep):
    rep.rule("dict-mutators", "every mutating method of the built-in dict is overridden by the freezable dictionary, and "
             "hands over to dict only where 'not frozen' is known")
    rep.rule("own-state", "a row / dictionary method that writes its own contents does so only where 'not frozen' is known")
    rep.rule("attribute-guard", "attribute writes of a freezable object reach the plain object only when it is not frozen, "
             "the attribute is declared always-editable, or a frozen flag is being raised")
    rep.rule("freeze-covers", "freezing raises both flags on every row, every table and every link dictionary, replaces "
             "row lists by tuples, and finally marks the object, with no exempted table or row")
    rep.rule("flag-permanent", "no code lowers a frozen flag or goes around the guards (object.__setattr__, dict.__setitem__, "
             "__dict__)")
    x = ("param", freeze_entry(ctx), ctx.prog.fn(freeze_entry(ctx)).params[0])
    fw = FlagWrites()
    ip = ctx.interp([fw])
    ip.run_entry(freeze_entry(ctx))
    rep.fns |= ip.fns_seen
    named = {n.value for m in ctx.prog.modules.values() for n in ast.walk(m.tree)
             if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    sets = [ev for ev in fw.out if isinstance(ev.name, str) and ev.name in named and any(role_free(b, x) for b in alts(ev.base))]
    flags = {ev.name for ev in sets}
    if len(flags) < 3:
        raise AnchorError(f"freezing raises too few flags: {flags}")
    for ev in sets:
        rep.ob("freeze-covers", f"{ctx.loc(ev.fn, ev.node)} {ev.name} is set to true", is_true(ev.value), key=f"value.{ev.name}",
               what=f"freezing sets {ev.name} to {fmt(ev.value)}, which need not be true")
    rep.info["frozen flags"] = sorted(flags)
    main = {ev.name for ev in sets if list(alts(ev.base)) == [x]}
    data_flags = flags - main

    def table(t):
        return t[0] == "getattr" and t[1] == x

    def role(t):
        if table(t):
            return "tables"
        if t[0] in ("elem", "item") and table(t[1]):
            return "rows"
        if t[0] == "elem" and t[1][0] == "view" and table(t[1][2]):
            return "rows"
        if t[0] == "elem" and t[1][0] == "attr" and t[1][1] == x:
            return "links"
        return None
    need = {(r, f): False for r in ("rows", "tables", "links") for f in data_flags}
    need[("tables", "tuple")] = False
    regs, why = set(), {}
    for ev in fw.out:
        guards = {l for c in ev.facts for l in c}
        # facts about something else (earlier, finished loops) are not guards of this write
        bad = [l for l in guards if not allowed_guard(l, flags, x) and not _about_rows(l[0], ev.base) and (contains(l[0], ("elem", ev.base))
               or any(contains(ev.base, s) for s in walk(l[0]) if isinstance(s, tuple) and s and s[0] in ("elem",)))]
        if not isinstance(ev.name, str):
            # the whole table object is replaced: conditions on the table itself other than its type exempt some tables
            tbls = {s for l in guards for s in walk(l[0]) if isinstance(s, tuple) and s and table(s)}
            bad = bad + [l for l in guards if not allowed_guard(l, flags, x) and
                         any(l[0] == t or (l[0][0] in ("call", "cmp", "len") and t in _args_of(l[0])) for t in tbls)]
        for b in alts(ev.base):
            r = role(b)
            if isinstance(ev.name, str) and ev.name in data_flags and r and is_true(ev.value):
                if bad:
                    why[(r, ev.name)] = fmt_lit(bad[0])
                else:
                    need[(r, ev.name)] = True
                if r == "links":
                    regs.add(b[1][2])
            elif b == x and not isinstance(ev.name, str):
                v = alts(ev.value)
                if all(y[0] in ("tuple",) or (y[0] == "new" and y[1] == "tuple") for y in v):
                    need[("tables", "tuple")] = not bad
    for (r, f), ok in sorted(need.items()):
        rep.ob("freeze-covers", f"{r}: {f}", ok, key=f"{r}.{f}",
               what=f"freezing does not unconditionally cover {r} with {f}"
                    + (f" (only where {why[(r, f)]})" if (r, f) in why else ""))
    for ev in fw.rets:
        for f in main:
            rep.ob("freeze-covers", f"{ctx.loc(ev.fn, ev.node)} marks the object", implied(ev.facts, [(("attr", x, f), True)]),
                   key=f"mark.{f}", what="freezing can return without marking the object frozen")
    for ev in fw.loops:
        if ev.breaks:
            rep.ob("freeze-covers", f"{ctx.loc(ev.fn, ev.node)} loop", False, key=f"loop.{ev.fn.qual}",
                   what="the loop over tables/rows can stop early")
    _own_freeze(ctx, rep, main)
    frozen_dict(ctx, rep, data_flags)
    _registry(ctx, rep, regs)
    _dict_classes(ctx, rep, data_flags)
    _attr_guards(ctx, rep, flags)
    _bypass(ctx, rep, flags)


def role_free(b, x):
    return b == x or contains(b, x)


def _own_freeze(ctx, rep, main):
    """The method that does the freezing, on its own: it cannot come back without having marked the object."""
    data = ctx.data_class(TDF)
    me = ("self", data)
    n = 0
    ip0 = ctx.interp([])
    for q in sorted({m for c in ip0.mro(data) if c in ctx.prog.classes for m in ctx.prog.classes[c].methods.values()}):
        fn = ctx.prog.fns[q]
        if not any(isinstance(t, ast.Attribute) and t.attr in main and isinstance(t.ctx, ast.Store) for t in ast.walk(fn.node)):
            continue
        fw = FlagWrites()
        ip = ctx.interp([fw])
        ip.run_entry(q, self_term=me)
        rep.fns |= ip.fns_seen
        for ev in fw.rets:
            n += 1
            for f in sorted(main):
                rep.ob("freeze-covers", f"{ctx.loc(ev.fn, ev.node)} {q} marks the object", implied(ev.facts, [(("attr", me, f), True)]),
                       key=f"own.{f}", what=f"{q} can return without having marked the object frozen")
    return n


def data_flags_of(ctx):
    x = ("param", freeze_entry(ctx), ctx.prog.fn(freeze_entry(ctx)).params[0])
    fw = FlagWrites()
    ip = ctx.interp([fw])
    ip.run_entry(freeze_entry(ctx))
    return {ev.name for ev in fw.out if isinstance(ev.name, str) and is_true(ev.value) and alts(ev.base) != [x]}


def frozen_dict(ctx, rep, data_flags):
    """An immutable dictionary raises both flags on itself before its constructor returns."""
    rep.rule("frozen-dict", "the immutable dictionary raises both frozen flags on every path of its constructor")
    q = ctx.prog.cls("utils.FrozenDict").methods.get("__init__")
    if q is None:
        rep.ob("frozen-dict", "utils.FrozenDict", False, what="FrozenDict has no constructor that freezes it")
        return
    fw = FlagWrites()
    ip = ctx.interp([fw])
    ip.run_entry(q)
    rep.fns |= ip.fns_seen
    for ev in fw.rets:
        for f in sorted(data_flags):
            rep.ob("frozen-dict", f"{ctx.loc(ev.fn, ev.node)} {f}",
                   implied(ev.facts, [(("attr", ("self", "utils.FrozenDict"), f), True)]), key=f,
                   what=f"a FrozenDict can be built without {f} raised")


class Always(Client):
    """Is the call on this line of the entry made on every way back from it?"""
    def __init__(self, line):
        self.line, self.at, self.rets = line, [], []

    def event(self, ev, ip):
        if len(ip.frames) != 1:
            return
        if ev.kind in ("call", "mutate") and getattr(ev.node, "lineno", None) == self.line:
            self.at.append(set(ev.facts))
        elif ev.kind == "return":
            self.rets.append(set(ev.facts))

    def bad(self):
        for r in self.rets:
            if not any(a <= r for a in self.at):
                extra = sorted({fmt(t) for a in self.at for c in a - r for t, _ in c})
                return ", ".join(extra)[:120] or "something else is so"
        return ""


def _registry(ctx, rep, regs):
    """The collection of link dictionaries that freezing walks is the one new dictionaries register in."""
    data = ctx.data_class(TDF)
    made = set()
    passed = set()

    class C(Client):
        def event(self, ev, ip):
            if ev.kind == "setattr" and ("self", data) in alts(ev.base) and isinstance(ev.name, str):
                if any(v[0] == "new" for v in alts(ev.value)):
                    made.add(ev.name)
            if ev.kind == "call" and ev.data.get("qual") in facts_fn:
                for a in list(ev.args) + list(ev.kwargs.values()):
                    for t in alts(a):
                        if t[0] == "attr" and t[1] == ("self", data):
                            passed.add((ev.qual, t[2]))
                        if t[0] == "new":
                            pass
    # functions that build a table class registering its instances in a parameter
    facts_fn, inits = {}, []
    for q, ci in ctx.prog.classes.items():
        init = ci.methods.get("__init__")
        if init is None or ci.parent_fn is None:
            continue
        for n in ast.walk(ctx.prog.fns[init].node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add") and \
                    isinstance(n.func.value, ast.Name) and n.func.value.id in ci.parent_fn.params and \
                    n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == "self":
                facts_fn[ci.parent_fn.qual] = n.func.value.id
                inits.append((init, n.lineno))
    if not facts_fn:
        raise AnchorError("no table class registers its instances any more")
    for q, line in inits:
        w = Always(line)
        ip = ctx.interp([w])
        ip.run_entry(q)
        rep.fns |= ip.fns_seen
        rep.ob("freeze-covers", f"{q} registers every new table", bool(w.at) and not w.bad(), key="registry.always",
               what=f"{q} registers a new table only when {w.bad()}, so freezing misses the others")
    ip = ctx.interp([C()])
    for m, q in sorted(ctx.prog.cls(data).methods.items()):
        ip.run_entry(q)
    rep.fns |= ip.fns_seen
    for r in sorted(regs):
        rep.ob("freeze-covers", f"registry {r} is created by the constructor", r in made, key=f"registry.{r}",
               what=f"freezing walks {r}, which the data object never creates")
    names = {a for _, a in passed} & made
    rep.ob("freeze-covers", f"link dictionaries register in {sorted(names)}", bool(regs & names), key="registry",
           what=f"link dictionaries register in {sorted(names)} but freezing walks {sorted(regs)}")


def _frozen_lit(t, flags, selfs):
    """is t 'self.<frozen flag>'?"""
    return t[0] == "attr" and t[2] in flags and t[1] in selfs


def _dict_classes(ctx, rep, flags):
    ip0 = ctx.interp([])
    classes = []
    for q in sorted(ctx.prog.classes):
        if q.startswith("testing"):
            continue
        ms = {}
        for m in DICT_MUTATORS:
            r = ip0.find_method(q, m)
            if r:
                ms[m] = r
        uses = any(("attr" in dir(n) and isinstance(n, ast.Attribute) and n.attr in flags) or
                   (isinstance(n, ast.Constant) and n.value in flags)
                   for c in ip0.mro(q) for mm in ctx.prog.classes[c].methods.values()
                   for n in ast.walk(ctx.prog.fns[mm].node))
        is_dict = _dict_based(ctx, ip0, q)
        if is_dict and uses:
            classes.append((q, True))
        elif uses and "__setitem__" in ctx.prog.classes[q].methods:
            classes.append((q, False))
    if len(classes) < 3 or not any(d for _, d in classes):
        raise AnchorError(f"freezable classes not found: {classes}")
    for q, isd in classes:
        if isd:
            for m in DICT_MUTATORS:
                r = ip0.find_method(q, m)
                rep.ob("dict-mutators", f"{q}.{m}", r is not None, key=f"{q.split('.')[-1]}.{m}",
                       what=f"{q} inherits dict.{m} unguarded: a frozen dictionary can be changed through it")
        selfs = {("self", q)}

        class C(Client):
            def __init__(self):
                self.out, self.rets = [], []

            def event(self, ev, ip):
                hit = None
                if ev.kind == "return" and len(ip.frames) == 1:
                    self.rets.append(([y for y in alts(ev.value)], any(
                        len(c) == 1 and not pol and _frozen_lit(t, flags, selfs) for c in ev.facts for t, pol in c),
                        ctx.loc(ev.fn, ev.node)))
                if ev.kind == "mutate" and ev.data.get("via_super") and set(alts(ev.base)) & selfs and \
                        ev.method in DICT_MUTATORS:
                    hit = ev.method
                elif ev.kind == "call" and ev.target[0] == "super" and ev.target[2] in DICT_MUTATORS and \
                        set(alts(ev.target[1])) & selfs:
                    hit = ev.target[2]
                elif ev.kind == "call" and ev.target[0] == "attr" and ev.target[1] == ("builtin", "dict") and \
                        ev.target[2] in DICT_MUTATORS:
                    hit = ev.target[2]
                elif ev.kind in ("setitem", "mutate", "delitem"):
                    for b in alts(ev.base):
                        for c in chains(b):
                            if len(c) >= 2 and c[-1] in selfs and c[-2][0] == "attr":
                                hit = f"{c[-2][2]}"
                if hit:
                    ok = any(len(c) == 1 and not pol and _frozen_lit(t, flags, selfs)
                             for c in ev.facts for t, pol in c)
                    self.out.append((hit, ok, ctx.loc(ev.fn, ev.node), ev.stack))
        n = 0
        stores = {t.value.attr for mm in ctx.prog.classes[q].methods.values() for t in ast.walk(ctx.prog.fns[mm].node)
                  if isinstance(t, ast.Subscript) and isinstance(t.ctx, (ast.Store, ast.Del)) and isinstance(t.value, ast.Attribute)
                  and isinstance(t.value.value, ast.Name) and t.value.value.id == "self"}
        for name in sorted(set(ctx.prog.classes[q].methods) | (set(DICT_MUTATORS) if isd else set())):
            m = ip0.find_method(q, name)
            if m is None or name == "__init__":
                continue
            c = C()
            ip = ctx.interp([c])
            ip.run_entry(m, self_term=("self", q))
            rep.fns |= ip.fns_seen
            if name in DICT_MUTATORS:
                for _, ok, loc in c.rets:
                    rep.ob("dict-mutators" if isd else "own-state", f"{loc} ({q}.{name} returns)", ok, key=f"{m}:returns",
                           what=f"{q}.{name} can return without raising for a frozen object")
            for vs, _, loc in c.rets:
                live = sorted({y[2] for y in vs if y[0] == "attr" and y[1] in selfs and y[2] in stores})
                if not name.startswith("_"):
                    rep.ob("own-state", f"{loc} ({q}.{name} hands out)", not live, key=f"{m}:live",
                           what=f"{q}.{name} hands out its own storage ({live}), which can be changed when it is frozen")
            for hit, ok, loc, stack in c.out:
                n += 1
                rep.ob("dict-mutators" if isd else "own-state", f"{loc} ({q}.{name} -> {hit})", ok, key=f"{m}:{hit}",
                       what=f"{q}.{name} changes its contents ({hit}) without having established it is not frozen")
        if not n:
            raise AnchorError(f"{q}: no mutation found")


def _dict_based(ctx, ip, q):
    for c in ip.mro(q):
        for b in ip.class_bases.get(c, ()):
            for x in alts(b):
                if x == ("builtin", "dict"):
                    return True
        ci = ctx.prog.classes[c]
        for b in ci.bases:
            nm = ast.unparse(b)
            if nm == "dict":
                return True
            # base given by a parameter of the enclosing factory function: look at its callers' arguments
            if ci.parent_fn is not None and nm in ci.parent_fn.params:
                i = ci.parent_fn.params.index(nm)
                base_names = [ast.unparse(x) for d in ip.mro(q) for x in ctx.prog.classes[d].bases]
                for m in ctx.prog.modules.values():
                    for n in ast.walk(m.tree):
                        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and \
                                ast.unparse(n.value.func).split(".")[-1] == ci.parent_fn.name and \
                                len(n.value.args) > i and ast.unparse(n.value.args[i]) == "dict" and \
                                any(isinstance(t, ast.Name) and t.id in base_names for t in n.targets):
                            return True
    return False


def _attr_guards(ctx, rep, flags):
    n = 0
    ip0 = ctx.interp([])
    for q, ci in sorted(ctx.prog.classes.items()):
        for m in ("__setattr__", "__delattr__"):
            mq = ci.methods.get(m)
            if mq is None:
                continue
            fn = ctx.prog.fns[mq]
            me = ("self", q)

            class C(Client):
                def __init__(self):
                    self.out = []

                def event(self, ev, ip):
                    if ev.kind == "call" and ev.target[0] == "super" and ev.target[2] in ("__setattr__", "__delattr__"):
                        self.out.append(ev)
            c = C()
            ip = ctx.interp([c])
            ip.run_entry(mq)
            key = ("param", mq, fn.params[1])
            val = ("param", mq, fn.params[2]) if len(fn.params) > 2 else None

            def frozen(t):
                return t[0] in ("attr", "getattr") and t[1] == me and (
                    (t[0] == "attr" and t[2] in flags) or (t[0] == "getattr" and t[2] != key)) or \
                    (t[0] == "union" and all(frozen(y) for y in t[1]))

            def lit_ok(l):
                t, pol = l
                if frozen(t) and not pol:
                    return True
                if pol and t[0] == "cmp" and t[1] == "in" and t[2] == key:
                    return True
                return False
            for ev in c.out:
                n += 1
                ok = any(all(lit_ok(l) for l in cl) and any(frozen(l[0]) for l in cl) for cl in ev.facts)
                if not ok and val is not None:
                    raising = any(len(cl) == 1 and l[1] and l[0][0] == "cmp" and l[0][1] == "==" and key in l[0][2:]
                                  and any(y[0] == "const" and y[1] in flags for y in l[0][2:])
                                  for cl in ev.facts for l in cl)
                    ok = raising and implied(ev.facts, [(val, True)])
                rep.ob("attribute-guard", f"{ctx.loc(ev.fn, ev.node)} ({mq})", ok, key=f"{mq}",
                       what=f"{mq} passes an attribute change on without having established that the object is not frozen")
    if n < 3:
        raise AnchorError(f"only {n} guarded attribute writes found")


def _bypass(ctx, rep, flags):
    n = 0
    for q, fn in sorted(ctx.prog.fns.items()):
        for nd in _own(fn):
            bad = None
            if isinstance(nd, ast.Assign):
                for t in nd.targets:
                    if isinstance(t, ast.Attribute) and t.attr in flags:
                        n += 1
                        if isinstance(nd.value, ast.Constant) and not nd.value.value:
                            bad = f"sets {t.attr} to {nd.value.value!r}"
            elif isinstance(nd, ast.Delete):
                for t in nd.targets:
                    if isinstance(t, ast.Attribute) and t.attr in flags:
                        bad = f"deletes {t.attr}"
            elif isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute):
                if isinstance(nd.func.value, ast.Name) and nd.func.value.id in ("object", "dict") and \
                        nd.func.attr in DICT_MUTATORS + ("__setattr__", "__delattr__"):
                    n += 1
                    ok = fn.cls is not None and nd.args and isinstance(nd.args[0], ast.Name) and \
                        nd.args[0].id == (fn.params or [""])[0]
                    if not ok:
                        bad = f"calls {nd.func.value.id}.{nd.func.attr} directly"
            elif isinstance(nd, ast.Attribute) and nd.attr == "__dict__" and isinstance(nd.ctx, ast.Store):
                bad = "writes __dict__"
            if bad:
                rep.ob("flag-permanent", f"{ctx.loc(fn, nd)} ({q})", False, key=q, what=f"{q} {bad}")
    rep.ob("flag-permanent", f"{len(ctx.prog.fns)} functions, {n} flag writes", True)


def _own(fn):
    from .loader import _own_nodes
    return _own_nodes(fn.node)
