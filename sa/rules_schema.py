"""Rules about factories: schema locking, atomic edits, exposure, frozen objects."""
import ast

from .ctx import *
from .interp import MUTATORS

WRITE_EVENTS = ("setattr", "setitem", "delitem", "delattr", "mutate")

# the documented schema-editing operations and the accessors that expose what they edit
EDITORS = ("set_data_type", "clear_data_type", "add_data_row_predicate", "add_parameter",
           "set_default_value", "set_default_values", "set_generator_tables", "clear_foreign_keys",
           "add_implied_foreign_keys", "add_foreign_key")
ACCESSORS = ("data_types", "default_values", "foreign_keys", "parameters", "generator_tables",
             "get_row_predicates")


def self_attr_of(t, roots_ok=("self", "inst", "param", "attr", "free", "call", "item")):
    """(owner term, attribute name, depth) for locations of the form owner.attr[..]..[..]"""
    res = []
    for c in chains(t):
        for i, x in enumerate(c):
            if x[0] == "attr":
                depth = sum(1 for y in c[:i] if y[0] in ("item", "elem", "getattr", "view"))
                res.append((x[1], x[2], depth))
    return res


class _Reads(Client):
    def __init__(self):
        self.attrs = set()


def accessor_slots(ctx, cls):
    """Attributes of the factory that the public schema accessors read: the schema state."""
    out = {}
    ci = ctx.prog.cls(cls)
    init_attrs = init_slots(ctx, cls)
    for a in ACCESSORS:
        q = ci.methods.get(a)
        if not q:
            continue
        names = set()
        seen, work = set(), [q]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            fn = ctx.prog.fns[x]
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    if n.attr in init_attrs:
                        names.add(n.attr)
                    m = ctx.prog.cls(cls).methods.get(n.attr)
                    if m and n.attr not in ACCESSORS:
                        work.append(m)
        out[a] = names
    return out


def init_slots(ctx, cls):
    """{attribute: (container nesting depth)} for attributes the constructor binds to mutable containers."""
    class C(Client):
        def __init__(self):
            self.slots = {}

        def event(self, ev, ip):
            if ev.kind == "setattr" and isinstance(ev.name, str):
                for b in alts(ev.base):
                    if b == ("self", cls):
                        for v in alts(ev.value):
                            if v[0] == "new" and v[1] not in ("frozenset", "tuple", "frozendict"):
                                node = getattr(ev.node, "value", None)
                                self.slots[ev.name] = max(_depth(node), self.slots.get(ev.name, 0))
    c = C()
    ip = ctx.interp([c])
    ip.run_entry(ctx.prog.cls(cls).methods["__init__"])
    return c.slots


def _depth(node):
    if isinstance(node, ast.Call):
        f = ast.unparse(node.func)
        if f.endswith("defaultdict") and node.args:
            return 2
        return 1
    if isinstance(node, (ast.Dict, ast.DictComp)):
        v = node.value if isinstance(node, ast.DictComp) else (node.values[0] if node.values else None)
        return 1 + (_depth(v) if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp))
                    else 0)
    return 1


class SlotWrites(Client):
    """Collect writes to schema slots with the facts at the write."""

    def __init__(self, slots):
        self.slots = slots
        self.writes = []

    def event(self, ev, ip):
        if ev.kind in WRITE_EVENTS:
            base = ev.base
            if ev.kind in ("setattr", "delattr"):
                if isinstance(ev.name, str) and ev.name in self.slots:
                    for b in alts(base):
                        self.writes.append((ev, b, ev.name))
                return
            for owner, name, _ in self_attr_of(base):
                if name in self.slots:
                    self.writes.append((ev, owner, name))


def _owner_class(ip, owner):
    """The factory class an owner term belongs to, "?" when unknown, None when it is something else."""
    ty = ip.type_of(owner)
    if ty is None:
        return "?"
    for f in FACTORIES:
        if f in ip.mro(ty):
            return f
    return None


class SlotGuards(Client):
    """Writes to schema state, each with the attributes of the same object known to be falsy there."""

    def __init__(self, ctx, slots, skip=()):
        self.ctx, self.slots, self.skip, self.out = ctx, slots, skip, []

    def event(self, ev, ip):
        if ev.kind not in WRITE_EVENTS:
            return
        hits = []
        if ev.kind in ("setattr", "delattr"):
            if isinstance(ev.name, str) and ev.name in self.slots:
                hits = [(b, ev.name) for b in alts(ev.base)]
        else:
            hits = [(o, n) for o, n, _ in self_attr_of(ev.base) if n in self.slots]
        for owner, name in hits:
            cls = _owner_class(ip, owner)
            if cls is None or (owner[0] == "inst" and owner[2][0] != "of"):
                continue          # another class, or a factory just created here (cannot be in use yet)
            falsy = set()
            for c in ev.facts:
                if len(c) == 1:
                    t, pol = next(iter(c))
                    if not pol and t[0] == "attr" and t[1] == owner:
                        falsy.add(t[2])
            self.out.append((cls, name, frozenset(falsy), ev.fn.qual, self.ctx.loc(ev.fn, ev.node), ev.stack))


def C01(ctx, rep):
    rep.rule("locked-write", "every write to schema state (what the accessors data_types, default_values, foreign_keys, "
             "parameters, generator_tables, get_row_predicates expose) happens only where 'not used' is known to hold "
             "on every path")
    rep.rule("marks-used", "building a data object marks the factory used on every path that returns")
    rep.rule("mark-permanent", "nothing outside the constructor makes the used mark false again")
    rep.rule("editor-present", "each documented editing operation still changes schema state")
    slots, inits = {}, set()
    for cls in FACTORIES:
        slots[cls] = set().union(*accessor_slots(ctx, cls).values())
        if len(slots[cls]) < 5:
            raise AnchorError(f"{cls}: schema state not found ({slots[cls]})")
        inits.add(ctx.prog.cls(cls).methods["__init__"])
        rep.info[f"schema state of {cls}"] = sorted(slots[cls])
    alls = set().union(*slots.values())
    entries = set(ctx.touching(alls | {"__dict__"})) | {ctx.prog.cls(c).methods[e] for c in FACTORIES for e in EDITORS
                                                         if e in ctx.prog.cls(c).methods}
    entries -= inits
    res, seen = ctx.par(entries, lambda q: SlotGuards(ctx, alls))
    rep.fns |= seen
    for cls in FACTORIES:
        ci = ctx.prog.cls(cls)
        votes = {}
        for q, out in res.items():
            for w in out:
                if w[0] == cls and w[1] in slots[cls]:
                    for f in w[2]:
                        votes[f] = votes.get(f, 0) + 1
        if not votes:
            raise AnchorError(f"{cls}: no guard attribute found at any schema write")
        flag = max(sorted(votes), key=lambda k: votes[k])
        rep.info[f"guard attribute of {cls}"] = flag
        editors = set()
        for q, out in sorted(res.items()):
            for c, name, falsy, fq, loc, stack in out:
                if c not in (cls, "?") or name not in slots[cls] or q == ci.methods.get("remove_parameter"):
                    continue       # removing a parameter stays allowed after use (the project's tests rely on it)
                if q in ci.methods.values():
                    editors.add(q.split(".")[-1])
                rep.ob("locked-write", f"{loc} ({q} writes {name})", flag in falsy, key=f"{q}->{name}",
                       what=f"{q} can change {name} (in {fq}) without having established that the factory is unused",
                       path=[f"call path: {' > '.join(stack)}"])
        for e in EDITORS:
            if e in ci.methods:
                rep.ob("editor-present", f"{cls}.{e} writes schema state", e in editors, key=f"{cls}.{e}",
                       what=f"{cls}.{e} no longer changes any schema state the analysis can see")
        _marks_used(ctx, rep, cls, flag)


def _truthy_write(ev, owner, flag):
    """Does this event make owner.flag truthy / falsy?  returns True, False or None (not a write to it)"""
    def val_truth(v, ip_st):
        for x in alts(v):
            if x[0] == "const":
                return bool(x[1])
            if x[0] == "tuple":
                return len(x) > 1
            if x[0] == "new":
                c = ip_st.heap.get(x)
                if c is not None:
                    if c.exact is not None:
                        return len(c.exact) > 0
                    return bool(c.elems)
        return False
    if ev.kind == "setattr" and ev.name == flag and owner in alts(ev.base):
        return val_truth(ev.value, ev.st)
    if ev.kind == "setitem" and ("attr", owner, flag) in alts(ev.base):
        if ev.key[0] == "slice":
            return val_truth(ev.value, ev.st)
        return True
    if ev.kind == "mutate" and ("attr", owner, flag) in alts(ev.base):
        if ev.method in ("append", "add", "insert"):
            return True
        if ev.method in ("extend", "augassign", "update", "__iadd__"):
            return val_truth(ev.args[0], ev.st) if ev.args else False
        return False
    if ev.kind in ("delitem", "delattr") and (("attr", owner, flag) in alts(ev.base) or
                                              (ev.kind == "delattr" and ev.name == flag and owner in alts(ev.base))):
        return False
    return None


def _marks_used(ctx, rep, cls, flag):
    data = ctx.data_class(cls)
    dinit = ctx.prog.cls(data).methods.get("__init__")
    if not dinit:
        rep.ob("marks-used", f"{data}", False, what=f"{data} has no constructor, so nothing marks the factory used")
        return
    class Mark(Client):
        def __init__(self):
            self.rets = []

        def event(self, ev, ip):
            owner = ("self", cls)
            w = _truthy_write(ev, owner, flag)
            if w is True:
                f = add_clauses(ev.st.facts, [frozenset([(("attr", owner, flag), True)])])
                if f is not None:
                    ev.st.facts = f
                return ["used"]
            if ev.kind == "return" and len(ip.frames) == 1:
                self.rets.append(ev)
            return None
    m = Mark()
    ip = ctx.interp([m])
    ip.run_entry(dinit)
    rep.fns |= ip.fns_seen
    if not m.rets:
        raise AnchorError(f"{dinit}: no returning path found")
    for ev in m.rets:
        ok = "used" in ev.must or implied(ev.facts, [(("attr", ("self", cls), flag), True)])
        rep.ob("marks-used", f"{ctx.loc(ev.fn, ev.node)} (end of {dinit})", ok, key=dinit,
               what=f"a data object can be built ({dinit}) without marking its factory used")

    class Reset(Client):
        def __init__(self):
            self.out = []

        def event(self, ev, ip):
            for b in alts(ev.data.get("base") or UNKNOWN):
                owner = b if ev.kind in ("setattr", "delattr") else (b[1] if b[0] == "attr" else None)
                if owner is None or _owner_class(ip, owner) not in (cls, "?") or \
                        (owner[0] == "inst" and owner[2][0] != "of"):
                    continue
                if _truthy_write(ev, owner, flag) is False:
                    self.out.append((ctx.loc(ev.fn, ev.node), ev.stack[0]))
    entries = [q for q in ctx.touching([flag]) if not q.endswith(".__init__")]
    res, seen = ctx.par(entries, lambda q: Reset())
    rep.fns |= seen
    resets = [x for o in res.values() for x in o]
    for loc, q in resets:
        rep.ob("mark-permanent", loc, False, key=q, what=f"{q} makes the used mark false again")
    rep.ob("mark-permanent", f"{cls} ({len(entries)} methods)", True)


def C02(ctx, rep):
    rep.rule("no-raise-after-write", "in an editing operation no path raises (verify / raise / assert) after it has "
             "already changed the factory")
    n = 0
    for cls in FACTORIES:
        slots = set(init_slots(ctx, cls))
        if len(slots) < 5:
            raise AnchorError(f"{cls}: constructor state not found")
        owner = ("self", cls)

        class Atom(Client):
            def __init__(self):
                self.bad, self.wrote = [], 0

            def event(self, ev, ip):
                if ev.kind in WRITE_EVENTS:
                    if ev.kind in ("setattr", "delattr"):
                        if owner in alts(ev.base) and ev.name in slots:
                            self.wrote += 1
                            return [("wrote", ev.name)]
                        return None
                    for o, name, _ in self_attr_of(ev.base):
                        if o == owner and name in slots and "cache" not in name:
                            self.wrote += 1
                            return [("wrote", name)]
                elif ev.kind == "raise":
                    w = [m for m in ev.may if isinstance(m, tuple) and m[0] == "wrote"]
                    if w:
                        self.bad.append((ev, w))
        ci = ctx.prog.cls(cls)
        for e in sorted(ci.methods):
            q = ci.methods[e]
            nm = e.split("=")[0]
            if not (nm.startswith(("set_", "clear_", "add_", "remove_", "enable_")) or e.endswith("=setter")):
                continue
            if nm in ("remove_foreign_key_failures", "set_ampl_data"):
                continue
            c = Atom()
            ip = ctx.interp([c])
            ip.run_entry(q)
            rep.fns |= ip.fns_seen
            if c.wrote:
                n += 1
            rep.ob("no-raise-after-write", f"{q} ({c.wrote} writes)", not c.bad, key=q,
                   what=f"{q} can raise after having already changed {sorted({m[1] for _, w in c.bad for m in w})}",
                   path=[f"raise at {ctx.loc(ev.fn, ev.node)} reached via {' > '.join(ev.stack)}"
                         for ev, _ in c.bad[:5]])
    if n < 14:
        raise AnchorError(f"only {n} editing operations found")
