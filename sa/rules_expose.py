"""C03: schema state never leaks out of (or into) a factory as a live mutable container."""
import ast

from .ctx import *
from .interp import Cont, _cap, _capi
from .rules_schema import init_slots, self_attr_of, WRITE_EVENTS, _owner_class

FREEZE = "utils.deep_freeze"
FROZEN = "utils.FrozenDict"
MUT_KINDS = ("list", "dict", "set", "defaultdict")


def frozen_model(ip, q, self_term, args, kwargs, st, node, star, dstar):
    """FrozenDict(x): an immutable mapping with x's contents"""
    items, ks = set(), set()
    for a in args:
        i, k = ip._dict_items(a, st)
        items |= i
        ks |= k
    return ip._new("frozendict", node, st, Cont(_cap(frozenset(ks)), _capi(frozenset(items))))


def deep_freeze_model(ip, q, self_term, args, kwargs, st, node, star, dstar):
    return ("frozen", args[0] if args else UNKNOWN)


MODELS = {FREEZE: deep_freeze_model, FROZEN: frozen_model}


def slot_depths(ctx, cls):
    depths = dict(init_slots(ctx, cls))

    class C(Client):
        def __init__(self):
            self.out = []

        def event(self, ev, ip):
            if ev.kind in ("setitem", "delitem", "mutate"):
                for owner, name, d in self_attr_of(ev.base):
                    if owner == ("self", cls) and name in depths:
                        self.out.append((name, d + 1))
                        v = ev.data.get("value") or (ev.args[-1] if ev.data.get("args") else None)
                        if v is not None and any(x[0] == "new" and x[1] in MUT_KINDS for x in alts(v)) \
                                and ev.kind == "setitem" and ev.key[0] != "slice":
                            self.out.append((name, d + 2))
    res, _ = ctx.par([q for q in ctx.methods(cls) if q.split(".")[-1].startswith(("set_", "add_", "clear_", "__init"))],
                     lambda q: C())
    for out in res.values():
        for n, d in out:
            depths[n] = max(depths[n], d)
    return depths


def leaks(v, st, owner, depths, seen=None, lvl=0):
    """Live mutable pieces of owner's slots inside value v."""
    seen = seen if seen is not None else set()
    if v in seen or lvl > 8:
        return []
    seen.add(v)
    out = []
    for x in alts(v):
        k = x[0]
        if k == "frozen":
            continue
        if k in ("attr", "item", "getattr"):
            for c in chains(x):
                for i, y in enumerate(c):
                    if y[0] == "attr" and y[1] == owner and y[2] in depths:
                        d = sum(1 for z in c[:i] if z[0] in ("item", "getattr"))
                        # iterating a mapping gives its (immutable) keys, so an element ends the chain
                        if d < depths[y[2]] and not any(z[0] == "elem" for z in c[:i]):
                            out.append((y[2], d))
        elif k == "view":
            out += leaks(x[2], st, owner, depths, seen, lvl + 1)
        elif k == "tuple":
            for y in x[1:]:
                out += leaks(y, st, owner, depths, seen, lvl + 1)
        elif k == "new":
            c = st.heap.get(x)
            if c is not None:
                for _, y in c.items:
                    out += leaks(y, st, owner, depths, seen, lvl + 1)
                if x[1] not in ("dict", "frozendict", "set", "frozenset") or not c.items:
                    for y in c.elems:
                        out += leaks(y, st, owner, depths, seen, lvl + 1)
        elif k == "call" and isinstance(x[1], tuple) and x[1][0] in ("nt", "attr", "global", "extern"):
            for y in x[2]:
                out += leaks(y, st, owner, depths, seen, lvl + 1)
        elif k == "method" and x[2] == "copy":        # one level copied
            for n, d in leaks(x[1], st, owner, depths, seen, lvl + 1):
                if d + 1 < depths[n]:
                    out.append((n, d + 1))
    return out


def C03(ctx, rep):
    rep.rule("accessor", "no public accessor returns (or returns inside something) a live mutable container of the factory's "
             "schema state: every level of it is copied or frozen")
    rep.rule("stored-copy", "no schema edit stores a container the caller passed in without copying it")
    rep.rule("deep-freeze", "the deep freezer rebuilds every level as a frozen mapping, tuple or frozenset")
    for q in (FREEZE,):
        ctx.prog.fn(q)
    ctx.prog.cls(FROZEN)
    for cls in FACTORIES:
        depths = slot_depths(ctx, cls)
        owner = ("self", cls)
        if len(depths) < 5:
            raise AnchorError(f"{cls}: constructor state not found")
        rep.info[f"mutable state of {cls} (nesting)"] = depths

        kept = kept_later(ctx, cls, depths)

        class Acc(Client):
            def __init__(self):
                self.out, self.kept = [], {}

            def event(self, ev, ip):
                if ev.kind == "setattr" and owner in alts(ev.base):
                    for v in alts(ev.value):
                        if v[0] == "new" and v[1] in MUT_KINDS:
                            self.kept[v] = ev.name
                if ev.kind == "return" and len(ip.frames) == 1:
                    lk = set(leaks(ev.value, ev.st, owner, {**kept, **depths}))
                    lk |= {(str(self.kept[v]), 0) for v in inside(ev.value, ev.st) if v in self.kept}
                    self.out.append((sorted(lk), ctx.loc(ev.fn, ev.node)))
        accs = []
        ci = ctx.prog.cls(cls)
        for n, q in ci.methods.items():
            fn = ctx.prog.fns[q]
            if n.endswith("=setter") or n.startswith("_"):
                continue
            if any(d.endswith("property") for d in fn.decorators) or n.startswith("get_") or n == "schema":
                accs.append(q)
        if len(accs) < 10:
            raise AnchorError(f"{cls}: accessors not found")
        res, seen = ctx.par(accs, lambda q: Acc(), models=MODELS)
        rep.fns |= seen
        for q, out in sorted(res.items()):
            for lk, loc in out:
                rep.ob("accessor", f"{loc} ({q})", not lk, key=q,
                       what=f"{q} hands out live mutable schema state: {[n for n, _ in lk]}")

        class Store(Client):
            def __init__(self):
                self.out = []

            def event(self, ev, ip):
                if ev.kind not in ("setitem", "setattr", "mutate"):
                    return
                hits = []
                if ev.kind == "setattr":
                    if owner in alts(ev.base) and ev.name in depths:
                        hits = [(ev.name, 0)]
                    elif owner in alts(ev.base):
                        bad = [fmt(y) for v in alts(ev.value) if v[0] == "new" and v in ev.st.heap
                               for _, w in ev.st.heap[v].items for y in alts(w)
                               if y[0] in ("param", "item", "getattr", "elem", "attr") and chain(y)[-1][0] == "param"]
                        self.out.append((str(ev.name), ctx.loc(ev.fn, ev.node), bad))
                else:
                    for o, n, d in self_attr_of(ev.base):
                        if o == owner and n in depths:
                            if ev.kind == "setitem" and ev.key[0] == "slice":
                                continue
                            hits.append((n, d + 1))
                vals = [ev.value] if ev.kind != "mutate" else list(ev.args)
                for n, d in hits:
                    bad = []
                    if d < depths[n]:
                        for v in vals:
                            for x in alts(v):
                                if ev.kind == "mutate" and ev.method in ("extend", "update"):
                                    continue
                                if x[0] in ("param", "item", "getattr", "elem", "attr") and \
                                        chain(x)[-1][0] == "param":
                                    bad.append(fmt(x))
                    self.out.append((n, ctx.loc(ev.fn, ev.node), bad))
        ents = [q for n, q in ci.methods.items() if n == "__init__" or n.startswith(("set_", "add_"))]
        res, seen = ctx.par(ents, lambda q: Store(), models=MODELS)
        rep.fns |= seen
        for q, out in sorted(res.items()):
            for n, loc, bad in out:
                rep.ob("stored-copy", f"{loc} ({q} -> {n})", not bad, key=f"{q}->{n}",
                       what=f"{q} keeps the caller's own container in {n}: {bad}")
    _deep_freeze(ctx, rep)
    _types(ctx, rep)
    from .rules_frozen import frozen_dict, data_flags_of
    flags = data_flags_of(ctx)
    if len(flags) < 2:
        raise AnchorError(f"freezing raises too few flags: {flags}")
    frozen_dict(ctx, rep, flags)


def inside(v, st, lvl=0):
    """The containers that make up a value."""
    out = set()
    if lvl > 6:
        return out
    for x in alts(v):
        if x[0] == "new":
            out.add(x)
            c = st.heap.get(x)
            if c is not None:
                for _, y in c.items:
                    out |= inside(y, st, lvl + 1)
                if not c.items:
                    for y in c.elems:
                        out |= inside(y, st, lvl + 1)
        elif x[0] == "tuple":
            for y in x[1:]:
                out |= inside(y, st, lvl + 1)
    return out


def kept_later(ctx, cls, depths):
    """Attributes that come to hold a mutable container after the constructor: {name: nesting}"""
    owner = ("self", cls)

    class C(Client):
        def __init__(self):
            self.out = []

        def event(self, ev, ip):
            if ev.kind == "setattr" and isinstance(ev.name, str) and owner in alts(ev.base) and ev.name not in depths and \
                    not any(f.fn.qual == cls + ".__init__" for f in ip.frames):
                for v in alts(ev.value):
                    if v[0] == "new" and v[1] in MUT_KINDS:
                        self.out.append((ev.name, nested(v, ev.st)))
    ents = [q for q in ctx.methods(cls) if q.split(".")[-1] != "__init__" and
            any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr not in depths
                for x in ast.walk(ctx.prog.fns[q].node))]
    out = {}
    res, _ = ctx.par(ents, lambda q: C(), models=MODELS) if ents else ({}, None)
    for o in res.values():
        for n, d in o:
            out[n] = max(d, out.get(n, 0))
    return out


def nested(v, st, lvl=0):
    d = 1
    c = st.heap.get(v)
    if c is not None and lvl < 4:
        for y in list(c.elems) + [w for _, w in c.items]:
            for z in alts(y):
                if z[0] == "new" and z[1] in MUT_KINDS:
                    d = max(d, 1 + nested(z, st, lvl + 1))
    return d


def _types(ctx, rep):
    """What a data type is made of: numbers, truth values, texts and tuples of its own."""
    q = "utils.TypeDictionary.safe_creator"
    ctx.prog.fn(q)

    class C(Client):
        def __init__(self):
            self.out = []

        def event(self, ev, ip):
            if ev.kind == "call" and ev.data.get("qual") == "utils.TypeDictionary":
                bad = []
                for a in list(ev.args) + list(ev.kwargs.values()):
                    for x in alts(a):
                        if x[0] in ("param", "item", "getattr", "elem", "attr") and chain(x)[-1][0] == "param" and \
                                not any(len(c) == 1 and pol and t[0] == "call" and str(t[1]).endswith("numericish") and x in t[2]
                                        for c in ev.facts for t, pol in c):
                            bad.append(fmt(x))
                self.out.append((ctx.loc(ev.fn, ev.node), bad))
    models = dict(MODELS)
    models["utils.containerish"] = lambda *a, **k: const(True)
    c = C()
    ip = ctx.interp([c], models=models)
    ip.opaque.discard("utils.containerish")
    ip.run_entry(q)
    rep.fns |= ip.fns_seen
    if not c.out:
        raise AnchorError("safe_creator makes no TypeDictionary")
    for loc, bad in c.out:
        rep.ob("stored-copy", f"{loc} (a data type)", not bad, key="utils.TypeDictionary",
               what=f"a data type keeps the caller's own {bad}: changing it changes the type")


def plain(l, x):
    """The literal says that x is not a container."""
    t, pol = l
    if t[0] == "not":
        return plain((t[1], not pol), x)
    if t[0] != "call" or x not in t[2]:
        return False
    if t[1] == "hasattr":
        return not pol and ("const", "__contains__") in [y[:2] for y in t[2]]
    return str(t[1]).endswith("stringish") and pol


def _deep_freeze(ctx, rep):
    """Every value deep_freeze returns is x itself (only where x is not a container), or a frozen container whose every
    part is itself deep-frozen."""
    x = ("param", FREEZE, ctx.prog.fn(FREEZE).params[0])

    def rec(ip, q, self_term, args, kwargs, st, node, star, dstar):
        if len(ip.frames) >= 1:
            return ("frozen", args[0] if args else UNKNOWN)

    class C(Client):
        def __init__(self):
            self.out = []

        def event(self, ev, ip):
            if ev.kind != "return" or len(ip.frames) != 1:
                return
            for v in alts(ev.value):
                why = None
                if v == x:
                    if not any(all(plain(l, x) for l in c) for c in ev.facts):
                        why = "returns its argument unfrozen without a test that it is not a container"
                elif v[0] == "new" and v[1] == "frozendict":
                    c = ev.st.heap.get(v)
                    for k2, w in c.items:
                        if not (k2[0] == "frozen" and w[0] == "frozen"):
                            why = "a frozen mapping holds parts that are not frozen"
                    if not c.items:
                        why = "a frozen mapping is built without its contents"
                elif v[0] == "new" and v[1] in ("frozenset", "tuple"):
                    c = ev.st.heap.get(v)
                    if any(w[0] != "frozen" for w in c.elems):
                        why = "a frozen sequence holds parts that are not frozen"
                elif v[0] == "tuple":
                    pass
                else:
                    why = f"returns {fmt(v)}, which the analysis cannot show to be frozen"
                self.out.append((ctx.loc(ev.fn, ev.node), why))
    c = C()
    models = dict(MODELS)
    models[FREEZE] = rec
    ip = ctx.interp([c], models=models)
    ip.run_entry(FREEZE)
    rep.fns |= ip.fns_seen
    if len(c.out) < 3:
        raise AnchorError("deep_freeze has fewer than three outcomes")
    for loc, why in c.out:
        rep.ob("deep-freeze", loc, why is None, key=FREEZE, what=f"deep_freeze: {why}")
