"""Effect rules: C05 caller's data is never modified."""
import ast

from .ctx import *
from .rules_schema import WRITE_EVENTS

# the operations documented to edit the data object they are given
DATA_EDITORS = {"replace_data_type_failures", "remove_foreign_key_failures", "freeze_me"}


class ParamWrites(Client):
    """Writes to anything reachable from a parameter of the entry point."""

    def __init__(self, ctx, q):
        self.ctx, self.q, self.out = ctx, q, []
        a = ctx.prog.fns[q].node.args
        self.skip = {a.kwarg.arg} if a.kwarg else set()
        self.kwparam = a.kwarg.arg if a.kwarg else None

    def event(self, ev, ip):
        if ev.kind in WRITE_EVENTS:
            base = ev.base
            if ev.kind == "mutate" and ev.method == "update" and False:
                return
        elif ev.kind == "call" and ev.kwargs.get("inplace") not in (None, FALSE) and ev.data.get("recv") is not None:
            base = ev.recv
        else:
            return
        for c in chains(base):
            r = c[-1]
            if r[0] == "param" and r[1] == self.q:
                if r[2] in self.skip and len(c) == 1:
                    continue            # the ** dictionary itself belongs to the callee
                self.out.append((r[2], fmt(base)[:80], ev.fn.qual, self.ctx.loc(ev.fn, ev.node), ev.stack))


def C05(ctx, rep):
    rep.rule("no-write-to-argument", "no path of the operation writes to an object reachable from an argument "
             "(attribute, item, container or in-place pandas edit)")
    entries = []
    for cls in FACTORIES + TIC_IO + PAN_IO:
        for n, q in ctx.prog.cls(cls).methods.items():
            if (not n.startswith("_") or n == "_same_data") and not n.endswith("=setter"):
                entries.append(q)
    for f in FACTORIES:
        d = ctx.data_class(f)
        q = ctx.prog.cls(d).methods.get("__init__")
        if q:
            entries.append(q)
    if len(entries) < 90:
        raise AnchorError(f"only {len(entries)} public operations found")
    res, seen = ctx.par(entries, lambda q: ParamWrites(ctx, q))
    rep.fns |= seen
    edits = 0
    for q, out in sorted(res.items()):
        name = q.split(".")[-1]
        if name in DATA_EDITORS:
            ps = [x for x in ctx.prog.fns[q].params if x != "self"]
            edits += any(x[0] == ps[0] for x in out)
            out = [x for x in out if x[0] != ps[0]]      # the data object it is documented to edit
        if not out:
            rep.ob("no-write-to-argument", q, True)
        for p, base, fq, loc, stack in out:
            rep.ob("no-write-to-argument", f"{loc} ({q})", False, key=f"{q}:{p}",
                   what=f"{q} changes its argument {p}: write to {base} in {fq}",
                   path=[f"call path: {' > '.join(stack)}"])
    if edits < 4:
        raise AnchorError("the documented in-place editors no longer show their writes: the effect analysis is blind")
    rep.info["documented in-place editors seen writing"] = edits
