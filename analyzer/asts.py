"""The functions that compute the extent of a syntax tree node from its parts.  A function (&Node) -> Range is a *full* extent
function when, on every path, it returns the range from the start of the node's first part to the end of its last; only those are
treated as opaque by the other analyses, any other is interpreted where it is called."""
from ai import *
import models as M

AST = "protox_parse::ast::"
SPAN = "std::ops::Range<usize>"


class Extent:
    def __init__(self, prog, full):
        """full: {function key or normalised path: node type}"""
        self.prog, self.full = prog, full

    def fld(self, ty, name, variant=0):
        a = self.prog.adt_path.get(AST + ty)
        if a is None:
            return None, None
        for i, f in enumerate(a["variants"][variant]["fields"]):
            if f[0] == name or name is None and i == 0:
                return i, self.prog.tykind[AST + ty]["crate"].types[f[1]]["s"] if AST + ty in self.prog.tykind else None
        return None, None

    def variant(self, eng, st, t, ty):
        r = eng.rng(st, mk("discr", t, AST + ty))
        vs = self.prog.adt_path[AST + ty]["variants"]
        if len(vs) == 1:
            return 0
        if len(r) == 1 and r[0][0] == r[0][1]:
            for i, v in enumerate(vs):
                if int(v["discr"]) == r[0][0]:
                    return i
        return None

    def opt(self, eng, st, t):
        r = eng.rng(st, mk("discr", t, "std::option::Option"))
        return None if len(r) != 1 or r[0][0] != r[0][1] else bool(r[0][0])

    def part(self, eng, st, t, ty, side):
        """(term, type | None) of the part that gives that end of the node: None when the path does not say which"""
        f = lambda n, v=0: field(t, v, self.fld(ty, n, v)[0])
        if ty == "FullIdent":
            p = f("parts")
            return [(mk("at", p, I(0) if side == 0 else mk("fromend", I(1))), "Ident")]
        if ty == "TypeName":
            if side == 1:
                return [(f("name"), "FullIdent")]
            o = self.opt(eng, st, f("leading_dot"))
            return None if o is None else [(field(f("leading_dot"), 1, 0), None)] if o else [(f("name"), "FullIdent")]
        if ty == "OptionBody":
            if side == 1:
                return [(f("value"), "OptionValue")]
            return [(mk("at", f("name"), I(0)), "OptionNamePart")]
        if ty in ("OptionNamePart", "OptionValue"):
            v = self.variant(eng, st, t, ty)
            if v is None:
                return None
            fs = self.prog.adt_path[AST + ty]["variants"][v]["fields"]
            for i, x in enumerate(fs):
                if x[0] == "span":
                    return [(field(t, v, i), None)]
            if len(fs) == 1:
                return [(field(t, v, 0), self.node_ty(ty, v, 0))]
            return [(field(t, v, len(fs) - 1), None)]
        if ty == "ReservedRange":
            if side == 0:
                return [(f("start"), "Int")]
            e = f("end")
            v = self.variant(eng, st, e, "ReservedRangeEnd")
            if v is None:
                return None
            fs = self.prog.adt_path[AST + "ReservedRangeEnd"]["variants"][v]
            return [(f("start"), "Int")] if fs["name"] == "None" else [(field(e, v, 0), "Int" if fs["name"] == "Int" else None)]
        i, _ = self.fld(ty, "span")
        return None if i is None else [(field(t, 0, i), None)]

    def node_ty(self, ty, v, i):
        nm = self.prog.adt_path[AST + ty]["variants"][v]["name"]
        return {"Ident": "Ident", "Int": "Int", "Float": "Float", "String": "String"}.get(nm)

    def side(self, eng, st, x, t, ty, side):
        """is x that end (0 start, 1 end) of node t?  None: the path does not say"""
        if x.k == "f" and x.a[2] == side and x.a[0].k == "call" and self.is_full(x.a[0], t):
            return True
        ps = self.part(eng, st, t, ty, side)
        if ps is None:
            return None if t in subs(x) else False
        res = False
        for p, pt in ps:
            r = (x is field(p, 0, side)) if pt is None else self.side(eng, st, x, p, pt, side)
            if r:
                return True
            res = None if r is None else res
        return res

    def is_full(self, c, t):
        return c.a[0] in self.full and len(c.a[1]) == 1 and c.a[1][0] is t

    def whole(self, eng, st, x, t, ty):
        """is the range x the extent of node t?"""
        if x.k == "call" and self.is_full(x, t):
            return True
        a, b = (x.a[2] if x.k == "A" and "Range" in x.a[0] and len(x.a[2]) == 2 else (field(x, 0, 0), field(x, 0, 1)))
        r = [self.side(eng, st, a, t, ty, 0), self.side(eng, st, b, t, ty, 1)]
        return False if False in r else None if None in r else True


def candidates(prog):
    out = {}
    for k, b in prog.bodies.items():
        if not b.local or b.raw.get("derived") or b.raw.get("kind") == "Closure" or b.args != 1 or k.startswith("promoted"):
            continue
        T = b.crate.types
        a, r = T[b.locals[1]]["s"], T[b.locals[0]]["s"]
        if r == SPAN and a.startswith("&" + AST):
            out[k] = a[1 + len(AST):]
    return out


def full_fns(prog):
    """{key: node type} of the functions proved to return the full extent of their argument"""
    r = getattr(prog, "_full_fns", None)
    if r is not None:
        return r
    cand, full = candidates(prog), {}
    obl, panics = 0, []

    class C(Client):
        def call(self, eng, st, callee, args, site):
            k = callee.get("key")
            if k in full and k in cand and not (k == self.root and not st.frames):
                return [(st, mk("call", k, (eng.deref(st, args[0]),)))]
            return None

        def keep_fact(self, eng, st, t, live):
            return True

        def minlen(self, eng, st, coll):
            import gen
            return gen.nonempty(eng, st, coll)
    ch = True
    bad = {}
    while ch:
        ch = False
        for k, ty in cand.items():
            if k in full:
                continue
            c = C()
            c.root = k
            eng = Eng(prog, c, max_steps=20_000)
            n = P("node")
            try:
                outs = eng.run(prog.bodies[k], [n], {}, {}, {})
            except (Budget, Unsupported, KeyError) as x:
                bad[k] = str(x)
                continue
            ex = Extent(prog, full)
            good = bool(outs) and not getattr(c, "panics", None)
            for st, v in outs:
                obl += 1
                good = good and ex.whole(eng, st, v, n, ty) is True
            if good:
                full[k] = ty
                ch = True
            else:
                bad[k] = "; ".join(show(v)[:80] for st, v in outs[:3])
                if getattr(c, "panics", None):
                    panics.append((k,) + c.panics[0])
    prog._full_fns = full
    prog._full_stats = dict(obl=obl, panics=panics, bad={k: v for k, v in bad.items() if k not in full})
    return full


if __name__ == "__main__":
    import sys, build, mir
    sys.setrecursionlimit(20000)
    prog = mir.Program(build.ensure(("protox_parse",)))
    print(full_fns(prog))
    print(prog._full_stats)
