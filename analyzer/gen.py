"""Analysis of the descriptor generator: every abstract path through the generator is compared with the
descriptor specification (field placement, labels, numbers, ranges, locations)."""
import re
from ai import *
from ai import PUSHED
import models as M

AST = "protox_parse::ast::"
PT = "prost_types::"
PEK = "protox_parse::error::ParseErrorKind"
LOC = PT + "source_code_info::Location"
DESCRIPTORS = {PT + x for x in (
    "DescriptorProto", "FieldDescriptorProto", "EnumDescriptorProto", "EnumValueDescriptorProto", "ServiceDescriptorProto",
    "MethodDescriptorProto", "OneofDescriptorProto", "descriptor_proto::ExtensionRange", "descriptor_proto::ReservedRange",
    "enum_descriptor_proto::EnumReservedRange", "UninterpretedOption", "uninterpreted_option::NamePart")}


def short_t(p):
    return p.split("::")[-1]


class Split(Exception):
    def __init__(self, opts):
        self.opts = opts


BASE = P("BASE")


class Schema:
    def __init__(self, prog):
        self.prog = prog

    def adt(self, path):
        a = self.prog.adt_path.get(path)
        if a is None:
            raise KeyError("type %s" % path)
        return a

    def variant(self, path, name):
        for i, v in enumerate(self.adt(path)["variants"]):
            if v["name"] == name:
                return i
        raise KeyError("variant %s::%s" % (path, name))

    def fidx(self, path, name, variant=None):
        vs = self.adt(path)["variants"]
        vi = self.variant(path, variant) if variant else 0
        for i, f in enumerate(vs[vi]["fields"]):
            if f[0] == name:
                return vi, i
        raise KeyError("field %s.%s" % (path, name))

    def f(self, v, path, name, variant=None):
        vi, i = self.fidx(path, name, variant)
        return field(v, vi, i)

    def fields(self, v, path, variant=0):
        """dict of named fields of an aggregate value"""
        fs = self.adt(path)["variants"][variant]["fields"]
        return {f[0]: field(v, variant, i) for i, f in enumerate(fs)}

    def a(self, v, name, variant=None):
        """AST accessor: `v` is (term, ast type short name)"""
        t, ty = v
        path = AST + ty
        vi, i = self.fidx(path, name, variant)
        vs = self.adt(path)["variants"]
        fty = self.tystr(path, vi, i)
        m = re.search(r"protox_parse::ast::(\w+)", fty)
        return (field(t, vi, i), m.group(1) if m else fty)

    def tystr(self, path, vi, i):
        for s, a in self.prog.adts.items():
            if a["path"] == path:
                crate = self.prog.tykind[s]["crate"]
                return crate.types[a["variants"][vi]["fields"][i][1]]["s"]


class Q:
    """queries over the facts of a path; raises Split where the path does not decide"""

    def __init__(self, eng, facts):
        self.eng, self.facts = eng, facts
        self.spots = None
        self.extra = ()
        self.st = State()
        self.st.facts = dict(facts)

    def variant(self, t, adt):
        """name of the variant of term t"""
        a = self.eng.prog.adt_path[adt]
        if t.k == "A":
            return a["variants"][t.a[1]]["name"]
        d = mk("discr", t, adt)
        r = self.eng.rng(self.st, d)
        vals = []
        for l, h in r:
            vals += list(range(l, h + 1))
        if len(vals) == 1:
            for i, v in enumerate(a["variants"]):
                if int(v["discr"]) == vals[0]:
                    return v["name"]
        raise Split([(d, ((x, x),)) for x in vals])

    def truth(self, b):
        if b.k == "i":
            return bool(b.a[0])
        t = self.eng.truth(self.st, b)
        if t is None:
            raise Split([("assume", b, True), ("assume", b, False)])
        return t

    def boolean(self, t):
        if t.k == "i":
            return bool(t.a[0])
        r = self.eng.rng(self.st, t, "bool")
        if len(r) == 1 and r[0][0] == r[0][1]:
            return bool(r[0][0])
        raise Split([(t, ((0, 0),)), (t, ((1, 1),))])

    def within(self, t, rs, ty):
        if t.k == "i":
            return any(l <= t.a[0] <= h for l, h in rs)
        cur = self.eng.rng(self.st, t, ty)
        a = rs_and(cur, rs)
        if not a:
            return False
        b = rs_and(cur, rs_not(rs))
        if not b:
            return True
        raise Split([(t, a), (t, b)])

    def streq(self, t, s):
        return self.truth(self.eng.eq(self.st, t, S(s), "str"))

    def opt(self, t):
        """payload of an Option term or None"""
        return field(t, 1, 0) if self.variant(t, OPT) == "Some" else None


def decide(eng, facts, fn, limit=4096):
    """runs spec function fn(q) on every refinement of the facts; yields (result, facts)"""
    todo = [facts]
    n = 0
    while todo:
        f = todo.pop()
        n += 1
        if n > limit:
            raise Budget("spec refinement limit")
        if late():
            raise Budget("no time left")
        q = Q(eng, f)
        try:
            yield fn(q), f
        except Split as s:
            for o in s.opts:
                st = State()
                st.facts = dict(f)
                if o[0] == "assume":
                    if not eng.assume(st, o[1], o[2]):
                        continue
                else:
                    if not eng.narrow(st, o[0], o[1]):
                        continue
                todo.append(st.facts)


NONEMPTY = {"&" + AST + "FullIdent": "parts", "&" + AST + "OptionBody": "name"}


def nonempty(eng, st, coll):
    """is this the list of parts of the node whose method is running?  The parser never leaves it empty (P01)"""
    if coll.k == "f" and coll.a[1] == 0:
        for fr in st.frames:
            b = fr.body
            if b.local and b.args:
                nm = NONEMPTY.get(b.crate.types[b.locals[1]]["s"])
                v = fr.locals[1] if nm else None
                if v is not None and v.k != "undef" and eng.deref(st, v) is coll.a[0]:
                    fs = eng.prog.adt_path[b.crate.types[b.locals[1]]["s"][1:]]["variants"][0]["fields"]
                    if coll.a[2] < len(fs) and fs[coll.a[2]][0] == nm:
                        return 1
    return 0


class GenClient(Client):
    def __init__(self, prog, opaque=(), assume=None, base=()):
        self.prog = prog
        self.sch = Schema(prog)
        self.opaque_fns = set(opaque)
        self.assume_elem = assume
        self.events = []
        self.seen_ev = set()
        self.rootnode = self.rootunit = None
        self.units = {}
        self.tasks = {}
        self.ctxty, self.ctxf = find_ctx(prog)
        self.sites = {}
        self.onevent = None
        self.pre = {}
        self.panics = []
        self.made = {}           # list -> collections being gone through when it is created
        self.readback = reads_back(prog)
        self.inside = {}         # collection -> collections being gone through around it

    # -- cutting at the functions that generate one unit from one AST node
    def call(self, eng, st, callee, args, site):
        key = callee.get("key")
        b = eng.prog.bodies.get(key)
        if b is None or not b.local:
            return None
        u = self.units.get(key)
        if u is not None and st.frames:
            unit, argi = u
            v = eng.deref(st, args[argi])
            if not (v is self.rootnode and unit == self.rootunit):
                return self.cut(eng, st, unit, key, b, argi, v, args)
        if M.norm_path(b.path) in self.opaque_fns:
            vals = tuple(eng.deref(st, a) for a in args)
            if any(a.k == "R" for a in args) and b.crate.types[b.locals[1]]["k"] == "ref" and b.crate.types[b.locals[1]].get("mut"):
                vals = vals[1:]       # &mut self: the context itself is not part of the result's identity
            return [(st, mk("call", M.norm_path(b.path), vals))]
        return None

    def minlen(self, eng, st, coll):
        return nonempty(eng, st, coll)

    def scalar_code(self, eng, st, v):
        """is v the type code of a type that is known not to be a type name here?"""
        if v.k != "gen" or v.a[0] != "tycode":
            return False
        r = eng.rng(st, mk("discr", v.a[2], AST + "Ty"))
        n = self.sch.variant(AST + "Ty", "Named")
        return bool(r) and not rs_and(r, ((n, n),))

    def cut(self, eng, st, unit, key, b, argi, node, args):
        rest = []
        path = None
        vids = []
        out = []
        for i, a in enumerate(args):
            if i == argi:
                if a.k == "R":
                    out.append(i)
                rest.append(NODE)
                continue
            v = eng.deref(st, a)
            ty = b.crate.types[b.locals[i + 1]]
            if v.k == "A" and v.a[0] == self.ctxty:
                path = field(v, 0, self.ctxf["path"])
                self.emit(eng, st, "ctx", (field(v, 0, self.ctxf["syntax"]), tuple(x for i2, x in enumerate(v.a[2]) if i2 not in self.ctxf.values())))
                rest.append(CTX)
            elif a.k == "R" and ty["k"] == "ref" and ty.get("mut"):
                if v.k == "V":
                    vids.append(v.a[0])
                    v = mk("V", v.a[0], frozenset())
                rest.append(v)
            else:
                rest.append(v)
        if path is not None and path.k == "A":
            path = A("vec", 0, path.a[2])
        tok = mk("gen", unit, key, node, tuple(rest), path if path is not None else UNDEF)
        self.tasks.setdefault((unit, key, tuple(rest)), tok)
        self.pre.setdefault((unit, key, tuple(rest)), []).append(frozenset(v for v in rest if self.scalar_code(eng, st, v)))
        for vid in vids:
            M.fresh(eng, st, [mk("last", vid), mk("len", vid)])
        if self.readback and any(x is CTX for x in rest):
            lv = mk("vid", LOC, "ctx")
            M.fresh(eng, st, [mk("len", lv), mk("at", mk("V", lv, frozenset()), mk("fromend", I(1)))])
            st.cl.pop("lastloc", None)
            # the token keeps the length the callee saw
        self.emit(eng, st, "cut", tok)
        if unit == "take":
            a = args[argi]
            nm = rest[1 - argi]
            base, names = (node.a[0], node.a[1]) if node.k == "rest" else (node, frozenset())
            M.setref(eng, st, a, mk("rest", base, names | {nm}))
            if nm in names:
                base = node
            return [(st, mk("take", base, nm))]
        return [(st, tok)]

    def length(self, eng, st, v):
        """the path starts with the path of the construct around this one"""
        if v.a[2] and v.a[2][0] is BASE:
            n = mk("len", BASE)
            if n not in st.facts:
                st.facts[n] = ((0, 2 ** 40),)
            return eng.add(n, len(v.a[2]) - 1)
        return None

    def place(self, eng, st, v, ix):
        if v.a[2] and v.a[2][0] is BASE:
            n = mk("len", BASE)
            if ix is n:
                return 1
            return ix.a[1] + 1 if ix.k == "add" and ix.a[0] is n and ix.a[1] >= 0 else None
        return eng.const_of(st, ix)

    def ctx_fields(self):
        a = self.sch.adt(self.ctxty)
        out = []
        for i, f in enumerate(a["variants"][0]["fields"]):
            s = self.sch.tystr(self.ctxty, 0, i)
            if i == self.ctxf["path"]:
                out.append(A("vec", 0, (BASE,)))
            elif s.startswith("std::vec::Vec<"):
                out.append(mk("V", mk("vid", s[len("std::vec::Vec<"):-1], "ctx"), frozenset()))
            else:
                out.append(P(f[0] if i != self.ctxf["syntax"] else "syntax"))
        return out

    # -- collecting
    def lenfacts(self, vid):
        return len(vid.a) > 1 and isinstance(vid.a[0], str) and "UninterpretedOption" in vid.a[0]

    def push(self, eng, st, ref, old, elem):
        if elem.k == "A":
            if elem.a[0] == PEK:
                sk = st.cl.get("stack")
                self.emit(eng, st, "error", (elem, tuple(sk or ())))
                st.cl["err"] = st.cl.get("err", frozenset()) | {sk[-1] if sk else UNDEF}
                return True
            if elem.a[0] == LOC:
                if self.readback and old.k == "V":
                    M.fresh(eng, st, [mk("len", old.a[0]), mk("at", old, mk("fromend", I(1)))])
                    st.cl["lastloc"] = elem
                st.cl["locs"] = st.cl.get("locs", frozenset()) | {elem}
                self.emit(eng, st, "loc", elem)
                return True
        if old.k == "V" or (old.k == "A" and old.a[0] == "vec"):
            ety = self.vec_ety(old)
            if ety is not None and ("UninterpretedOption" in ety or "NamePart" in ety):
                # the element is checked when it is pushed, and only its source is kept
                st.cl["pushing"] = elem
                return (mk("done", self.source(st), short_t(ety)),)
            if ety is not None and ety.startswith("prost_types::") or ety == "std::string::String":
                st.cl["pushing"] = elem
                return "virtual"
            if ety in M.INT_TYS:
                st.cl["pushing"] = elem
                return "virtual"
        return False

    def tracks(self, ety):
        return ety.startswith("prost_types::") or ety == "std::string::String"

    def source(self, st):
        """the AST element being processed by the innermost loop"""
        s = st.cl.get("stack")
        return mk("elem", s[-1]) if s else UNDEF

    def vec_ety(self, v):
        if v.k == "V" and v.a[0].a and isinstance(v.a[0].a[0], str):
            return v.a[0].a[0]
        return None

    def pushed(self, eng, st, vid, elem, ref):
        e = st.cl.pop("pushing", None)
        if e is None:
            return
        e = M.rename(e, mk("len", vid), mk("last", vid))
        self.complete(eng, st, "push", vid, e, mk("last", vid))

    def lastelem(self, st, v):
        """a location recorded by another function is that of another node; only those recorded here are looked at"""
        return st.cl.get("lastloc", NONE) if v.a[0].k == "vid" and v.a[0].a[0] == LOC else None

    def vstore(self, eng, st, v, ix, nv):
        last = self.lastelem(st, v)
        if last not in (None, NONE) and ix.k == "fromend" and nv.k == "A" and nv.a[0] == LOC:
            # the location recorded last is completed in place
            st.cl["locs"] = st.cl.get("locs", frozenset()) - {last} | {nv}
            st.cl["lastloc"] = nv
            self.emit(eng, st, "loc", nv)
            return True
        ety = self.vec_ety(v)
        if ety is not None and ety.startswith("prost_types::"):
            self.complete(eng, st, "store", v.a[0], nv, ix)
            return True
        return False

    def complete(self, eng, st, how, vid, e, ix):
        s = st.cl.get("stack")
        st.cl["pushes"] = st.cl.get("pushes", frozenset()) | {(how, vid, e, ix, s[-1] if s else UNDEF)}

    def item_done(self, eng, st, coll, e):
        """the iteration that processed AST element e is over: report what it produced"""
        mine, rest = [], []
        ixs = set()
        for p in st.cl.get("pushes", ()):
            if p[4] is coll or e in subs(p[2]) or e in subs(p[4]):
                mine.append(p)
                ixs.add(p[3])
            else:
                rest.append(p)
        locs, keep = [], []
        for l in st.cl.get("locs", ()):
            if e in subs(l) or any(i in subs(l) for i in ixs if i.k != "i"):
                locs.append(l)
            else:
                keep.append(l)
        errs = st.cl.get("err", frozenset())
        bad = frozenset(c for c in errs if c is coll or e in subs(c))
        sk = st.cl.get("stack", ())
        self.inside.setdefault(coll, set()).update(sk[:sk.index(coll)] if coll in sk else sk)
        fr = st.frames[-1]
        self.emit(eng, st, "item", (e, frozenset(mine), frozenset(locs), bool(bad), (fr.body.key, fr.blk)))
        st.cl["pushes"] = frozenset(rest)
        st.cl["locs"] = frozenset(keep)
        st.cl["err"] = errs - bad

    def newvec(self, eng, st, elemty):
        self.made.setdefault(M.vid_of(st, elemty), set()).update(st.cl.get("stack", ()))
        if elemty in M.INT_TYS:
            return not builds_context(st.frames[-1].body)
        return False

    def emit(self, eng, st, kind, payload):
        ev = (kind, payload, tuple(sorted(st.facts.items(), key=lambda x: id(x[0]))))
        if ev in self.seen_ev:
            return
        self.seen_ev.add(ev)
        self.events.append((kind, payload, dict(st.facts), st.where(), st.trace))

    def event(self, eng, st, kind, *a):
        self.emit(eng, st, kind, tuple(tuple(x) if isinstance(x, list) else x for x in a))
        if kind == "resize":
            return True

    def widen(self, eng, st, body, local, c, v):
        if body.local:
            self.emit(eng, st, "widen", (c, v))

    def elem(self, eng, st, coll, e):
        s = st.cl.get("stack", ())
        st.cl["stack"] = s[:s.index(coll) + 1] if coll in s else s + (coll,)
        if self.assume_elem:
            self.assume_elem(self, eng, st, coll, e)

    def exhausted(self, eng, st, coll):
        s = st.cl.get("stack", ())
        if coll in s:
            st.cl["stack"] = s[:s.index(coll)]

    def renamed(self, eng, st, old, new):
        l = st.cl.get("locs")
        if l:
            st.cl["locs"] = frozenset(rn_loc(x, old, new) for x in l)
        if "lastloc" in st.cl:
            st.cl["lastloc"] = rn_loc(st.cl["lastloc"], old, new)
        l = st.cl.get("pushes")
        if l:
            st.cl["pushes"] = frozenset((h, v, M.rename(x, old, new), M.rename(i, old, new), c) for h, v, x, i, c in l)
        if "pushing" in st.cl:
            st.cl["pushing"] = M.rename(st.cl["pushing"], old, new)

    def clkey(self, st):
        return (st.cl.get("locs"), st.cl.get("err"), st.cl.get("stack"), st.cl.get("pushes"), st.cl.get("lastloc"))

    def sticky(self, t):
        if t.k == "len" and t.a[0].k == "f":
            return True
        if t.k == "len" and t.a[0].k == "vid" and str(t.a[0].a[0]).endswith("ParseErrorKind"):
            return True
        ss = subs(t)
        if any(x.k == "old" for x in ss):
            return False
        return NODEP in ss or SYN in ss


NODEP, SYN = P("node"), P("syntax")
_bc = {}


def dicts(x):
    if isinstance(x, dict):
        yield x
        for y in x.values():
            yield from dicts(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from dicts(y)


def reads_back(prog):
    """is the list of locations recorded so far looked at anywhere (last, length, elements)?"""
    for b in prog.bodies.values():
        if not b.local:
            continue
        for blk in b.raw["blocks"]:
            if blk and blk[1][0] == "call":
                for c in dicts(blk[1][1]):
                    if LOC in (c.get("targs") or []) and M.npath(c.get("path", "")).split("::")[-1] in (
                            "last", "last_mut", "len", "is_empty", "first", "first_mut", "pop", "get", "get_mut", "index", "index_mut"):
                        return True
    return False


def builds_context(body):
    r = _bc.get(body.key)
    if r is None:
        T = body.crate.types
        r = any(s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and T[s[2][1][1]]["s"].endswith("::Context")
                for b in body.raw["blocks"] if b for s in b[0])
        _bc[body.key] = r
    return r


def rn_loc(l, old, new):
    if old not in subs(l):
        return l
    return M.rename(l, old, new)


NODE, CTX = mk("NODE"), mk("CTX")
VEC = "std::vec::Vec<%s>"
OPTN = "std::option::Option<%s>"
UOPT = OPTN % (VEC % (PT + "UninterpretedOption"))
UNITS = {
    "file": (AST + "File", "std::result::Result<%sFileDescriptorProto, " % PT),
    "message": (AST + "Message", PT + "DescriptorProto"),
    "body": (AST + "MessageBody", PT + "DescriptorProto"),
    "field": (AST + "Field", PT + "FieldDescriptorProto"),
    "enum": (AST + "Enum", PT + "EnumDescriptorProto"),
    "value": (AST + "EnumValue", PT + "EnumValueDescriptorProto"),
    "service": (AST + "Service", PT + "ServiceDescriptorProto"),
    "method": (AST + "Method", PT + "MethodDescriptorProto"),
    "options": (VEC % (AST + "Option"), UOPT),
    "optlist": (OPTN % (AST + "OptionList"), UOPT),
    "option": (AST + "OptionBody", PT + "UninterpretedOption"),
    "mrange": (AST + "ReservedRange", PT + "descriptor_proto::ReservedRange"),
    "erange": (AST + "ReservedRange", PT + "descriptor_proto::ExtensionRange"),
    "enrange": (AST + "ReservedRange", PT + "enum_descriptor_proto::EnumReservedRange"),
    "take": (OPTN % (AST + "OptionList"), OPTN % (AST + "OptionBody")),
    "default": (AST + "OptionValue", OPTN % "std::string::String"),
    "tokstr": (AST + "OptionValue", "std::string::String"),
    "tycode": (AST + "Ty", OPTN % (PT + "field_descriptor_proto::Type")),
    "tyname": (AST + "Ty", OPTN % "std::string::String"),
}


def find_ctx(prog):
    """the generator state: the local type that accumulates source locations"""
    for ts, a in prog.adts.items():
        if not a["path"].startswith("protox_parse::") or a["kind"].lower() != "struct":
            continue
        crate = prog.tykind[ts]["crate"]
        fs = {}
        for i, f in enumerate(a["variants"][0]["fields"]):
            t = crate.types[f[1]]["s"]
            if t == VEC % LOC:
                fs["locations"] = i
            elif t == VEC % "i32":
                fs["path"] = i
            elif t == VEC % PEK:
                fs["errors"] = i
            elif t == AST + "Syntax":
                fs["syntax"] = i
        if len(fs) == 4:
            return a["path"], fs
    raise Unsupported("no generator context type (path, locations, errors, syntax)")


def find_units(prog):
    """{function key: (unit, index of the AST argument)}"""
    out = {}
    for k, b in prog.bodies.items():
        if not b.local or b.raw.get("derived") or b.raw.get("kind") == "Closure":
            continue
        T = b.crate.types
        args = [T[b.locals[i]]["s"] for i in range(1, b.args + 1)]
        ret = T[b.locals[0]]["s"]
        for u, (node, r) in UNITS.items():
            if ret == r or (u == "file" and ret.startswith(r)):
                js = [j for j, a in enumerate(args) if re.sub(r"^&('\w+ )?(mut )?", "", a) == node]
                if len(js) != 1:
                    continue
                if u == "take" and not (len(args) == 2 and args[js[0]].startswith("&mut") and args[1 - js[0]] in ("&str", "&'static str")):
                    continue
                if u == "default" and not any("Type" in a for a in args):
                    continue
                if u == "optlist" and args[js[0]].startswith("&mut"):
                    continue
                out[k] = (u, js[0])
    return out


def line_fns(prog):
    """the functions that turn a byte range into a recorded span and that build the line table; analysed in preds.py"""
    res, new = [], []
    tys = set()
    for k, b in prog.bodies.items():
        if b.local and b.args == 2 and not b.raw.get("derived"):
            T = b.crate.types
            if T[b.locals[2]]["s"] == "std::ops::Range<usize>" and T[b.locals[0]]["s"] == "std::vec::Vec<i32>" and T[b.locals[1]]["s"].startswith("&protox_parse"):
                res.append(M.norm_path(b.path))
                tys.add(T[b.locals[1]]["s"][1:])
    for k, b in prog.bodies.items():
        if b.local and b.args == 1 and not b.raw.get("derived"):
            T = b.crate.types
            if T[b.locals[1]]["s"] == "&str" and T[b.locals[0]]["s"] in tys:
                new.append(M.norm_path(b.path))
    return res, new



def name_fns(prog):
    """the crate's own string-to-string functions that go through the string in a loop: opaque here, analysed in preds.py"""
    r = getattr(prog, "_name_fns", None)
    if r is None:
        r = {}
        for k, b in prog.bodies.items():
            if b.local and b.args == 1 and not k.startswith("promoted") and "closure" not in k:
                T = b.crate.types
                if T[b.locals[1]]["s"] == "&str" and T[b.locals[0]]["s"] == "std::string::String" and b.loop_heads:
                    r[M.norm_path(b.path)] = k
        prog._name_fns = r
    return r


def task_args(cl, prog, unit, key, rest):
    b = prog.bodies[key]
    T = b.crate.types
    heap, args = {}, []
    for i in range(b.args):
        t = T[b.locals[i + 1]]
        r = rest[i] if rest is not None else None
        if rest is not None and r is NODE or rest is None and i == cl.units[key][1]:
            if t["k"] == "ref" and t.get("mut"):
                heap[("H", "node")] = P("node")
                args.append(mk("R", ("H", "node"), (), t["s"]))
            else:
                args.append(P("node"))
        elif r is CTX:
            a = cl.sch.adt(cl.ctxty)
            fs = cl.ctx_fields()
            heap[("H", "ctx")] = A(cl.ctxty, 0, fs)
            args.append(mk("R", ("H", "ctx"), (), t["s"]))
        elif t["k"] == "ref" and t.get("mut"):
            heap[("H", "arg%d" % i)] = r if r is not None else P("arg%d" % i)
            args.append(mk("R", ("H", "arg%d" % i), (), t["s"]))
        elif r is not None:
            args.append(r)
        else:
            args.append(P(b.names[i + 1] or "arg%d" % i))
    return args, heap


def run_task(prog, unit, key, rest=None, opaque=(), assume=None, facts=None, max_steps=3_000_000):
    import asts
    cl = GenClient(prog, tuple(opaque) + tuple(sum(line_fns(prog), [])) + tuple(name_fns(prog)) + tuple(M.norm_path(prog.bodies[k].path) for k in asts.full_fns(prog)), assume)
    cl.units = find_units(prog)
    cl.rootunit, cl.rootnode = unit, P("node")
    b = prog.bodies[key]
    args, heap = task_args(cl, prog, unit, key, rest)
    e = Eng(prog, cl, max_steps=max_steps)
    cl.eng = e
    e.run(b, args, heap=heap, facts=facts)
    return e, cl


def align(e, cl):
    """`pos(c)`, the position in collection c, is the index in the list that gets one element per element of c: the events
    are rewritten to name that index"""
    groups, elsewhere = {}, set()
    for kind, pay, facts, where, trace in cl.events:
        if kind == "item":
            el, mine, locs, bad, site = pay
            groups.setdefault((el.a[0], site), []).append((mine, bad))
        elif kind == "cut":
            elsewhere |= {v for x in pay.a[3] for v in subs(x) if v.k == "vid"}
    for st, v in e.out:
        elsewhere |= {p[1] for p in st.cl.get("pushes", ())}
    by = {}
    for g, evs in groups.items():
        for v in {p[1] for mine, bad in evs for p in mine}:
            by.setdefault(v, []).append(g)
    out = {}
    for v, gs in by.items():
        if v in elsewhere or len(gs) != 1 or v not in cl.made:
            continue
        coll, site = gs[0]
        if coll in cl.made[v] or not cl.inside.get(coll, set()) <= cl.made[v]:
            continue            # the list belongs to this round, or is filled by several
        evs = groups[gs[0]]
        if all(bad or [p[0] for p in mine if p[1] is v] == ["push"] for mine, bad in evs):
            out.setdefault(coll, []).append(v)
    sub = {}
    for coll, vs in out.items():
        if len(vs) > 1:
            vs = [v for v in vs if v.a[0].startswith(PT)]
        if len(vs) == 1:
            sub[coll] = vs[0]
    if not sub:
        return
    evs = []
    for kind, pay, facts, where, trace in cl.events:
        for coll, v in sub.items():
            p = mk("pos", coll)
            if kind == "item":
                la = mk("last", v)
                el, mine, locs, bad, site = pay
                pay = (el, frozenset((h, vid, subst(x, p, la), subst(i, p, la), c) for h, vid, x, i, c in mine),
                       frozenset(subst(l, p, la) for l in locs), bad, site)
            elif kind in ("cut", "loc"):
                pay = subst(pay, p, mk("len", v))
        evs.append((kind, pay, facts, where, trace))
    cl.events[:] = evs


def scalar_facts(prog, toks):
    """a type code of a type that is not a type name: present, and the code of a scalar type (checked where the codes are made)"""
    sch = Schema(prog)
    FDT = PT + "field_descriptor_proto::Type"
    out = {}
    odd = {sch.variant(FDT, n) for n in ("Group", "Message", "Enum")} | set()
    vs = sch.adt(FDT)["variants"]
    codes = [int(v.get("discr", i)) if isinstance(v, dict) else i for i, v in enumerate(vs)]
    for t in toks:
        out[mk("discr", t, "std::option::Option")] = ((1, 1),)
        c = sorted(codes[i] for i in range(len(vs)) if i not in odd)
        r = ()
        for x in c:
            r = rs_or(r, ((x, x),))
        out[mk("discr", field(t, 1, 0), FDT)] = r
    return out


# what an analysis of one function may run into when the code has a form it cannot follow: the function is then undecided
CANNOT = (Budget, Unsupported, KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError, AssertionError)


def close_tasks(prog, opts=None):
    """all (unit, function, calling context) combinations reachable from the file generator"""
    units = find_units(prog)
    files = [k for k, (u, j) in units.items() if u == "file"]
    if len(files) != 1:
        raise Unsupported("no unique generator entry (%d)" % len(files))
    todo = [("file", files[0], None)]
    done, pre, used = {}, {}, {}
    failed = prog.gen_failed = {}
    while todo:
        t = todo.pop(0)
        if t in done or t in failed:
            continue
        p = frozenset.intersection(*pre[t]) if pre.get(t) else frozenset()
        try:
            e, cl = run_task(prog, *t, facts=scalar_facts(prog, p) if p else None)
        except CANNOT as x:
            failed[t] = "%s: %s" % (type(x).__name__, x)
            continue
        align(e, cl)
        done[t] = (e, cl)
        used[t] = p
        for x, ps in cl.pre.items():
            pre.setdefault(x, []).extend(ps)
            if x in done and not used[x] <= frozenset.intersection(*pre[x]):
                del done[x]
        for x in list(cl.tasks) + [x for x in pre if x not in done]:
            if x not in done and x not in todo:
                todo.append(x)
    return done


if __name__ == "__main__":
    import build, mir, sys, time, collections
    prog = mir.Program(build.ensure(("protox_parse",)))
    units = find_units(prog)
    for k, u in units.items():
        print(u, k)
    todo = [("file", [k for k, (u, j) in units.items() if u == "file"][0], None)]
    done = set()
    while todo:
        t = todo.pop(0)
        if t in done:
            continue
        done.add(t)
        tm = time.time()
        try:
            e, cl = run_task(prog, *t)
        except Budget as ex:
            print("BUDGET", t, ex)
            continue
        print("TASK", t[0], [show(x)[:80] for x in t[2] or ()], "out", len(e.out), "states", e.nstates, "steps", e.steps, "%.1fs" % (time.time() - tm))
        print("   opaque", e.opaque_seen)
        print("   events", dict(collections.Counter(ev[0] for ev in cl.events)))
        for x in cl.tasks:
            todo.append(x)
        if len(sys.argv) > 1 and sys.argv[1] == t[0]:
            for st, v in e.out[:int(sys.argv[2])]:
                print("  OUT", show(v)[:3000])
                for l in st.cl.get("locs", ()):
                    print("     L", show(l)[:400])
                for l in st.cl.get("pushes", ()):
                    print("     P", show(l)[:400])
                print("     F", ", ".join("%s:%s" % (show(t)[:80], f) for t, f in st.facts.items())[:1500])
            for ev in cl.events[:int(sys.argv[2])]:
                print("  EV", ev[0], show(ev[1])[:1500])
