"""The compiler crate, continued: looking files up, names of paths, loading files, descriptor sets, errors."""
from ai import *
import models as M
from compilespec import *

FRES = "protox::file::FileResolver"
COMPONENT = "std::path::Component"
CURDIR, NORMAL = 2, 4


class Look(Base):
    """operations on the world (other resolvers, the file system, the parser) as yes/no questions of the path"""

    def __init__(self, prog, rep, what, prop):
        Base.__init__(self, prog, rep)
        self.what, self.prop = what, prop
        self.unknown, self.bad = [], []
        self.colls = ()

    def flag(self, st, key, what, prop=None):
        self.bad.append((prop or self.prop, key, what, st.where() if st.frames else "", conds(st)))

    def event(self, eng, st, kind, *v):
        if kind == "rev":
            self.flag(st, "reversed", "gone through in reverse order")

    def panic(self, eng, st, what):
        self.flag(st, "panic", "a panic can be reached: %s" % what)

    def close(self):
        for u in self.unknown:
            self.rep.undecided("%s: %s" % (self.what, u))
        for prop, key, what, where, cond in self.bad:
            if self.unknown:
                self.rep.undecided("%s: %s" % (self.what, what))
            else:
                self.rep(prop, "look:%s:%s" % (self.what, key), "%s: %s" % (self.what, what), where, cond)

    def kind(self, e):
        return Flow.kind(self, e)

    def known(self, st, t):
        f = st.facts.get(t)
        return None if f not in (((0, 0),), ((1, 1),)) else f == ((1, 1),)

    def variants(self, st, t):
        """the variants of the error a path allows: set of names, or None (all)"""
        out = None
        vs = self.prog.adt_path[KIND]["variants"]
        for f, r in st.facts.items():
            if f.k == "discr" and t in subs(f) and f.a[-1] in (KIND,):
                got = {v["name"] for i, v in enumerate(vs) if any(lo <= i <= hi for lo, hi in r)}
                out = got if out is None else out & got
        return out


NOTFOUND = {"FileNotFound", "ImportNotFound", "FileNotIncluded"}


class Chain(Look):
    def elem(self, eng, st, coll, e):
        if coll in self.colls:
            st.cl["cur"] = e
        elif coll.k in ("part", "slice") and coll.a[0] in self.colls:
            self.flag(st, "part", "only some of the resolvers are asked")

    def state(self, st, e, q):
        """what the resolver answered: hit, miss, error or None"""
        a = self.known(st, mk("pred", q, e, self.arg))
        if a is True:
            return "hit"
        if q == "resolves":
            return None if a is None else "miss"
        if a is False:
            er = mk("operr", e, self.arg)
            nf = self.known(st, mk("pred", "isnf", er))
            if nf is None:
                vs = self.variants(st, er)
                nf = None if vs is None else True if vs <= NOTFOUND else False if not vs & NOTFOUND else None
            return "error?" if nf is None else "miss" if nf else "error"
        return None

    def item_done(self, eng, st, coll, e):
        if coll in self.colls:
            self.rep.ob()
            s = self.state(st, e, self.q)
            if s == "hit":
                st.cl["passed"] = "a resolver that has the file is passed over"
            elif s == "error":
                st.cl["passed"] = "the error of a resolver that has the file is passed over"
            elif s == "error?":
                st.cl["passed"] = "an error of a resolver is passed over without looking whether it says that there is no such file"
            elif s is None:
                st.cl["passed"] = "a resolver is not asked"

    def exhausted(self, eng, st, coll):
        if coll in self.colls:
            st.cl["end"] = 1

    def call(self, eng, st, callee, args, site):
        v = [eng.deref(st, a) for a in args]
        tr, m = callee.get("trait"), callee.get("method")
        if tr == FRES and m in ("resolve_path", "open_file") and v[0] is not self.selfv:
            e = v[0]
            q = "resolves" if m == "resolve_path" else "opens"
            if v[1] is not self.arg:
                self.flag(st, "arg", "a resolver is asked for %s" % show(v[1])[:80])
            t = mk("pred", q, e, v[1])
            if q == "resolves":
                return self.fork(eng, st, t, lambda s: (s, some(mk("resolved", e, v[1]))), lambda s: (s, NONE))
            return self.fork(eng, st, t, lambda s: (s, ok(mk("file", e, v[1]))), lambda s: (s, err(mk("operr", e, v[1]))))
        if bare(callee.get("key") or "") == ERR + "::is_file_not_found":
            return self.fork(eng, st, mk("pred", "isnf", v[0]), lambda s: (s, TRUE), lambda s: (s, FALSE))
        return None


def methods(prog, ty, m):
    return [k for k in prog.bodies if prog.bodies[k].local and prog.bodies[k].raw.get("kind") != "Closure"
            and re.match(r"<%s(<.*>)? as protox::file::FileResolver>::%s$" % (re.escape(ty), m), k)]


def typefield(prog, path, want):
    T = prog.crates["protox"].types
    fs = prog.adt_path[path]["variants"][0]["fields"]
    r = [i for i, f in enumerate(fs) if want(T[f[1]]["s"])]
    if len(r) != 1:
        raise Unsupported("no unique field of %s" % path)
    return r[0], len(fs)


def chain(prog, rep):
    CH = "protox::file::chain::ChainFileResolver"
    CH = next(p for p in prog.adt_path if p.endswith("::ChainFileResolver"))
    ix, n = typefield(prog, CH, lambda s: "dyn" in s and "FileResolver" in s)
    R = P("resolvers")
    for m in ("resolve_path", "open_file"):
        k = methods(prog, CH, m)
        if not k:
            rep("P25", "chain:none:" + m, "the chain of resolvers does not implement " + m)
            continue
        heap = {}
        fs = [P("f%d" % i) for i in range(n)]
        fs[ix] = R
        c = Chain(prog, rep, "chain." + m, "P25")
        c.selfv, c.arg, c.colls, c.q = A(CH, 0, fs), P("arg"), (R,), "resolves" if m == "resolve_path" else "opens"
        eng, outs = interp(prog, rep, c, k[0], [ref("self", c.selfv, heap, CH), P("arg")], heap)
        for st, v in outs or ():
            rep.ob(2)
            e = st.cl.get("cur")
            if st.cl.get("passed"):
                c.flag(st, "passed", st.cl["passed"])
                continue
            s = e is not None and not st.cl.get("end") and c.state(st, e, c.q)
            if m == "resolve_path":
                if v is NONE:
                    if not st.cl.get("end"):
                        c.flag(st, "early", "gives up before every resolver was asked")
                elif not (s == "hit" and v is some(mk("resolved", e, P("arg")))):
                    c.flag(st, "result", "gives %s" % show(v)[:100])
            elif v.k == "A" and v.a[0] == RES and v.a[1] == 0:
                if not (s == "hit" and v.a[2][0] is mk("file", e, P("arg"))):
                    c.flag(st, "result", "gives %s" % show(v)[:100])
            elif v.k == "A" and v.a[0] == RES:
                x = v.a[2][0]
                kd, fs_ = c.kind(x)
                if st.cl.get("end"):
                    if x.k == "operr":
                        c.unknown.append("error %s" % show(x)[:80])
                    elif kd != "FileNotFound" or fs_["name"] is not P("arg"):
                        c.flag(st, "notfound", "when no resolver has the file the error is %s" % show(x)[:100])
                elif s in ("miss", "error?"):
                    c.flag(st, "early", "an error that %s ends the search" % ("says that there is no such file" if s == "miss" else "may say that there is no such file"))
                elif not (s == "error" and x is mk("operr", e, P("arg"))):
                    c.flag(st, "error", "fails with %s" % show(x)[:100])
            else:
                c.unknown.append("result %s" % show(v)[:80])
        c.close()
        rep.samples.append("chain.%s: %d paths" % (m, len(outs or ())))
    # adding to the chain puts the resolver last
    ks = [k for k in prog.bodies if bare(k) == CH + "::add" and prog.bodies[k].args == 2]
    heap = {}
    fs = [P("f%d" % i) for i in range(n)]
    fs[ix] = A("vec", 0, (P("first"),))
    c = Look(prog, rep, "chain.add", "P25")
    eng, outs = interp(prog, rep, c, ks[0], [ref("self", A(CH, 0, fs), heap, CH), P("new")], heap)
    for st, v in outs or ():
        rep.ob()
        r = field(st.heap[("H", "self")], 0, ix)
        if not (r.k == "A" and r.a[0] in ("vec", "array")):
            c.unknown.append(show(r)[:100])
        elif r.a[2] != (P("first"), P("new")):
            c.flag(st, "order", "a resolver added to %s gives %s" % ("[first]", show(r)[:100]))
    c.close()


def boxes(prog, rep):
    for m in ("resolve_path", "open_file"):
        ks = [k for k in prog.bodies if k.startswith("<std::boxed::Box<") and k.endswith("FileResolver>::" + m) and prog.bodies[k].local]
        if not ks:
            rep("P25", "box:" + m, "a boxed resolver does not pass %s on to the resolver in the box" % m)
        for k in ks:
            heap = {}
            c = Chain(prog, rep, "box." + m, "P25")
            c.selfv, c.arg, c.q = UNIT, P("arg"), ""
            inner = P("inner")
            whole = inner
            eng, outs = interp(prog, rep, c, k, [ref("self", inner, heap, "box"), P("arg")], heap)
            for st, v in outs or ():
                rep.ob()
                inner = next((x for x in subs(v) if x.k == "f" and x.a[0] is whole), None) or next((t.a[1] for t in st.facts if t.k == "pred" and t.a[1] is not whole and whole in subs(t.a[1])), whole)
                want = [some(mk("resolved", inner, P("arg"))), NONE] if m == "resolve_path" else [ok(mk("file", inner, P("arg"))), err(mk("operr", inner, P("arg")))]
                q = mk("pred", "resolves" if m == "resolve_path" else "opens", inner, P("arg"))
                a = c.known(st, q)
                if a is None or v is not want[0 if a else 1]:
                    c.flag(st, "result", "the resolver in the box is not asked, or its answer changed: %s" % show(v)[:100])
            c.close()


class Google(Look):
    def call(self, eng, st, callee, args, site):
        k = bare(callee.get("key") or "")
        v = [eng.deref(st, a) for a in args]
        if k == FILE + "::from_source":
            return self.fork(eng, st, mk("pred", "parses", v[0], v[1]), lambda s: (s, ok(mk("fromsrc", v[0], v[1]))), lambda s: (s, err(mk("srcerr", v[0], v[1]))))
        return None


GOOGLE = ("any", "api", "descriptor", "duration", "empty", "field_mask", "source_context", "struct", "timestamp", "type", "wrappers", "compiler/plugin")


def google(prog, rep):
    G = next(p for p in prog.adt_path if p.endswith("::GoogleFileResolver"))
    k = methods(prog, G, "open_file")
    heap = {}
    c = Google(prog, rep, "google", "P25")
    eng, outs = interp(prog, rep, c, k[0], [ref("self", P("self"), heap, G), P("name")], heap)
    if outs is None:
        return
    seen = {}
    for st, v in outs:
        rep.ob()
        f = st.facts.get(P("name"))
        yes = [text(f[1])] if f is not None and f[0] == "S" and f[1] is not None else []
        for t, f in st.facts.items():
            if t.k == "stripped" and t.a[0] is P("name") and t.a[1].k == "s" and f[0] == "S" and f[1] is not None:
                yes.append(text(t.a[1].a[0]) + text(f[1]))
            elif f[0] == "S" and f[1] is not None and t is not P("name") and P("name") in subs(t):
                c.unknown.append("test of the name: %s" % show(t)[:80])
        x = v.a[2][0] if v.k == "A" and v.a[0] == RES else v
        for y in subs(x):
            if y.k in ("fromsrc", "srcerr"):
                src = y.a[1]
                p = src.a[0] if src.k == "s" else None
                p = p.decode() if isinstance(p, bytes) else p
                if p is None or not p.startswith("// stub:"):
                    c.unknown.append("text %s" % show(src)[:80])
                    break
                p = p.strip()[len("// stub:"):]
                nm = p.split("/src/", 1)[-1]
                if y.a[0] is not P("name") and y.a[0] is not S(nm):
                    c.flag(st, "name", "the file is named %s" % show(y.a[0])[:80])
                elif yes != [nm]:
                    c.flag(st, "text:" + nm, "the text of %s is given for the name %s" % (nm, yes))
                else:
                    seen[nm] = 1
                break
        else:
            kd, fs = c.kind(x)
            if yes:
                c.flag(st, "missing:" + yes[0], "%s is not given a text: %s" % (yes[0], show(x)[:80]))
            elif kd != "FileNotFound" or fs["name"] is not P("name"):
                c.flag(st, "notfound", "an unknown name gives %s" % show(x)[:80])
    if not c.unknown:
        for n in GOOGLE:
            rep.ob()
            nm = "google/protobuf/%s.proto" % n
            if nm not in seen:
                rep("P25", "look:google:has:" + nm, "the standard file %s is not found" % nm)
    c.close()
    rep.samples.append("standard files: %s" % ", ".join(sorted(seen)))


def text(x):
    return x.decode() if isinstance(x, bytes) else x


# ---------------------------------------------------------------- include paths and names of paths

def op_ident(callee):
    """conversions that keep the value"""
    return callee.get("trait") in ("std::convert::Into", "core::convert::Into", "std::convert::From", "core::convert::From", "std::convert::AsRef", "std::borrow::ToOwned") \
        and all(t.lstrip("&").split("<")[0] in ("std::path::Path", "std::path::PathBuf", "str", "std::string::String", "std::boxed::Box") for t in callee.get("targs") or ("?",))


def unclear(v):
    """does a value come from a library function the analysis knows nothing about?"""
    return any(x.k in ("havoc", "old") or x.k == "call" and bare(x.a[0]).split("::")[-1] not in CHANGES for x in subs(v))


CHANGES = ("to_string_lossy", "display", "file_name", "file_stem", "parent", "extension", "trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase",
           "to_ascii_lowercase", "to_ascii_uppercase")


class Incl(Look):
    def call(self, eng, st, callee, args, site):
        k = callee.get("key")
        v = [eng.deref(st, a) for a in args]
        path = bare(callee.get("rpath") or callee["path"])
        if k in self.x["strip"]:
            return self.fork(eng, st, mk("pred", "under", v[0], v[1]), lambda s: (s, some(mk("rel", v[0], v[1]))), lambda s: (s, NONE))
        if k in self.x["fnames"]:
            return self.fork(eng, st, mk("pred", "hasname", v[0]), lambda s: (s, some(mk("fname", v[0]))), lambda s: (s, NONE))
        if k in self.x["patheq"]:
            return self.fork(eng, st, mk("pred", "patheq", v[0], v[1]), lambda s: (s, TRUE), lambda s: (s, FALSE))
        if bare(k or "") == FILE + "::open":
            return [(st, mk("opened", *v))]
        if path == "std::path::Path::join":
            return [(st, mk("join", *v))]
        if path == "std::path::PathBuf::push" and args[0].k == "R":
            eng.store(st, args[0].a[0], args[0].a[1], mk("join", *v))
            return [(st, UNIT)]
        if op_ident(callee):
            return [(st, v[0])]
        return None


def pctx(prog):
    PP = "&std::path::Path"
    return dict(strip=set(by_sig(prog, [PP, PP], OPT + "<" + PP + ">")), fnames=set(by_sig(prog, [PP], ROPT)), patheq=set(by_sig(prog, [PP, PP], "bool")))


def include(prog, rep):
    I_ = next(p for p in prog.adt_path if p.endswith("::IncludeFileResolver"))
    ix, n = typefield(prog, I_, lambda s: s == "std::path::PathBuf")
    x = pctx(prog)
    for m in ("resolve_path", "open_file"):
        k = methods(prog, I_, m)
        if not k:
            rep("P26", "include:none:" + m, "the resolver of an include path does not implement " + m)
            continue
        heap = {}
        fs = [P("f%d" % i) for i in range(n)]
        inc = fs[ix] = P("include")
        c = Incl(prog, rep, "include." + m, "P26" if m == "resolve_path" else "P25")
        c.x = x
        eng, outs = interp(prog, rep, c, k[0], [ref("self", A(I_, 0, fs), heap, I_), P("arg")], heap)
        for st, v in outs or ():
            rep.ob()
            if m == "open_file":
                if unclear(v):
                    c.unknown.append("file %s" % show(v)[:100])
                elif v is not mk("opened", P("arg"), mk("join", inc, P("arg"))):
                    c.flag(st, "open", "the file of a name is %s" % show(v)[:120])
                continue
            under = c.known(st, mk("pred", "under", P("arg"), inc))
            rel = mk("rel", P("arg"), inc)
            has = c.known(st, mk("pred", "hasname", rel))
            if v is NONE:
                if not (under is False or has is False):
                    c.flag(st, "none", "a path under the include path has no name")
            elif not (under and has and v is some(mk("fname", rel))):
                if not c.x["strip"] or not c.x["fnames"]:
                    c.unknown.append("result %s" % show(v)[:100])
                else:
                    c.flag(st, "name", "the name of a path is %s" % show(v)[:120])
        c.close()
    # the check for shadowed files
    for k in context(prog)["shadows"]:
        c = Incl(prog, rep, "check_shadow", "P26")
        c.x = x
        eng, outs = interp(prog, rep, c, k, [P("name"), P("actual"), P("expected")], {})
        for st, v in outs or ():
            rep.ob()
            has = st.facts.get(mk("discr", P("actual"), OPT))
            a = field(P("actual"), 1, 0)
            same = c.known(st, mk("pred", "patheq", a, P("expected")))
            if same is None:
                same = c.known(st, mk("pred", "patheq", P("expected"), a))
            if not x["patheq"]:
                c.unknown.append("comparison of paths")
            if v is ok(UNIT):
                if not (has == ((0, 0),) or has == ((1, 1),) and same is True):
                    c.flag(st, "accepts", "a path is accepted although another file may be meant")
            elif v.k == "A" and v.a[1] == 1:
                kd, fs = c.kind(v.a[2][0])
                if kd != "FileShadowed" or has != ((1, 1),) or same is not False:
                    if unclear(v) and kd is None:
                        c.unknown.append("error %s" % show(v)[:100])
                    c.flag(st, "rejects", "a path is rejected although no other file is meant: %s" % show(v)[:100])
                elif unclear(v):
                    c.unknown.append("error %s" % show(v)[:100])
                elif fs["name"] is not P("name") or fs["path"] is not P("expected") or fs["shadow"] is not a:
                    c.flag(st, "fields", "the error has %s" % show(v)[:160])
        c.close()
    for k in sorted(x["fnames"]):
        names(prog, rep, k)
    for k in sorted(x["patheq"]):
        walkpaths(prog, rep, k, "patheq")
    for k in sorted(x["strip"]):
        walkpaths(prog, rep, k, "strip")


class Names(Look):
    """the name of a path: a string built in one pass over the components"""
    EMPTY, SEP, FULL, BAD = (mk("sb", i) for i in range(4))

    def elem(self, eng, st, coll, e):
        if coll in self.colls:
            st.cl["cur"], st.cl["n"], st.cl["sep"] = e, 0, 0
        elif coll.k in ("part", "slice") and coll.a[0] in self.colls:
            self.flag(st, "part", "only some of the components are in the name")

    def cls(self, st, e):
        f = st.facts.get(mk("discr", e, COMPONENT))
        return f

    def utf8(self, st, e):
        return self.known(st, mk("pred", "utf8", e))

    def item_done(self, eng, st, coll, e):
        if coll in self.colls:
            self.rep.ob()
            if self.cls(st, e) != ((NORMAL, NORMAL),):
                st.cl["wrong"] = "a path with components that are not plain names is given a name"
            elif st.cl["n"] != 1:
                st.cl["wrong"] = "a component is not in the name" if st.cl["n"] == 0 else "a component is in the name twice"
            elif st.cl["sep"]:
                st.cl["wrong"] = "the name has %s" % st.cl["sep"]
            st.cl["some"] = 1

    def exhausted(self, eng, st, coll):
        if coll in self.colls:
            st.cl["end"] = 1

    def call(self, eng, st, callee, args, site):
        v = [eng.deref(st, a) for a in args]
        v0 = v[0] if v else UNIT
        op = opname(callee)
        path = bare(callee.get("rpath") or callee["path"])
        if path == "std::path::Path::components" or op == "components" and v0 is P("path"):
            return [(st, M.it("sym", mk("comps", v0)))]
        if op in ("iter", "into_iter") and v0 is P("path"):
            self.unknown.append("iteration of the path")
        if path in ("std::string::String::new", "std::string::String::with_capacity") or op == "default" and (callee.get("targs") or [""])[0] == "std::string::String":
            return [(st, self.EMPTY)]
        if v0.k == "s" and v0.a[0] in (b"", "") and op == "to_owned":
            return [(st, self.EMPTY)]
        e = st.cl.get("cur")
        if op in ("to_str",) and e is not None and v0 is field(e, NORMAL, 0):
            return self.fork(eng, st, mk("pred", "utf8", e), lambda s: (s, some(mk("text", e))), lambda s: (s, NONE))
        if op in ("as_os_str", "as_ref") and e is not None and v0 is e:
            return None
        if v0.k == "sb":
            if op == "is_empty":
                return [(st, TRUE if v0 is self.EMPTY else FALSE)]
            if op == "len":
                if v0 is not self.EMPTY:
                    st.facts[mk("sblen")] = ((1, INF),)
                return [(st, I(0) if v0 is self.EMPTY else mk("sblen"))]
            if op in ("push", "push_str") and args[0].k == "R":
                eng.store(st, args[0].a[0], args[0].a[1], self.append(st, v0, v[1]))
                return [(st, UNIT)]
            if op == "add":
                return [(st, self.append(st, v0, v[1]))]
            if op == "add_assign":
                eng.store(st, args[0].a[0], args[0].a[1], self.append(st, v0, v[1]))
                return [(st, UNIT)]
            if op not in ("deref", "as_str", "as_ref", "clone", "to_owned", "into", "from", "borrow", "eq", "ne"):
                self.unknown.append("string operation " + op)
        return None

    def append(self, st, s, x):
        e = st.cl.get("cur")
        if x.k == "chr":
            x = x.a[0]
        if x in (I(47), S("/"), S(b"/")):
            if s is self.FULL:
                return self.SEP
            st.cl["sep"] = "a separator at its start or two in a row"
            return s
        if e is not None and x is mk("text", e):
            if s is self.FULL:
                st.cl["sep"] = "no separator between two components"
            st.cl["n"] = st.cl.get("n", 0) + 1
            return self.FULL
        self.flag(st, "append", "%s becomes part of the name" % show(x)[:80])
        return self.FULL


def names(prog, rep, k):
    c = Names(prog, rep, "path_to_file_name", "P26")
    c.colls = (mk("comps", P("path")),)
    eng, outs = interp(prog, rep, c, k, [P("path")], {})
    for st, v in outs or ():
        rep.ob()
        e = st.cl.get("cur")
        if v is NONE:
            if st.cl.get("end"):
                if st.cl.get("some") and not st.cl.get("wrong"):
                    c.flag(st, "none", "a path of plain names has no name")
            else:
                f = c.cls(st, e) if e is not None else None
                if not (f is not None and not any(lo <= NORMAL <= hi for lo, hi in f) or e is not None and c.utf8(st, e) is False):
                    c.flag(st, "none", "a path of plain names has no name")
        elif v.k == "A" and v.a[0] == OPT and v.a[1] == 1:
            x = v.a[2][0]
            if x.k != "sb":
                c.unknown.append("name %s" % show(x)[:80])
            elif not st.cl.get("end"):
                c.flag(st, "partial", "a name before the end of the path")
            elif st.cl.get("wrong"):
                c.flag(st, "wrong", st.cl["wrong"])
            elif x is not c.FULL:
                c.flag(st, "empty", "the name is empty" if x is c.EMPTY else "the name ends in a separator")
        else:
            c.unknown.append("result %s" % show(v)[:80])
    c.close()


class Walk(Look):
    """two paths gone through side by side: every round of the loop must preserve the answer"""

    def ci(self, v):
        return v.k == "ci"

    def peeked(self, st, p):
        return st.cl.get("pk_" + p)

    def hd(self, p):
        return mk("head", p)

    def isnone(self, st, p):
        return self.known(st, mk("pred", "more", p))

    def call(self, eng, st, callee, args, site):
        v = [eng.deref(st, a) for a in args]
        v0 = v[0] if v else UNIT
        op = opname(callee)
        if op == "components" and v0 in (P("l"), P("r")):
            return [(st, mk("ci", v0, 0))]
        if v0.k == "ci" and callee.get("key") not in self.prog.bodies:
            if op in ("clone", "into_iter", "by_ref"):
                return [(st, args[0] if op == "by_ref" else v0)]
            if op == "as_path":
                return [(st, mk("asp", v0))]
            if op == "next":
                return self.nxt(eng, st, args[0], v0)
            self.unknown.append("iterator operation " + op)
            return None
        heads = (mk("head", "l"), mk("head", "r"))
        tr, m = callee.get("trait"), callee.get("method")
        if m in ("eq", "ne", "eq_ignore_ascii_case") and len(v) == 2 and set(v) == set(heads):
            t, f = (TRUE, FALSE) if m != "ne" else (FALSE, TRUE)
            return self.fork(eng, st, mk("pred", "same"), lambda s: (s, t), lambda s: (s, f))
        return None

    def nxt(self, eng, st, r, v):
        p = v.a[0].a[0]
        o = "r" if p == "l" else "l"
        adv = v.a[1]
        pend = st.cl.get("pend")
        if pend:
            if pend[0] == p:
                self.unknown.append("the sides are not looked at in turn")
                return []
            st.cl["pend"] = None
            self.transition(st, {pend[0]: pend[1], p: adv}, pend[2])
            self.rebase(eng, st, v.a[0], adv)
        elif adv == 1 or self.peeked(st, p):
            # a new round begins: this side was advanced (or not) in the last one
            st.cl["pend"] = (p, adv, self.facts_of(st))
            self.newround(eng, st)
            self.rebase(eng, st, v.a[0], adv)
        v = mk("ci", v.a[0], 0)
        st.cl["pk_" + p] = 1
        out = []

        def yes(s):
            eng.store(s, r.a[0], r.a[1], mk("ci", v.a[0], 1))
            return s, some(self.hd(p))
        return self.fork(eng, st, mk("pred", "more", p), yes, lambda s: (s, NONE))

    def facts_of(self, st):
        """(class of l, class of r, same): class = 'none', 'cur', 'name' or '?'"""
        out = []
        for p in "lr":
            m = self.known(st, mk("pred", "more", p))
            if not self.peeked(st, p):
                out.append("?")
            elif m is False:
                out.append("none")
            else:
                f = st.facts.get(mk("discr", self.hd(p), COMPONENT))
                out.append("?" if f is None else "cur" if f == ((CURDIR, CURDIR),) else "?" if any(lo <= CURDIR <= hi for lo, hi in f) else "name")
        return out[0], out[1], self.known(st, mk("pred", "same"))

    def rebase(self, eng, st, p, adv):
        """what this side was advanced to is where the new round starts"""
        M.rename_in_state(eng, st, mk("ci", p, 1 - adv), mk("ci", p, -1))
        if adv:
            M.rename_in_state(eng, st, mk("ci", p, 1), mk("ci", p, 0))

    def newround(self, eng, st):
        for p in "lr":
            st.cl["pk_" + p] = 0
        for t in list(st.facts):
            if any(x.k in ("head",) for x in subs(t)) or t.k == "pred" and t.a[0] in ("more", "same"):
                del st.facts[t]

    def transition(self, st, adv, facts):
        self.rep.ob()
        l, r, same = facts
        a = (adv.get("l", 0), adv.get("r", 0))
        if a == (1, 0) and l == "cur" or a == (0, 1) and r == "cur" or a == (1, 1) and (l == r == "cur" or same is True):
            if a == (1, 1) and same and "cur" in (l, r) and l != r:
                pass
            return
        if a == (0, 0):
            return self.flag(st, "stuck", "neither path is advanced: the comparison does not end")
        self.flag(st, "round:%d%d" % a, "%s although the components are %s and %s%s" % (
            {(1, 0): "a component of the first path is skipped", (0, 1): "a component of the second path is skipped", (1, 1): "a component of both is passed"}[a],
            l, r, "" if same is None else ", equal" if same else ", different"))


def walkpaths(prog, rep, k, kind):
    c = Walk(prog, rep, kind, "P26")
    eng, outs = interp(prog, rep, c, k, [P("l"), P("r")], {}, max_steps=60000)
    for st, v in outs or ():
        rep.ob()
        l, r, same = c.facts_of(st)
        if st.cl.get("pend"):
            q = st.cl["pend"][0]
        if kind == "patheq":
            if v not in (TRUE, FALSE):
                c.unknown.append("result %s" % show(v)[:80])
            elif v is TRUE and not (l == r == "none"):
                c.flag(st, "true", "two paths are the same file although what is left of them is %s and %s" % (l, r))
            elif v is FALSE and not ((l, r) in (("none", "name"), ("name", "none")) or l == r == "name" and same is False):
                c.flag(st, "false", "two paths are different files although what is left of them is %s and %s%s" % (l, r, ", equal" if same else ""))
        elif v is NONE:
            if not ((l, r) == ("none", "name") or l == r == "name" and same is False):
                c.flag(st, "none", "a path is not under another although what is left of them is %s and %s%s" % (l, r, ", equal" if same else ""))
        elif v.k == "A" and v.a[0] == OPT and v.a[1] == 1 and v.a[2][0].k == "asp":
            x = v.a[2][0].a[0]
            if x.a[0] is not P("l"):
                c.flag(st, "which", "what is left is that of the other path")
            elif r != "none" or l not in ("none", "name"):
                c.flag(st, "some", "a path is under another although what is left of them is %s and %s" % (l, r))
            elif x.a[1] != 0 and l != "none":
                c.flag(st, "rest", "a component is missing from what is left")
        else:
            c.unknown.append("result %s" % show(v)[:80])
    c.close()
    rep.samples.append("%s: %d paths" % (k, len(outs or ())))


# ---------------------------------------------------------------- loading files

class Load(Look):
    """the file system, the size of a file, the parser"""

    def io(self, st, s, op, val):
        """an operation that may fail with an i/o error"""
        s.cl["io"] = s.cl.get("io", ()) + (op,)
        return s, val

    def call(self, eng, st, callee, args, site):
        k = callee.get("key")
        v = [eng.deref(st, a) for a in args]
        v0 = v[0] if v else UNIT
        if op_ident(callee):
            return [(st, v0)]
        if k is not None and k in self.prog.bodies:
            return None
        op = opname(callee)
        path = bare(callee.get("rpath") or callee["path"])
        tr = callee.get("trait")

        def may(op, val):
            n = len([x for x in st.cl.get("io", ()) if x[:len(op)] == op])
            return self.fork(eng, st, mk("pred", "io", op, n), lambda s: self.io(st, s, op, ok(val)), lambda s: (s, err(mk("ioerr", op, n))))
        if path == "std::fs::File::open":
            if v0 is not P("path"):
                self.flag(st, "path", "the file opened is %s" % show(v0)[:80])
            return may("open", mk("fd"))
        if path in ("std::fs::metadata",) and v0 is P("path"):
            return may("stat", mk("statof"))
        if path in ("std::fs::read_to_string",):
            if v0 is not P("path"):
                self.flag(st, "path", "the file read is %s" % show(v0)[:80])
            self.reads(st)
            return may("read", mk("textof"))
        if v0.k == "fd":
            if op == "metadata":
                return may("stat", mk("statof"))
            if op in ("take", "by_ref"):
                if op == "take":
                    n = eng.const_of(st, v[1])
                    if n is None or n < (1 << 31) - 1:
                        self.flag(st, "take", "only %s bytes of a file are read" % show(v[1])[:40])
                return [(st, v0 if op == "take" else args[0])]
            if op == "read_to_string" and args[1].k == "R":
                self.reads(st)
                old = v[1]
                out = []
                for s, r in may("read", mk("count")):
                    if r.a[1] == 0:
                        eng.store(s, args[1].a[0], args[1].a[1], mk("textof") if old.k == "s" and not old.a[0] else mk("mixed", old))
                    out.append((s, r))
                return out
            if path in ("std::io::BufReader::new",):
                return [(st, v0)]
        if path in ("std::io::BufReader::new", "std::io::BufReader::with_capacity") and v[-1].k == "fd":
            return [(st, v[-1])]
        if path == "std::io::read_to_string" and v0.k == "fd":
            self.reads(st)
            return may("read", mk("textof"))
        if v0.k == "statof":
            if op == "len":
                return [(st, mk("size"))]
            if op in ("is_file", "is_dir"):
                return None
        if v0.k == "ioerr" and op == "kind":
            return [(st, mk("iokind", v0))]
        if v0.k == "iokind" and op in ("eq", "ne"):
            return None
        if path == "protox_parse::parse":
            return self.fork(eng, st, mk("pred", "parses", v[0], v[1]), lambda s: (s, ok(mk("parsed", v[0], v[1]))), lambda s: (s, err(mk("parseerr", v[0], v[1]))))
        if v0.k == "buf" or v0.k == "bytes":
            if op == "remaining" or op == "len":
                return [(st, mk("rem", v0))]
            if op == "copy_to_bytes":
                if v[1] is not mk("rem", v0):
                    self.flag(st, "bytes", "only part of the bytes are kept: %s" % show(v[1])[:60])
                return [(st, mk("bytes", v0))]
            if op in ("as_ref", "clone", "deref", "borrow"):
                return [(st, v0)]
        if op == "decode" and (callee.get("targs") or [""])[0] == FDP or path.endswith("FileDescriptorProto::decode"):
            return self.fork(eng, st, mk("pred", "decodes", v0), lambda s: (s, ok(mk("decoded", v0))), lambda s: (s, err(mk("decerr", v0))))
        if path == "std::string::String::with_capacity":
            return [(st, S(""))]
        return None

    def reads(self, st):
        self.rep.ob()
        r = st.facts.get(mk("size"))
        if r is None or any(hi > (1 << 31) - 1 for lo, hi in r):
            self.flag(st, "size", "a file is read without making sure that it is at most 2,147,483,647 bytes long")


def fileval(prog, roles, path, source, descr, enc):
    fs = [UNIT] * 4
    fs[roles.f_path], fs[roles.f_source], fs[roles.f_descr], fs[roles.f_enc] = path, source, descr, enc
    return A(FILE, 0, fs)


def okfile(c, st, v, want):
    x = v.a[2][0] if v.k == "A" and v.a[0] == RES else v
    if x.k != "A" or x.a[0] != FILE:
        c.unknown.append("file %s" % show(x)[:80])
        return
    names_ = [f[0] for f in c.prog.adt_path[FILE]["variants"][0]["fields"]]
    for i, (a, b) in enumerate(zip(x.a[2], want.a[2])):
        c.rep.ob()
        if a is not b:
            if unclear(a):
                c.unknown.append("%s is %s" % (names_[i], show(a)[:80]))
            else:
                c.flag(st, "field:" + names_[i], "%s of the file is %s, not %s" % (names_[i], show(a)[:80], show(b)[:80]))


def iokind(prog, st, e):
    """what the path knows of an i/o error: names of the kinds possible, or None"""
    vs = prog.adt_path["std::io::ErrorKind"]["variants"]
    k = mk("iokind", e)
    out = None
    for t, r in st.facts.items():
        if t.k == "discr" and t.a[0] is k:
            got = {v["name"] for i, v in enumerate(vs) if any(lo <= int(v.get("discr", i)) <= hi for lo, hi in r)}
            out = got if out is None else out & got
    return out


def files(prog, rep):
    roles = Roles(prog)
    one = lambda nm: [k for k in prog.bodies if bare(k) == FILE + "::" + nm][0]
    # from the file system
    c = Load(prog, rep, "File::open", "P27")
    eng, outs = interp(prog, rep, c, one("open"), [P("name"), P("path")], {})
    for st, v in outs or ():
        rep.ob()
        if v.k == "A" and v.a[1] == 0:
            okfile(c, st, v, fileval(prog, roles, some(P("path")), some(mk("textof")), mk("parsed", P("name"), mk("textof")), NONE))
            continue
        x = v.a[2][0]
        kd, fs = c.kind(x)
        fails = [y for y in walk(x) if y.k == "ioerr"] or [mk("ioerr", t.a[1], t.a[2]) for t, r in st.facts.items() if t.k == "pred" and t.a[0] == "io" and r == ((0, 0),)]
        if kd is None:
            if unclear(x):
                c.unknown.append("error %s" % show(x)[:100])
            else:
                c.flag(st, "error", "fails with %s" % show(x)[:100])
        elif kd == "Parse":
            if fs["err"] is not mk("parseerr", P("name"), mk("textof")):
                c.flag(st, "parse", "a parse error is %s" % show(fs["err"])[:80])
        elif kd == "FileTooLarge":
            r = st.facts.get(mk("size"))
            if r is None or any(lo <= (1 << 31) - 1 for lo, hi in r):
                c.flag(st, "toolarge", "a file of at most 2,147,483,647 bytes is too large")
            if fs["name"] is not P("name"):
                c.flag(st, "name", "the error names %s" % show(fs["name"])[:60])
        elif len(fails) != 1:
            c.flag(st, "noerror", "fails with %s although nothing failed" % show(x)[:80])
        else:
            kinds = iokind(prog, st, fails[0])
            want = "OpenFile" if kinds is None else "FileNotFound" if kinds == {"NotFound"} else "FileInvalidUtf8" if kinds == {"InvalidData"} else \
                "OpenFile" if not kinds & {"NotFound", "InvalidData"} else None
            if kd != want or kinds is None:
                c.flag(st, "kind:" + kd, "an i/o error of kind %s is reported as %s" % ("unknown" if kinds is None else sorted(kinds)[:3], kd))
            elif fs["name"] is not P("name") or kd == "OpenFile" and (fs["path"] is not P("path") or fs["err"] is not fails[0]):
                if unclear(x):
                    c.unknown.append("error %s" % show(x)[:100])
                else:
                    c.flag(st, "fields:" + kd, "the error has %s" % show(x)[:120])
    c.close()
    rep.samples.append("File::open: %d paths" % len(outs or ()))
    # from text, from a descriptor, from bytes
    c = Load(prog, rep, "File::from_source", "P27")
    eng, outs = interp(prog, rep, c, one("from_source"), [P("name"), P("text")], {})
    for st, v in outs or ():
        rep.ob()
        if v.k == "A" and v.a[1] == 0:
            okfile(c, st, v, fileval(prog, roles, NONE, some(P("text")), mk("parsed", P("name"), P("text")), NONE))
        else:
            kd, fs = c.kind(v.a[2][0])
            if kd != "Parse" or fs["err"] is not mk("parseerr", P("name"), P("text")):
                c.flag(st, "error", "fails with %s" % show(v)[:100])
    c.close()
    c = Load(prog, rep, "File::from_file_descriptor_proto", "P27")
    for k in [one("from_file_descriptor_proto"), "<%s as std::convert::From<%s>>::from" % (FILE, FDP)]:
        eng, outs = interp(prog, rep, c, k, [P("d")], {})
        for st, v in outs or ():
            okfile(c, st, v, fileval(prog, roles, NONE, NONE, P("d"), NONE))
    c.close()
    c = Load(prog, rep, "File::decode_file_descriptor_proto", "P28")
    eng, outs = interp(prog, rep, c, one("decode_file_descriptor_proto"), [mk("buf")], {})
    B = mk("bytes", mk("buf"))
    for st, v in outs or ():
        rep.ob()
        if v.k == "A" and v.a[1] == 0:
            okfile(c, st, v, fileval(prog, roles, NONE, NONE, mk("decoded", B), some(B)))
        elif v.a[2][0] is not mk("decerr", B):
            c.flag(st, "error", "fails with %s" % show(v)[:100])
    c.close()
    # accessors
    for ty, nm, want in ((FILE, "path", lambda s: field(s, 0, roles.f_path)), (FILE, "source", lambda s: field(s, 0, roles.f_source)),
                         (FILE, "file_descriptor_proto", lambda s: field(s, 0, roles.f_descr)),
                         (META, "name", lambda s: field(s, 0, roles.m_name)), (META, "path", lambda s: field(s, 0, roles.m_path)), (META, "is_import", lambda s: field(s, 0, roles.m_imp))):
        ks = [k for k in prog.bodies if bare(k) == ty + "::" + nm]
        if not ks:
            rep.undecided("no %s::%s" % (ty, nm))
            continue
        heap = {}
        c = Load(prog, rep, "%s::%s" % (short(ty), nm), "P27")
        n = len(prog.adt_path[ty]["variants"][0]["fields"])
        s = A(ty, 0, [P("f%d" % i) for i in range(n)])
        eng, outs = interp(prog, rep, c, ks[0], [ref("self", s, heap, ty)], heap)
        for st, v in outs or ():
            rep.ob()
            got, w = eng.deref(st, v), want(s)
            if v.k == "A" and v.a[0] == OPT:
                d = st.facts.get(mk("discr", w, OPT))
                good = (v is NONE and d == ((0, 0),)) or v.a[1] == 1 and d == ((1, 1),) and eng.deref(st, v.a[2][0]) is field(w, 1, 0)
            else:
                good = got is w
            if not good:
                if unclear(got):
                    c.unknown.append(show(got)[:80])
                else:
                    c.flag(st, "value", "gives %s" % show(got)[:80])
        c.close()


# ---------------------------------------------------------------- descriptor sets

class DSet(Load):
    """decoding a descriptor set: one field per round"""

    def call(self, eng, st, callee, args, site):
        k = callee.get("key")
        v = [eng.deref(st, a) for a in args]
        v0 = v[0] if v else UNIT
        op = opname(callee)
        path = bare(callee.get("rpath") or callee["path"])
        if k in self.inner and st.frames and len(st.frames) >= 1 and self.what == "DescriptorSetFileResolver::decode":
            return self.fork(eng, st, mk("pred", "fd", self.n(st)), lambda s: self.ev(s, ("file", v0), ok(mk("filemsg", v0))), lambda s: self.ev(s, ("bad",), err(mk("fderr", v0))))
        if self.what != "DescriptorSetFileResolver::decode":
            return Load.call(self, eng, st, callee, args, site)
        if v0.k == "buf" and (k is None or k not in self.prog.bodies):
            if op == "has_remaining":
                self.round(st)
                out = self.fork(eng, st, mk("pred", "more"), lambda s: self.ev(s, ("more",), TRUE), lambda s: self.ev(s, ("end",), FALSE))
                return out
            if op == "remaining":
                return [(st, mk("rem", self.n(st)))]
            if op == "take":
                return [(st, mk("part", v[1]))]
            if op in ("as_ref", "by_ref", "borrow_mut", "deref_mut"):
                return [(st, args[0])]
            if op == "decode_key":
                return self.fork(eng, st, mk("pred", "key"), lambda s: self.ev(s, ("key",), ok(A("tuple", 0, (mk("tag"), mk("wire"))))), lambda s: self.ev(s, ("bad",), err(mk("keyerr"))))
            if op == "decode_varint":
                return self.fork(eng, st, mk("pred", "len"), lambda s: self.ev(s, ("len",), ok(mk("length"))), lambda s: self.ev(s, ("bad",), err(mk("lenerr"))))
            if op in ("advance", "copy_to_bytes"):
                return self.ev1(st, (op, v[1]), UNIT if op == "advance" else mk("part", v[1]))
            self.unknown.append("buffer operation " + op)
        if op == "default" and not callee.get("local") and "DecodeContext" in str(callee.get("targs")):
            return [(st, mk("ctx"))]
        if path.endswith("::check_wire_type"):
            if not (v0.k == "A" and self.wire(v0) == "LengthDelimited"):
                self.flag(st, "wire", "the wire type of a file must be %s" % show(v0)[:60])
            return self.fork(eng, st, mk("pred", "wire", v[1]), lambda s: self.ev(s, ("wire", v[1]), ok(UNIT)), lambda s: self.ev(s, ("bad",), err(mk("wireerr"))))
        if path.endswith("::skip_field"):
            return self.fork(eng, st, mk("pred", "skip"), lambda s: self.ev(s, ("skip", v[0], v[1]), ok(UNIT)), lambda s: self.ev(s, ("bad",), err(mk("skiperr"))))
        if path.endswith("DecodeError::new"):
            return [(st, mk("newerr", v0))]
        return None

    def wire(self, v):
        a = next((a for p, a in self.prog.adt_path.items() if p.endswith("::WireType")), None)
        return a and a["variants"][v.a[1]]["name"]

    def n(self, st):
        return len(st.cl.get("ev", ()))

    def ev(self, s, e, val):
        s.cl["ev"] = s.cl.get("ev", ()) + (e,)
        return s, val

    def ev1(self, st, e, val):
        return [self.ev(st, e, val)]

    def push(self, eng, st, ref, old, elem):
        st.cl["ev"] = st.cl.get("ev", ()) + (("push", elem),)
        return False

    def newvec(self, eng, st, elemty):
        return False

    def round(self, st):
        """a round of the loop is over"""
        ev = st.cl.get("ev", ())
        if ev:
            self.rep.ob(3)
            self.judge(st, ev)
        st.cl["ev"] = ()
        for t in list(st.facts):
            if t.k != "i" and any(x.k in ("tag", "wire", "length", "rem") for x in subs(t)) or t.k == "pred":
                del st.facts[t]

    def judge(self, st, ev):
        kinds = [e[0] for e in ev]
        tag = st.facts.get(mk("tag"))
        if kinds[:2] != ["more", "key"]:
            return self.unknown.append("a round that does %s" % (kinds,))
        rest = kinds[2:]
        isfile = tag == ((1, 1),)
        notfile = tag is not None and not any(lo <= 1 <= hi for lo, hi in tag)
        if not isfile and not notfile:
            return self.flag(st, "tag", "a field is read without looking whether it is a file")
        if notfile:
            if rest != ["skip"]:
                return self.flag(st, "skip", "a field that is not a file is not skipped: %s" % rest)
            if ev[2][1] is not mk("wire") or ev[2][2] is not mk("tag"):
                return self.flag(st, "skip", "a field is skipped as %s" % (tuple(show(x) for x in ev[2][1:]),))
            return
        if "wire" not in rest or "len" in rest and rest.index("wire") > rest.index("len"):
            return self.flag(st, "wiretype", "the wire type of a file is not checked")
        if "len" not in rest:
            return self.unknown.append("a file without a length: %s" % rest)
        if not fits(st):
            if any(t.k != "pred" and any(x.k == "length" for x in subs(t)) for t in st.facts):
                return self.unknown.append("test of the length: %s" % conds(st)[:200])
            return self.flag(st, "length", "a file is read without looking whether all of it is there")
        if [k for k in rest if k == "push"] != ["push"]:
            return self.flag(st, "lost", "a file of the set is lost")
        parts = [e[1] for e in ev if e[0] in ("file", "copy_to_bytes")]
        p = next((e[1] for e in ev if e[0] == "push"))
        if not any(x.k == "filemsg" and x.a[0] is mk("part", mk("length")) for x in subs(p)):
            if unclear(p):
                return self.unknown.append("file %s" % show(p)[:80])
            return self.flag(st, "part", "what is decoded as a file is %s" % show(p)[:100])


def descriptors(prog, rep):
    D = next(p for p in prog.adt_path if p.endswith("::DescriptorSetFileResolver"))
    F = next((p for p in prog.adt_path if p.endswith("descriptor_set::FileDescriptor")), None)
    if F is None:
        raise Unsupported("no type for the files of a descriptor set")
    roles = Roles(prog)
    fi, fn_ = typefield(prog, F, lambda s: s == FDP)
    fe, _ = typefield(prog, F, lambda s: s.startswith(OPT) and "Bytes" in s)
    si, sn = typefield(prog, D, lambda s: s.startswith("std::vec::Vec<"))
    inner = {k for k in prog.bodies if prog.bodies[k].local and bare(k) == F + "::decode"}

    def entry(e, file, enc):
        x = [UNIT] * fn_
        x[fi], x[fe] = file, enc
        return A(F, 0, x)
    # one file of a set
    for k in sorted(inner)[:1]:
        c = DSet(prog, rep, "FileDescriptor::decode", "P28")
        c.inner = set()
        eng, outs = interp(prog, rep, c, k, [mk("buf")], {})
        B = mk("bytes", mk("buf"))
        for st, v in outs or ():
            rep.ob()
            if v.k == "A" and v.a[1] == 0:
                x = v.a[2][0]
                if x is not entry(None, mk("decoded", B), some(B)):
                    if unclear(x):
                        c.unknown.append(show(x)[:100])
                    else:
                        c.flag(st, "value", "a file of a set is kept as %s" % show(x)[:120])
            elif v.a[2][0] is not mk("decerr", B):
                c.flag(st, "error", "fails with %s" % show(v)[:100])
        c.close()
    # a set
    k = [k for k in prog.bodies if bare(k) == D + "::decode"][0]
    c = DSet(prog, rep, "DescriptorSetFileResolver::decode", "P28")
    c.inner = inner
    heap = {}
    eng, outs = interp(prog, rep, c, k, [mk("buf")], heap)
    for st, v in outs or ():
        rep.ob()
        ev = st.cl.get("ev", ())
        if v.k == "A" and v.a[1] == 0:
            if [e[0] for e in ev] != ["end"]:
                c.flag(st, "early", "a set is complete before the end of the bytes: %s" % [e[0] for e in ev])
        else:
            x = v.a[2][0]
            if x.k == "newerr":
                if not [e for e in ev if e[0] == "len"] or not too_long(eng, st, len(ev)):
                    c.flag(st, "false-error", "fails although the field is not longer than what is left")
            elif x.k not in ("keyerr", "lenerr", "wireerr", "skiperr", "fderr"):
                c.unknown.append("error %s" % show(x)[:80])
    for st, v in outs or ():
        pass
    c.close()
    rep.samples.append("DescriptorSetFileResolver::decode: %d paths" % len(outs or ()))
    # made from a set already decoded
    k = [k for k in prog.bodies if bare(k) == D + "::new"][0]
    c = News(prog, rep, "DescriptorSetFileResolver::new", "P28")
    setp = P("set")
    fds = next(p for p in prog.adt_path if p.endswith("::FileDescriptorSet"))
    files_ = field(setp, 0, 0)
    c.colls = (files_,)
    c.want = lambda e: entry(e, e, NONE)
    eng, outs = interp(prog, rep, c, k, [setp], {})
    for st, v in outs or ():
        rep.ob()
        if not st.cl.get("end"):
            c.flag(st, "all", "only part of the set is kept") if not unclear(v) else c.unknown.append(show(v)[:100])
    c.close()
    # looking a file up
    k = methods(prog, D, "open_file")[0]
    heap = {}
    fs = [P("f%d" % i) for i in range(sn)]
    R = fs[si] = P("set")
    c = Find(prog, rep, "DescriptorSetFileResolver::open_file", "P25")
    c.colls, c.fi = (R,), fi
    eng, outs = interp(prog, rep, c, k, [ref("self", A(D, 0, fs), heap, D), P("name")], heap)
    for st, v in outs or ():
        rep.ob()
        e = st.cl.get("cur")
        if st.cl.get("passed"):
            c.flag(st, "passed", "a file of the set with the name asked for is passed over")
        elif v.k == "A" and v.a[1] == 0:
            if e is None or c.known(st, mk("pred", "named", e)) is not True:
                c.flag(st, "name", "a file is given whose name is not the one asked for")
            else:
                okfile(c, st, v, fileval(prog, roles, NONE, NONE, field(e, 0, fi), field(e, 0, fe)))
        else:
            kd, f = c.kind(v.a[2][0])
            if not st.cl.get("end") or kd != "FileNotFound" or f["name"] is not P("name"):
                c.flag(st, "notfound", "fails with %s" % show(v)[:100])
    c.close()


def too_long(eng, st, n):
    """is the length known to be more than what is left?"""
    for t, r in st.facts.items():
        if t.k == "lt" and r == ((1, 1),) and any(x.k == "rem" for x in subs(t.a[0])) and any(x.k == "length" for x in subs(t.a[1])):
            return True
        if t.k == "lt" and r == ((0, 0),) and any(x.k == "length" for x in subs(t.a[0])) and any(x.k == "rem" for x in subs(t.a[1])):
            return None
    return False


def fits(st):
    """is the length known to be no more than what is left?"""
    for t, r in st.facts.items():
        if t.k == "lt":
            a, b = (["rem" if any(x.k == "rem" for x in subs(y)) else "length" if any(x.k == "length" for x in subs(y)) else "" for y in t.a[:2]])
            if (a, b, r) in (("rem", "length", ((0, 0),)), ("length", "rem", ((1, 1),))):
                return True
    return False


class News(Look):
    def newvec(self, eng, st, elemty):
        return False

    def got(self, st, x):
        st.cl["out"] = st.cl.get("out", ()) + (x,)

    def push(self, eng, st, ref, old, elem):
        self.got(st, elem)
        return False

    def collected(self, eng, st, x, itn):
        self.got(st, x)

    def elem(self, eng, st, coll, e):
        if coll in self.colls:
            st.cl["out"] = ()

    def item_done(self, eng, st, coll, e):
        if coll in self.colls:
            self.rep.ob()
            if st.cl["out"] != (self.want(e),):
                if any(unclear(x) for x in st.cl["out"]):
                    self.unknown.append("entry %s" % show(st.cl["out"][0])[:80])
                else:
                    self.flag(st, "entry", "a file of the set is kept as %s" % (", ".join(show(x)[:80] for x in st.cl["out"]) or "nothing"))

    def exhausted(self, eng, st, coll):
        if coll in self.colls:
            st.cl["end"] = 1


class Find(Load):
    def elem(self, eng, st, coll, e):
        if coll in self.colls:
            st.cl["cur"] = e
        elif coll.k in ("part", "slice") and coll.a[0] in self.colls:
            self.flag(st, "part", "only some of the files are looked at")

    def item_done(self, eng, st, coll, e):
        if coll in self.colls:
            self.rep.ob()
            if self.known(st, mk("pred", "named", e)) is not False:
                st.cl["passed"] = 1

    def exhausted(self, eng, st, coll):
        if coll in self.colls:
            st.cl["end"] = 1

    def call(self, eng, st, callee, args, site):
        v = [eng.deref(st, a) for a in args]
        e = st.cl.get("cur")
        op = opname(callee)
        if op == "name" and e is not None and v[0] is field(e, 0, self.fi):
            return [(st, mk("nameof", e))]
        if op in ("eq", "ne") and len(v) == 2 and e is not None and set(v) == {mk("nameof", e), P("name")}:
            t, f = (TRUE, FALSE) if op == "eq" else (FALSE, TRUE)
            return self.fork(eng, st, mk("pred", "named", e), lambda s: (s, t), lambda s: (s, f))
        if op in ("clone", "to_owned", "cloned"):
            return None
        return Load.call(self, eng, st, callee, args, site)


# ---------------------------------------------------------------- errors

ERRS = dict(is_file_not_found=NOTFOUND, is_parse={"Parse", "FileTooLarge", "FileInvalidUtf8"}, is_io={"OpenFile"})
NAMED = ("OpenFile", "FileTooLarge", "FileInvalidUtf8", "FileNotFound", "CircularImport", "FileShadowed")


class Errs(Look):
    def call(self, eng, st, callee, args, site):
        k = callee.get("key")
        if args and opname(callee) in ("as_ref", "deref", "borrow") and eng.deref(st, args[0]) is P("kind"):
            return [(st, field(P("kind"), 0, 0))]
        if k is not None and k in self.prog.bodies and k not in self.spans:
            return None
        v = [eng.deref(st, a) for a in args]
        v0 = v[0] if v else UNIT
        op = opname(callee)
        path = bare(callee.get("rpath") or callee["path"])
        if k in self.spans:
            return [(st, mk("span", *v))]
        if op in ("downcast_ref", "is") and "dyn" in str(callee.get("targs")) + path or op in ("downcast_ref",):
            good = any("io::Error" in t for t in callee.get("targs") or ())
            if not good:
                return None
            yes = some(mk("ioof", v0)) if op == "downcast_ref" else TRUE
            return self.fork(eng, st, mk("pred", "isio", v0), lambda s: (s, yes), lambda s: (s, NONE if op == "downcast_ref" else FALSE))
        if path.endswith("NamedSource::new"):
            return [(st, mk("named", *v))]
        if op in ("file", "name") and v0.k != "A":
            return [(st, mk("acc", op, v0))]
        return None


def variants_of(prog, st, k):
    vs = prog.adt_path[KIND]["variants"]
    r = st.facts.get(mk("discr", k, KIND))
    return {v["name"] for i, v in enumerate(vs) if r is None or any(lo <= i <= hi for lo, hi in r)}


def errors(prog, rep):
    roles = Roles(prog)
    vs = prog.adt_path[KIND]["variants"]
    vi = {v["name"]: i for i, v in enumerate(vs)}
    fpos = {v["name"]: {f[0]: i for i, f in enumerate(v["fields"])} for v in vs}
    if set(vi) - {"Parse", "Check", "OpenFile", "FileTooLarge", "FileInvalidUtf8", "FileNotFound", "ImportNotFound", "CircularImport", "FileNotIncluded",
                  "FileShadowed", "DuplicateImport", "Custom"}:
        rep.undecided("kinds of error: %s" % sorted(vi))
        return
    one = lambda nm: [k for k in prog.bodies if bare(k) == ERR + "::" + nm][0]
    spans = set(by_sig(prog, ["&" + FILE, "usize"], OPT + "<miette::SourceSpan>"))
    K = field(P("kind"), 0, 0)
    E = A(ERR, 0, (P("kind"),))
    for nm, want in ERRS.items():
        heap = {}
        c = Errs(prog, rep, "Error::" + nm, "P29")
        c.spans = spans
        eng, outs = interp(prog, rep, c, one(nm), [ref("self", E, heap, ERR)], heap)
        for st, v in outs or ():
            rep.ob()
            got = variants_of(prog, st, K)
            truth = v is TRUE if v in (TRUE, FALSE) else None
            if truth is None:
                c.unknown.append("result %s" % show(v)[:80])
                continue
            if nm == "is_io" and got == {"Custom"}:
                isio = [r == ((1, 1),) for t, r in st.facts.items() if t.k == "pred" and t.a[0] == "isio"]
                if not isio and truth or isio and isio[0] != truth or not isio and not truth:
                    c.flag(st, "custom", "an error made of another error is %san i/o error" % ("" if truth else "not "))
                continue
            if truth and not got <= want or not truth and got & want:
                c.flag(st, "kinds", "%s is %s for %s" % (nm, "true" if truth else "false", sorted(got - want if truth else got & want)))
            if nm == "is_io" and not truth and "Custom" in got and not any(t.k == "pred" and t.a[0] == "isio" for t in st.facts):
                c.flag(st, "custom", "an i/o error given as it is is not an i/o error")
        c.close()
    # the file of an error
    heap = {}
    c = Errs(prog, rep, "Error::file", "P29")
    c.spans = spans
    eng, outs = interp(prog, rep, c, one("file"), [ref("self", E, heap, ERR)], heap)
    for st, v in outs or ():
        x = v
        d = None
        for nm in variants_of(prog, st, K):
            rep.ob()
            if nm in NAMED:
                w = [some(field(K, vi[nm], fpos[nm]["name"]))]
            elif nm in ("FileNotIncluded", "Custom"):
                w = [NONE]
            elif nm == "Parse":
                w = [some(mk("acc", "file", field(K, vi[nm], fpos[nm]["err"])))]
            elif nm == "Check":
                w = [mk("acc", "file", field(K, vi[nm], fpos[nm]["err"]))]
            else:
                w = [some(mk("acc", "name", field(K, vi[nm], fpos[nm]["source_code"])))]
            y = v
            if y.k == "A" and y.a[0] == OPT and y.a[1] == 1:
                y = some(eng.deref(st, y.a[2][0]))
            if y not in w:
                if unclear(y):
                    c.unknown.append("file %s" % show(y)[:80])
                else:
                    c.flag(st, "kind:" + nm, "the file of an error %s is %s" % (nm, show(y)[:80]))
    c.close()
    # errors of imports
    fdn = lambda f: mk("acc", "name", field(f, 0, roles.f_descr))
    for nm, kd0 in (("into_import_error", None), ("duplicated_import", "DuplicateImport")):
        want_sig = ([ERR, "&" + FILE, "usize"] if kd0 is None else ["std::string::String", "&" + FILE, "usize"])
        for k in by_sig(prog, want_sig, ERR):
            heap = {}
            c = Errs(prog, rep, nm, "P29")
            c.spans = spans
            F = A(FILE, 0, [P("file%d" % i) for i in range(4)])
            fr = ref("file", F, heap, FILE)
            eng, outs = interp(prog, rep, c, k, [E if kd0 is None else P("name"), fr, P("idx")], heap)
            for st, v in outs or ():
                rep.ob()
                if v.k == "A" and v.a[0] == ERR and v.a[2][0] in (K, P("kind")):
                    got = variants_of(prog, st, K)
                    if "FileNotFound" in got:
                        c.flag(st, "unchanged", "an import that is not found is not reported where it is imported")
                    continue
                kd, fs = c.kind(v)
                if kd is None:
                    c.unknown.append("error %s" % show(v)[:100])
                    continue
                if kd0 is None and variants_of(prog, st, K) != {"FileNotFound"}:
                    c.flag(st, "changed", "an error %s becomes %s" % (sorted(variants_of(prog, st, K))[:3], kd))
                if kd != (kd0 or "ImportNotFound"):
                    c.flag(st, "kind", "the error is %s" % kd)
                    continue
                if fs["name"] is not (field(K, vi["FileNotFound"], 0) if kd0 is None else P("name")):
                    c.flag(st, "name", "the name of the import is %s" % show(fs["name"])[:80])
                sc, sp = fs["source_code"], fs["span"]
                if sc.k != "named":
                    c.unknown.append("source %s" % show(sc)[:80])
                else:
                    n, t = sc.a
                    src = F.a[2][roles.f_source]
                    has = st.facts.get(mk("discr", src, OPT))
                    if n is not mk("acc", "name", F.a[2][roles.f_descr]):
                        c.flag(st, "file", "the file that imports is %s" % show(n)[:80])
                    if t is not (field(src, 1, 0) if has == ((1, 1),) else S("")) or has is None:
                        if unclear(t):
                            c.unknown.append("text %s" % show(t)[:80])
                        else:
                            c.flag(st, "text", "the text shown is %s" % show(t)[:80])
                if sp is not mk("span", F, P("idx")):
                    if unclear(sp) or not spans:
                        c.unknown.append("span %s" % show(sp)[:80])
                    else:
                        c.flag(st, "span", "the place is %s" % show(sp)[:80])
            c.close()
    for k in sorted(spans):
        span(prog, rep, roles, k)
    for src, kd in (("prost_reflect::DescriptorError", "Check"), ("protox_parse::ParseError", "Parse")):
        k = "<%s as std::convert::From<%s>>::from" % (ERR, src)
        if k not in prog.bodies:
            rep.undecided("no conversion of %s" % src)
            continue
        c = Errs(prog, rep, "From<%s>" % short(src), "P29")
        c.spans = spans
        eng, outs = interp(prog, rep, c, k, [P("e")], {})
        for st, v in outs or ():
            rep.ob()
            kk, fs = c.kind(v)
            if kk != kd or fs["err"] is not P("e"):
                c.flag(st, "value", "becomes %s" % show(v)[:80])
        c.close()


class Span(Look):
    def elem(self, eng, st, coll, e):
        if coll in self.colls:
            st.cl["cur"] = e

    def panic(self, eng, st, what):
        if not what.startswith("overflow"):      # the locations are the parser's own (P03): small and not negative
            Look.panic(self, eng, st, what)

    def exhausted(self, eng, st, coll):
        if coll in self.colls:
            st.cl["end"] = 1

    def call(self, eng, st, callee, args, site):
        v = [eng.deref(st, a) for a in args]
        op = opname(callee)
        path = bare(callee.get("rpath") or callee["path"])
        e = st.cl.get("cur")
        if op in ("eq", "ne") and e is not None and len(v) == 2 and callee.get("trait", "").endswith("PartialEq"):
            pth = field(e, 0, self.pi)
            for a, b in ((v[0], v[1]), (v[1], v[0])):
                if a is pth and b.k == "A" and b.a[0] in ("array", "vec"):
                    if not (len(b.a[2]) == 2 and eng.const_of(st, b.a[2][0]) == 3 and P("idx") in subs(b.a[2][1]) and not arith(b.a[2][1])):
                        self.flag(st, "path", "the location looked for is %s" % show(b)[:80])
                    t, f = (TRUE, FALSE) if op == "eq" else (FALSE, TRUE)
                    return self.fork(eng, st, mk("pred", "at", e), lambda s: (s, t), lambda s: (s, f))
        if path.endswith("SourceOffset::from_location"):
            return [(st, mk("offset", *v))]
        if path.endswith("SourceSpan::new"):
            return [(st, mk("srcspan", *v))]
        return None


def arith(t):
    return any(x.k in ("add", "sub", "mul", "lin") for x in subs(t))


def span(prog, rep, roles, k):
    """where the import is: the span of the location with path [3, index]"""
    LOC = next(p for p in prog.adt_path if p.endswith("source_code_info::Location"))
    lf = {f[0]: i for i, f in enumerate(prog.adt_path[LOC]["variants"][0]["fields"])}
    SCI = next(p for p in prog.adt_path if p.endswith("::SourceCodeInfo"))
    fs = {f[0]: i for i, f in enumerate(prog.adt_path[FDP]["variants"][0]["fields"])}
    heap = {}
    F = A(FILE, 0, [P("file%d" % i) for i in range(4)])
    c = Span(prog, rep, "place of an import", "P29")
    sci = field(F.a[2][roles.f_descr], 0, fs["source_code_info"])
    locs = field(field(sci, 1, 0), 0, 0)
    c.colls, c.pi = (locs,), lf["path"]
    src = F.a[2][roles.f_source]
    eng, outs = interp(prog, rep, c, k, [ref("file", F, heap, FILE), P("idx")], heap)
    for st, v in outs or ():
        rep.ob()
        if v is NONE:
            if not st.cl.get("end") and not (st.facts.get(mk("discr", sci, OPT)) == ((0, 0),) or st.facts.get(mk("discr", src, OPT)) == ((0, 0),)):
                c.flag(st, "none", "no place although the file has locations and a text")
            continue
        x = v.a[2][0] if v.k == "A" and v.a[0] == OPT else v
        e = st.cl.get("cur")
        if x.k != "srcspan" or x.a[0].k != "offset" or e is None:
            c.unknown.append("place %s" % show(x)[:100])
            continue
        if c.known(st, mk("pred", "at", e)) is not True:
            c.flag(st, "which", "the place is that of another location")
        text_, line, col = x.a[0].a
        if text_ is not field(src, 1, 0):
            c.flag(st, "text", "the place is looked for in %s" % show(text_)[:80])
        sp = field(e, 0, lf["span"])
        r = st.facts.get(mk("len", sp))
        if r != ((3, 3),):
            c.flag(st, "len", "the span of a location is used without looking whether it is on one line")
        for what, t, want in (("line", line, {0: 1, "": 1}), ("column", col, {1: 1, "": 1}), ("length", x.a[1], {2: 1, 1: -1})):
            l = linear(t, sp)
            if l is None:
                c.unknown.append("%s %s" % (what, show(t)[:80]))
            elif l != want:
                c.flag(st, what, "the %s is %s" % (what, show(t)[:100]))
    c.close()


def linear(t, sp):
    """a term as a linear combination of the elements of the span: {index: factor, "": constant}"""
    if t.k == "i":
        return {"": t.a[0]} if t.a[0] else {}
    if t.k == "cast":
        return linear(t.a[1], sp)
    if t.k == "at" and t.a[0] is sp:
        i = t.a[1] if type(t.a[1]) is int else t.a[1].a[0]
        return {i: 1}
    if t.k in ("add", "diff", "sub") and len(t.a) >= 2:
        a = linear(t.a[0] if type(t.a[0]) is N else I(t.a[0]), sp)
        b = linear(t.a[1] if type(t.a[1]) is N else I(t.a[1]), sp)
        if a is None or b is None:
            return None
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if t.k == "add" else -v)
        return {k: v for k, v in out.items() if v}
    return None


PARTS = (chain, boxes, google, include, files, descriptors, errors)

def analyse(prog, rep):
    for f in PARTS:
        try:
            f(prog, rep)
        except (Budget, Unsupported, KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError, AssertionError, StopIteration) as x:
            rep.undecided("%s: %s: %s" % (f.__name__, type(x).__name__, str(x)[:200]))


if __name__ == "__main__":
    import build, mir, sys, time
    t0 = time.time()
    prog = mir.Program(build.ensure(("protox_parse", "protox", "protox-bin")), ("protox",))
    r = Rep()
    analyse(prog, r)
    print(r.stats, "%.1fs" % (time.time() - t0))
    for v in r.viol:
        print("VIOL", v["props"], v["key"], "|", v["what"][:300], "|", v["where"], "|", v["cond"][-300:])
    for u in r.und:
        print("UND", u[:300])
    for x in r.samples:
        print("  ", x)
