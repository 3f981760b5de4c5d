"""The compiler crate (protox): import resolution, output sets, file lookup, loading, errors, command line.

The functions are interpreted over MIR as in the parser crate; the file resolver, the descriptor pool, the map of files and the
file system are abstract objects whose operations are recorded as events on the path."""
import re
from ai import *
import models as M

CMP = "protox::compile::Compiler"
FILE = "protox::file::File"
META = "protox::file::FileMetadata"
ERR = "protox::error::Error"
KIND = "protox::error::ErrorKind"
FR = "protox::file::FileResolver"
FDP = "prost_types::FileDescriptorProto"


def bare(k):
    """a path without generic arguments"""
    out, d, i = [], 0, 0
    while i < len(k):
        if d == 0 and k.startswith("::<", i):
            d, i = 1, i + 3
            continue
        if d:
            d += (k[i] == "<") - (k[i] == ">" and k[i - 1] != "-")
        else:
            out.append(k[i])
        i += 1
    return "".join(out)


class Rep:
    def __init__(self):
        self.viol, self.und, self.samples = [], [], []
        self.stats = dict(obligations=0, functions=0, paths=0)
        self.fns = set()

    def __call__(self, props, key, what, where="", cond=""):
        if all(v["key"] != key for v in self.viol):
            self.viol.append(dict(props=[props] if type(props) is str else list(props), key=key, detail=what, what=what, where=where, cond=cond))

    def ob(self, n=1):
        self.stats["obligations"] += n

    def undecided(self, what):
        if what not in self.und:
            self.und.append(what)


class Sch:
    """field and variant positions by name"""

    def __init__(self, prog):
        self.prog = prog

    def fi(self, path, name, variant=0):
        a = self.prog.adt_path[path]
        for i, f in enumerate(a["variants"][variant]["fields"]):
            if (f["name"] if isinstance(f, dict) else f) == name:
                return i
        raise KeyError("field %s.%s" % (path, name))

    def vi(self, path, name):
        for i, v in enumerate(self.prog.adt_path[path]["variants"]):
            if (v["name"] if isinstance(v, dict) else v) == name:
                return i
        raise KeyError("variant %s::%s" % (path, name))

    def has(self, path):
        return path in self.prog.adt_path


def conds(st):
    return "; ".join("%s in %s" % (show(t)[:90], f) for t, f in list(st.facts.items())[-12:])


class Base(Client):
    """pure library calls are terms over their arguments; every fact of a path is kept"""

    def __init__(self, prog, rep):
        self.prog, self.rep, self.sch = prog, rep, Sch(prog)

    def keep_fact(self, eng, st, t, live):
        return True

    def newvec(self, eng, st, elemty):
        return "array"

    def push(self, eng, st, ref, old, elem):
        if old.k == "A" and old.a[0] == "vec" and len(old.a[2]) < 20:
            M.setref(eng, st, ref, A("vec", 0, old.a[2] + (elem,)))
            return True
        return False

    def fork(self, eng, st, term, yes, no):
        """both outcomes of a yes/no question about the world"""
        out = []
        known = st.facts.get(term)
        for ans, val in ((1, yes), (0, no)):
            if known is not None and known != ((ans, ans),):
                continue
            s = st.clone()
            s.facts[term] = ((ans, ans),)
            r = val(s)
            if r is not None:
                out.append(r)
        return out


def interp(prog, rep, c, key, args, heap=None, facts=None, cl=None, max_steps=400_000, what=None):
    """all paths of one function, or None (undecided)"""
    eng = Eng(prog, c, max_steps=max_steps)
    try:
        outs = eng.run(prog.bodies[key], args, heap or {}, facts or {}, cl or {})
    except (Budget, Unsupported, KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError, AssertionError) as x:
        rep.undecided("%s cannot be followed: %s: %s" % (what or key, type(x).__name__, str(x)[:200]))
        return eng, None
    rep.fns |= eng.functions
    rep.stats["paths"] += len(outs)
    return eng, outs


def ref(name, v, heap, ty):
    c = ("H", name)
    heap[c] = v
    return mk("R", c, (), ty)


# ---------------------------------------------------------------- imports and requested files

class Roles:
    """the fields of the compiler's types, by their types"""

    def __init__(self, prog):
        self.prog = prog
        T = prog.crates["protox"].types

        def pos(path, want):
            fs = prog.adt_path[path]["variants"][0]["fields"]
            r = [i for i, f in enumerate(fs) if want(T[f[1]]["s"])]
            if len(r) != 1:
                raise Unsupported("no unique %s field" % path)
            return r[0]
        self.pool = pos(CMP, lambda s: s.endswith("DescriptorPool"))
        self.resolver = pos(CMP, lambda s: "dyn" in s and "FileResolver" in s)
        self.files = pos(CMP, lambda s: "FileMetadata" in s)
        self.f_path = pos(FILE, lambda s: s == OPT + "<std::path::PathBuf>")
        self.f_source = pos(FILE, lambda s: s == OPT + "<std::string::String>")
        self.f_descr = pos(FILE, lambda s: s == FDP)
        self.f_enc = pos(FILE, lambda s: s.startswith(OPT) and "Bytes" in s)
        self.m_name = pos(META, lambda s: s == "std::string::String")
        self.m_path = pos(META, lambda s: s == OPT + "<std::path::PathBuf>")
        self.m_imp = pos(META, lambda s: s == "bool")


def sig(b):
    T = b.crate.types
    return [T[b.locals[1 + i]]["s"] for i in range(b.args)], T[b.locals[0]]["s"]


def by_sig(prog, args, ret):
    out = []
    for k, b in prog.bodies.items():
        if b.local and b.raw.get("kind") != "Closure" and not k.startswith("const "):
            a, r = sig(b)
            if a == args and r == ret:
                out.append(k)
    return out


RE = RES + "<(), " + ERR + ">"
ROPT = OPT + "<std::string::String>"


def static_calls(prog):
    """the local call graph (closures belong to the function that makes them)"""
    g = {}
    for k, b in prog.bodies.items():
        if not b.local:
            continue
        g[k] = set()
        for x in callees(b):
            if x in prog.bodies:
                g[k].add(x)
        for k2 in prog.bodies:
            if k2.startswith(k + "::{closure"):
                g[k].add(k2)
    return g


def callees(b):
    out = set()

    def go(x):
        if isinstance(x, dict):
            if "key" in x and "ik" in x:
                out.add(x["key"])
            for y in x.values():
                go(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
    go(b.raw)
    return out


def recursive(g):
    """functions that can reach themselves"""
    out = set()
    for k in g:
        seen, todo = set(), list(g[k])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += g.get(x, ())
        if k in seen:
            out.add(k)
    return out


def same_opt(st, v, w):
    """an optional value, or what the path knows it to be"""
    if v is w:
        return True
    d = st.facts.get(mk("discr", w, OPT))
    return v is NONE and d == ((0, 0),) or d == ((1, 1),) and v is some(field(w, 1, 0))


class Flow(Base):
    """one path through the resolution of a file: lookups, loads, recursive imports, additions to the pool and the map of files"""

    def __init__(self, prog, rep, roles, key, ctx):
        Base.__init__(self, prog, rep)
        self.r, self.key, self.x = roles, key, ctx
        self.unknown, self.bad = [], []
        self.name = None
        fs = prog.adt_path[FDP]["variants"][0]["fields"]
        self.dep = [i for i, f in enumerate(fs) if f[0] == "dependency"][0]
        self.dupseen = False

    def ev(self, st, *e):
        if st.cl.get("it") is not None and e[0] in ("new", "import"):
            st.cl["it"] = st.cl["it"] | {e[0]}
        else:
            st.cl["ev"] = st.cl.get("ev", ()) + (e,)

    def events(self, st, *kinds):
        return [e for e in st.cl.get("ev", ()) if e[0] in kinds]

    def flag(self, st, props, key, what):
        self.bad.append((props, key, what, st.where(), conds(st)))

    def isdep(self, coll):
        return coll.k == "f" and coll.a[2] == self.dep and coll.a[0].k == "f" and coll.a[0].a[2] == self.r.f_descr and coll.a[0].a[0].k == "file"

    def elem(self, eng, st, coll, e):
        if self.isdep(coll):
            st.cl["it"] = frozenset()

    def item_done(self, eng, st, coll, e):
        if self.isdep(coll):
            got = st.cl["it"]
            m = st.cl.get("must")
            st.cl["must"] = got if m is None else m & got
            st.cl["it"] = None
        elif coll.k == "stk":
            if st.facts.get(mk("pred", "same", e)) != ((0, 0),):
                st.cl["skipped"] = 1

    def exhausted(self, eng, st, coll):
        if self.isdep(coll):
            st.cl["it"] = None
            self.ev(st, "all", coll.a[0].a[0], frozenset(("new", "import")) if st.cl.get("must") is None else st.cl["must"])
            st.cl["must"] = None
        elif coll.k == "stk" and not st.cl.get("skipped") and st.cl.get("in") is None:
            st.cl["in"] = "no"

    def instack(self, eng, st, e, x):
        """does an element of the stack equal the imported name?"""
        def yes(s):
            s.cl["in"] = "yes"
            return s, TRUE
        return self.fork(eng, st, mk("pred", "same", e), yes, lambda s: (s, FALSE))

    def call(self, eng, st, callee, args, site):
        k = callee.get("key")
        p = M.npath(callee.get("rpath") or callee["path"])
        tr, m = callee.get("trait"), callee.get("method")
        v = [eng.deref(st, a) for a in args]
        tail = "::".join(p.split("::")[-2:])
        op = tail.split("::")[-1]
        v0 = v[0] if v else UNIT
        if tr == FR and m == "resolve_path":
            return self.fork(eng, st, mk("pred", "resolves", v[1]), lambda s: (s, some(mk("resolved", v[1]))), lambda s: (s, NONE))
        if tr == FR and m == "open_file":
            return self.opened(eng, st, v[1])
        if k in self.x["rec"] and st.frames and site is not None:
            return self.imported(eng, st, callee, args, v)
        if k in self.x["fnames"]:
            return self.fork(eng, st, mk("pred", "hasname", v0), lambda s: (s, some(mk("fname", v0))), lambda s: (s, NONE))
        if k in self.x["shadows"]:
            def shok(s):
                self.ev(s, "shadow", v[0], v[1], v[2])
                return s, ok(UNIT)
            return self.fork(eng, st, mk("pred", "unshadowed", v[0], v[1], v[2]), shok, lambda s: (s, err(mk("shadowerr", v[0], v[1], v[2]))))
        if k in self.x["wraps"]:
            return [(st, mk("wrap", *v))]
        if k in self.x["dups"]:
            return [(st, mk("duperr", *v))]
        if v0.k == "files" and (k is None or k not in self.prog.bodies):
            r = self.mapop(eng, st, op, args, v)
            if r is None and op not in ("deref", "deref_mut", "borrow", "as_ref", "as_mut", "by_ref"):
                self.unknown.append(p)
            return r
        if v0.k == "occ":
            if op in ("get_mut", "into_mut", "get"):
                return [(st, self.metaref(st, v0.a[0]))]
            self.unknown.append(p)
        if v0.k == "vac":
            if op == "insert":
                self.ev(st, "insert", v0.a[0], v[1])
                return [(st, self.metaref(st, v0.a[0]))]
            self.unknown.append(p)
        if ("HashSet" in p or "BTreeSet" in p) and v0.k != "set" and op in ("new", "with_capacity", "default"):
            return [(st, mk("set", M.site_id(st)[-1:], int(st.cl.get("it") is not None)))]
        if v0.k == "set" and (k is None or k not in self.prog.bodies):
            if op in ("insert", "contains") and len(v) == 2:
                new, old = (TRUE, FALSE) if op == "insert" else (FALSE, TRUE)

                def isnew(s):
                    if v0.a[1]:
                        self.flag(s, "P23", "dup-fresh", "duplicates are looked for in a set made anew for every import")
                    if v[1] is M.elem_of(v[1].a[0]) and self.isdep(v[1].a[0]) if v[1].k == "elem" else False:
                        self.ev(s, "new")
                    return s, new
                return self.fork(eng, st, mk("pred", "newelem", v0, v[1]), isnew, lambda s: (s, old))
            self.unknown.append(p)
        if v0.k == "pool" and op in ("decode_file_descriptor_proto", "add_file_descriptor_proto"):
            return self.added(eng, st, "enc" if op.startswith("decode") else "descr", v[1])
        if v0.k == "pool" and (k is None or k not in self.prog.bodies) and op not in ("deref", "borrow", "as_ref"):
            self.unknown.append(p)
        if tail == "DescriptorError::with_source_code":
            return [(st, mk("withsrc", v[0], v[1]))]
        if v0.k == "stk" and op == "contains" and len(v) == 2:
            def has(s):
                s.cl["in"] = "yes"
                eng.narrow(s, mk("len", v0), ((1, INF),))
                return s, TRUE

            def hasnt(s):
                s.cl["in"] = "no"
                return s, FALSE
            if v[1] is not self.name:
                self.unknown.append(p)
            return self.fork(eng, st, mk("pred", "contains", v0, v[1]), has, hasnt)
        if v0.k == "stk" and args[0].k == "R":
            if op in ("push", "push_back"):
                eng.store(st, args[0].a[0], args[0].a[1], mk("stk", v0.a[0], v0.a[1] + (v[1],)))
                return [(st, UNIT)]
            if op in ("pop", "pop_back") and not v0.a[1]:
                eng.store(st, args[0].a[0], args[0].a[1], mk("stk", mk("popped", v0.a[0]), ()))
                return [(st, mk("call", "popped", (v0,)))]
            if op in ("pop", "pop_back"):
                eng.store(st, args[0].a[0], args[0].a[1], mk("stk", v0.a[0], v0.a[1][:-1]))
                return [(st, some(v0.a[1][-1]))]
            if op in ("truncate", "clear", "remove", "insert", "append", "extend", "drain", "retain", "swap_remove", "split_off", "resize"):
                self.unknown.append(p)
        if tr in ("std::cmp::PartialEq", "core::cmp::PartialEq") and m in ("eq", "ne") and len(v) == 2:
            for a, b in ((v[0], v[1]), (v[1], v[0])):
                if a.k == "elem" and a.a[0].k == "stk" and b is self.name:
                    r = self.instack(eng, st, a, b)
                    return r if m == "eq" else [(s, FALSE if t is TRUE else TRUE) for s, t in r]
        return None

    def metaref(self, st, key):
        c = ("H", "meta")
        if c not in st.heap:
            st.heap[c] = mk("meta", key)
        return mk("R", c, (), META)

    def mapop(self, eng, st, op, args, v):
        key = v[1] if len(v) > 1 else None
        has = mk("pred", "infiles", key)
        if op in ("get_mut", "get"):
            return self.fork(eng, st, has, lambda s: (s, some(self.metaref(s, key))), lambda s: (s, NONE))
        if op == "contains_key":
            return self.fork(eng, st, has, lambda s: (s, TRUE), lambda s: (s, FALSE))
        if op == "insert":
            self.ev(st, "insert", key, v[2])
            return [(st, mk("oldmeta"))]
        if op == "entry":
            E = "std::collections::hash_map::Entry"
            return self.fork(eng, st, has, lambda s: (s, A(E, 0, (mk("occ", key),))), lambda s: (s, A(E, 1, (mk("vac", key),))))
        if op in ("index", "index_mut"):
            return [(st, self.metaref(st, key))]
        return None

    def opened(self, eng, st, name):
        if st.facts.get(mk("pred", "infiles", name)) != ((0, 0),):
            self.flag(st, "P23", "reopen", "a file is loaded without looking whether it is there already")
        if self.events(st, "open", "noopen"):
            self.flag(st, "P23", "open-twice", "a file is loaded twice")
        if self.stacked and st.cl.get("in") != "no":
            self.flag(st, "P23", "cycle-check", "an imported file is loaded without looking whether it is being loaded already")

        def yes(s):
            self.ev(s, "open", name)
            return s, ok(mk("file", name))

        def no(s):
            self.ev(s, "noopen", name)
            return s, err(mk("openerr", name))
        self.rep.ob(3)
        return self.fork(eng, st, mk("pred", "opens", name), yes, no)

    def imported(self, eng, st, callee, args, v):
        name = [x for x in v if x.k == "elem" and self.isdep(x.a[0])]
        stk = [x for x in v if x.k == "stk" or x.k == "A" and x.a[0] in ("vec", "array")]
        self.rep.ob(2)
        part = [x for x in v if x.k == "elem" and x.a[0].k in ("part", "slice") and self.isdep(x.a[0].a[0])]
        if part and not name:
            self.flag(st, "P23", "import-part", "only part of a file's imports is followed: %s" % show(part[0])[:100])
            return [(st, mk("imp", *v))]
        if len(name) != 1:
            self.unknown.append("arguments of the recursive import: %s" % show(v)[:200])
            return [(st, mk("imp", *v))]
        name = name[0]
        F = name.a[0].a[0].a[0]
        if len(stk) == 1:
            have = list(stk[0].a[1] if stk[0].k == "stk" else stk[0].a[2])
            if F.a[0] not in have or self.stacked and stk[0].k != "stk":
                self.flag(st, ("P23", "P06"), "stack", "an import is followed without remembering the file that imports it: cycles are not noticed")
        else:
            self.unknown.append("no stack of files being loaded")

        def yes(s):
            self.ev(s, "import", name)
            return s, ok(UNIT)
        return self.fork(eng, st, mk("pred", "imports", name), yes, lambda s: (s, err(mk("imperr", name))))

    def added(self, eng, st, how, what):
        opens = self.events(st, "open")
        F = mk("file", opens[-1][1]) if opens else None
        r = self.r
        enc, descr = (field(F, 0, r.f_enc), field(F, 0, r.f_descr)) if F is not None else (None, None)
        self.rep.ob(4)
        if F is None:
            self.flag(st, "P23", "add-nothing", "something other than a loaded file is added to the pool")
        else:
            has = st.facts.get(mk("discr", enc, OPT))
            if how == "descr" and what is descr:
                if has != ((0, 0),):
                    self.flag(st, "P28", "add-encoded", "a file that came with its encoded bytes is added without them: custom options are lost")
            elif not (how == "enc" and what is field(enc, 1, 0)):
                self.flag(st, ("P23", "P28"), "add-what", "what is added to the pool is not the loaded file: %s" % show(what)[:120])
            alls = [e for e in self.events(st, "all") if e[1] is F]
            got = frozenset().union(*[e[2] for e in alls]) if alls else frozenset()
            if "import" not in got:
                self.flag(st, "P23", "add-before-imports", "a file is added to the pool before all its imports are")
            if "new" not in got:
                if self.dupseen and "dup-fresh" not in [b[1] for b in self.bad]:
                    self.unknown.append("check for duplicate imports")
                self.flag(st, "P23", "add-duplicates", "a file is added to the pool although one import may be listed twice")
        if self.events(st, "add", "noadd"):
            self.flag(st, "P23", "add-twice", "a file is added to the pool twice")

        def yes(s):
            self.ev(s, "add", how, what)
            return s, ok(UNIT)

        def no(s):
            self.ev(s, "noadd", how, what)
            return s, err(mk("adderr", what))
        return self.fork(eng, st, mk("pred", "adds", what), yes, no)

    # ---- returns

    def finish(self, outs, path=None):
        for st, v in outs:
            self.rep.ob()
            v = v if v.k == "A" else v
            if v.k != "A" or v.a[0] != RES:
                self.unknown.append("result %s" % show(v)[:100])
                continue
            if v.a[1] == 0:
                self.ok(st, path)
            else:
                self.err(st, v.a[2][0], path)
        if self.unknown:
            for x in self.unknown:
                self.rep.undecided("%s: %s" % (self.key.split("::")[-1], x))
        for props, key, what, where, cond in self.bad:
            if self.unknown:
                self.rep.undecided("%s: %s" % (key, what))
            else:
                self.rep(props, "flow:%s:%s" % ("request" if path is not None else "import", key), what, where, cond)

    def target(self, st, path):
        """the name the requested path stands for; None: it has none"""
        if path is None:
            return self.name, None
        res = st.facts.get(mk("pred", "resolves", path))
        if res == ((1, 1),):
            return mk("resolved", path), True
        has = st.facts.get(mk("pred", "hasname", path))
        if res == ((0, 0),) and has == ((1, 1),):
            return mk("fname", path), False
        if res == ((0, 0),) and has == ((0, 0),):
            return None, False
        return 0, False

    def ok(self, st, path):
        N, resolved = self.target(st, path)
        self.rep.ob(5)
        if N == 0:
            return self.flag(st, "P26", "request-name", "the name of a requested file is not the one its include path gives it")
        if N is None:
            return self.flag(st, ("P23", "P26"), "ok-name", "success although the path has no name as a proto file")
        if path is None:
            stk = st.heap.get(("H", "stk"))
            if stk is not None and stk.a[0].k == "popped":
                self.flag(st, ("P23", "P06"), "unbalanced", "a file that is still being loaded is taken off the stack")
            elif stk is not None and stk.a[1]:
                self.flag(st, "P23", "unbalanced", "an import that was loaded stays on the stack of files being loaded: the next file to import it reports a cycle")
            if st.cl.get("in") == "yes":
                self.flag(st, ("P23", "P06"), "ok-cycle", "success although the imported file is being loaded already")
        known = st.facts.get(mk("pred", "infiles", N))
        meta = st.heap.get(("H", "meta"))
        if known == ((1, 1),):
            if self.events(st, "open", "add", "insert", "noopen"):
                self.flag(st, "P23", "again", "a file that is there already is loaded again")
            m0 = mk("meta", N)
            want = field(m0, 0, self.r.m_imp) if path is None else FALSE
            if path is not None and meta is None:
                self.flag(st, "P24", "request-import", "a requested file that was imported before stays marked as an import")
            elif meta is not None:
                fs = [field(meta, 0, i) for i in range(3)]
                if fs[self.r.m_imp] is not want:
                    self.flag(st, "P24", "request-import", "a file known already ends up with is_import = %s" % show(fs[self.r.m_imp])[:80])
                if fs[self.r.m_name] is not field(m0, 0, self.r.m_name) or fs[self.r.m_path] is not field(m0, 0, self.r.m_path):
                    self.flag(st, "P24", "request-meta", "the name or path of a file known already is changed")
            if resolved:
                sh = [e for e in self.events(st, "shadow") if e[1] is N and same_opt(st, e[2], field(m0, 0, self.r.m_path)) and e[3] is path]
                if not sh:
                    self.flag(st, "P26", "shadow-known", "a file known already is accepted without looking whether it is the file the path means")
            return
        if known != ((0, 0),):
            return self.flag(st, "P23", "ok-unknown", "success without looking whether the file is known")
        F = mk("file", N)
        if not [e for e in self.events(st, "open") if e[1] is N]:
            return self.flag(st, "P23", "ok-unloaded", "success without loading the file")
        if not self.events(st, "add"):
            self.flag(st, "P23", "ok-unadded", "success without adding the file to the pool")
        ins = self.events(st, "insert")
        if len(ins) != 1:
            return self.flag(st, ("P23", "P24"), "insert-count", "success with %d entries added to the map of files" % len(ins))
        evs = [e[0] for e in st.cl["ev"]]
        if "add" in evs and evs.index("insert") < evs.index("add"):
            self.flag(st, "P23", "insert-early", "the file is listed before it is added to the pool: a failure leaves it listed")
        key, val = ins[0][1], ins[0][2]
        if key is not N:
            self.flag(st, ("P23", "P24"), "insert-key", "the file is listed under %s" % show(key)[:80])
        if val.k == "A":
            fs = val.a[2]
            if fs[self.r.m_name] is not N:
                self.flag(st, "P24", "meta-name", "the listed name is %s" % show(fs[self.r.m_name])[:80])
            if fs[self.r.m_path] is not field(F, 0, self.r.f_path):
                self.flag(st, "P24", "meta-path", "the listed path is %s" % show(fs[self.r.m_path])[:80])
            if fs[self.r.m_imp] is not (TRUE if path is None else FALSE):
                self.flag(st, "P24", "meta-import", "a file that is %s is listed with is_import = %s" % ("imported" if path is None else "requested", show(fs[self.r.m_imp])))
        if path is not None:
            sh = [e for e in self.events(st, "shadow") if e[1] is N and same_opt(st, e[2], field(F, 0, self.r.f_path)) and e[3] is path]
            if resolved and not sh:
                self.flag(st, "P26", "shadow-new", "a file is accepted without looking whether it is the file the path means")

    def kind(self, e):
        """(variant name, fields by name) of an error made here"""
        if e.k == "A" and e.a[0] == ERR and e.a[2] and e.a[2][0].k == "A" and e.a[2][0].a[0] == KIND:
            k = e.a[2][0]
            v = self.prog.adt_path[KIND]["variants"][k.a[1]]
            return v["name"], {f[0]: x for f, x in zip(v["fields"], k.a[2])}
        return None, {}

    def err(self, st, e, path):
        N, resolved = self.target(st, path)
        self.rep.ob(4)
        if N == 0:
            return self.flag(st, "P26", "request-name", "the name of a requested file is not the one its include path gives it")
        kd, fs = self.kind(e)
        if self.events(st, "insert", "add"):
            self.flag(st, "P23", "err-partial", "failure after the file was added")
        meta = st.heap.get(("H", "meta"))
        if meta is not None and meta.k == "A":
            m0 = mk("meta", N) if N else None
            if m0 is None or any(field(meta, 0, i) is not field(m0, 0, i) for i in range(3)):
                self.flag(st, "P24", "err-meta", "failure after the entry of a known file was changed")
        F = mk("file", N) if N else None
        if kd == "CircularImport":
            if st.cl.get("in") != "yes":
                self.flag(st, "P23", "false-cycle", "a cycle is reported for an import that is not being loaded")
            elif fs.get("name") is not N:
                self.flag(st, "P23", "cycle-name", "a cycle is reported for %s" % show(fs.get("name"))[:80])
            elif not self.mentions(fs.get("cycle"), N) or not re.search(r"\belem\b|\bstk\b", show(fs.get("cycle"))):
                self.flag(st, "P23", "cycle-text", "the reported cycle does not list the files of the stack and the import: %s" % show(fs.get("cycle"))[:120])
            return
        if path is None and st.cl.get("in") == "yes":
            return self.flag(st, "P23", "cycle-kind", "an import that is being loaded already is not reported as a cycle: %s" % show(e)[:100])
        if kd == "FileNotIncluded":
            good = path is not None and fs.get("path") is path and (N is None or (st.facts.get(mk("pred", "opens", N)) == ((0, 0),) and self.notfound(st, N) is True))
            if not good:
                self.flag(st, ("P23", "P26", "P29"), "not-included", "\"not in any include path\" is reported for something else: %s" % show(e)[:120])
            return
        if e.k == "openerr":
            if e.a[0] is not N or st.facts.get(mk("pred", "opens", N)) != ((0, 0),):
                self.flag(st, "P23", "err-open", "an error loading %s" % show(e.a[0])[:80])
            elif path is not None and self.notfound(st, N) is not False:
                self.flag(st, "P29", "request-notfound", "a requested file that no include path has is reported as missing by name only")
            return
        if e.k == "wrap":
            i, f, ix = (tuple(e.a) + (None, None, None))[:3]
            if i.k != "imperr":
                return self.flag(st, "P29", "wrap-what", "what is reported as the error of an import is %s" % show(i)[:100])
            if ix.k not in ("pos", "i"):
                self.unknown.append("position of the import")
            if f is not F or ix is not mk("pos", i.a[0].a[0]):
                self.flag(st, "P29", "wrap-where", "the error of an import is reported at %s, %s" % (show(f)[:80], show(ix)[:80]))
            return
        if e.k == "imperr":
            return self.flag(st, "P29", "unwrapped", "the error of an import does not say which file imports it")
        if e.k == "duperr":
            self.dupseen = True
            nm, f, ix = (tuple(e.a) + (None, None, None))[:3]
            if not any(t.k == "pred" and t.a[0] == "newelem" and t.a[2] is nm and x == ((0, 0),) for t, x in st.facts.items()) and nm.k == "elem" and self.isdep(nm.a[0]):
                if any(t.k == "pred" and t.a[0] == "newelem" for t in st.facts):
                    self.flag(st, "P23", "false-dup", "an import is reported as listed twice although it is the first")
                else:
                    self.unknown.append("how duplicate imports are found")
            elif ix.k not in ("pos", "i"):
                self.unknown.append("position of the import")
            elif nm.k != "elem" or f is not F or ix is not mk("pos", nm.a[0]):
                self.flag(st, ("P23", "P29"), "dup-where", "a duplicate import is reported as %s at %s, %s" % (show(nm)[:60], show(f)[:60], show(ix)[:60]))
            return
        if e.k == "shadowerr":
            m0 = mk("meta", N) if N else None
            if not (path is not None and resolved and e.a[0] is N and e.a[2] is path and (same_opt(st, e.a[1], field(F, 0, self.r.f_path)) or same_opt(st, e.a[1], field(m0, 0, self.r.m_path)))):
                self.flag(st, "P26", "shadow-args", "the check for a shadowed path is made on %s" % show(e)[:120])
            return
        if kd == "Check":
            x = fs.get("err")
            src = field(F, 0, self.r.f_source)
            has = st.facts.get(mk("discr", src, OPT))
            if x.k == "withsrc":
                if x.a[1] is not field(src, 1, 0):
                    return self.flag(st, "P29", "check-source", "an error of the checks is shown in another text than the file's: %s" % show(x.a[1])[:80])
                x = x.a[0]
            elif has != ((0, 0),):
                self.flag(st, "P29", "check-nosource", "an error of the checks does not carry the file's source")
            if x.k != "adderr" or not self.events(st, "noadd"):
                self.flag(st, ("P23", "P29"), "check-err", "an error of the checks without a failed check: %s" % show(x)[:100])
            return
        ops = [x for x in subs(e) if x.k in ("imperr", "openerr", "adderr", "shadowerr")]
        if ops:
            self.unknown.append("error %s" % show(e)[:120])
        else:
            self.flag(st, ("P23", "P29"), "false-error", "failure without anything that failed: %s" % show(e)[:120])

    def mentions(self, v, x):
        return v is not None and (v is x or x in subs(v))

    def notfound(self, st, N):
        """does the path know whether the failed load means that there is no such file?"""
        vs = self.prog.adt_path[KIND]["variants"]
        nf = [i for i, v in enumerate(vs) if v["name"] in ("FileNotFound", "ImportNotFound", "FileNotIncluded")]
        e = mk("openerr", N)
        for t, r in st.facts.items():
            if t.k == "discr" and e in subs(t):
                got = {i for lo, hi in r for i in range(lo, min(hi, 64) + 1)}
                if got <= set(nf):
                    return True
                if not got & set(nf):
                    return False
            if t.k == "pred" and t.a[0] == "isnf" and t.a[1] is e:
                return r == ((1, 1),)
        return None


def self_value(prog, roles):
    n = len(prog.adt_path[CMP]["variants"][0]["fields"])
    fs = [P("flag%d" % i) for i in range(n)]
    fs[roles.pool], fs[roles.files], fs[roles.resolver] = mk("pool"), mk("files"), mk("resolver")
    return A(CMP, 0, fs)


def context(prog):
    return dict(rec=set(), fnames=set(by_sig(prog, ["&std::path::Path"], ROPT)),
                shadows=set(by_sig(prog, ["&str", OPT + "<&std::path::Path>", "&std::path::Path"], RE)),
                wraps=set(by_sig(prog, [ERR, "&" + FILE, "usize"], ERR)),
                dups=set(by_sig(prog, ["std::string::String", "&" + FILE, "usize"], ERR)))


def flow(prog, rep):
    roles = Roles(prog)
    ctx = context(prog)
    g = static_calls(prog)
    rec = recursive(g)
    reqs = [k for k in prog.bodies if bare(k) == CMP + "::open_file" and prog.bodies[k].local]
    if not reqs:
        raise Unsupported("no Compiler::open_file")
    # the recursive function that follows one import: a name and the files being loaded
    imps = [k for k in rec if "&str" in sig(prog.bodies[k])[0] and any("Vec<std::string::String>" in t for t in sig(prog.bodies[k])[0])]
    if len(imps) != 1:
        rep.undecided("the function that follows an import: %s" % sorted(rec))
        return
    for k in imps + reqs:
        c = Flow(prog, rep, roles, k, dict(ctx, rec=set(imps)))
        b = prog.bodies[k]
        heap, args, path = {}, [], None
        c.stacked = k in imps
        for i, t in enumerate(sig(b)[0]):
            if CMP in t:
                args.append(ref("self", self_value(prog, roles), heap, CMP))
            elif "Vec<" in t:
                x = mk("stk", P("stack"), ())
                args.append(ref("stk", x, heap, "vec") if t.startswith("&") else x)
            elif k in imps and t == "&str":
                c.name = P("name")
                args.append(ref("name", c.name, heap, "str"))
            else:
                path = P("path")
                args.append(path)
        eng, outs = interp(prog, rep, c, k, args, heap)
        if outs is None:
            continue
        for st, v in outs:
            if v.k == "A" and v.a[0] == RES and v.a[1] == 1 and v.a[2][0].k == "duperr":
                c.dupseen = True
        c.finish(outs, None if k in imps else path)
        rep.samples.append("%s: %d paths" % (k, len(outs)))


# ---------------------------------------------------------------- outputs

SELF = ("H", "self")


def opname(callee):
    return bare(M.norm_path(callee.get("rpath") or callee["path"])).split("::")[-1]


def fnpath(callee):
    return bare(callee.get("rpath") or callee["path"])


class Outs(Base):
    """the set of files handed out: which files of the pool, and in what form"""

    def __init__(self, prog, rep, roles, flags, what):
        Base.__init__(self, prog, rep)
        self.r, self.flags, self.what = roles, flags, what
        self.unknown, self.bad = [], []

    def newvec(self, eng, st, elemty):
        return False

    def push(self, eng, st, ref, old, elem):
        if st.cl.get("on"):
            st.cl["out"] = st.cl.get("out", ()) + (elem,)
        return False

    def collected(self, eng, st, x, itn):
        if st.cl.get("on"):
            st.cl["out"] = st.cl.get("out", ()) + (x,)

    def isfiles(self, coll):
        return coll.k == "poolfiles"

    def flag(self, st, key, what):
        self.bad.append((key, what, st.where(), conds(st)))

    def elem(self, eng, st, coll, e):
        if self.isfiles(coll):
            st.cl["on"], st.cl["out"] = 1, ()

    def exhausted(self, eng, st, coll):
        if self.isfiles(coll):
            st.cl["on"] = None
            st.cl["seen"] = 1

    def bool_(self, eng, st, t):
        r = eng.rng(st, t) if t.k != "i" else None
        if t.k == "i":
            return bool(t.a[0])
        f = st.facts.get(t)
        return None if f is None or f not in (((0, 0),), ((1, 1),)) else f == ((1, 1),)

    def item_done(self, eng, st, coll, e):
        if not self.isfiles(coll):
            return
        out = st.cl.get("out", ())
        st.cl["on"], st.cl["out"] = None, ()
        imps = self.bool_(eng, st, P("flag%d" % self.flags["imports"]))
        isimp = self.bool_(eng, st, field(mk("meta", mk("nameof", e)), 0, self.r.m_imp))
        self.rep.ob(2)
        want = True if imps is True or isimp is False else False if imps is False and isimp is True else None
        if len(out) > 1:
            return self.flag(st, "twice", "a file appears more than once in the output")
        if want is None:
            return self.flag(st, "undecided-file", "whether a file is in the output does not depend on include_imports and on whether it was requested")
        if want and not out:
            return self.flag(st, "dropped", "a file is left out although %s" % ("imports are included" if imps else "it was requested"))
        if not want and out:
            return self.flag(st, "extra", "an imported file is in the output although imports are not included")
        if out:
            self.form(eng, st, e, out[0])

    def form(self, eng, st, e, v):
        src = self.bool_(eng, st, P("flag%d" % self.flags["source"]))
        fs = self.prog.adt_path[FDP]["variants"][0]["fields"]
        si = [i for i, f in enumerate(fs) if f[0] == "source_code_info"][0]
        has = None
        if v.k == "A" and v.a[0].endswith("::Value") and v.a[2]:
            v = v.a[2][0]
        proto = mk("proto", e)
        if v is proto:
            has = True
        elif v.k == "A" and v.a[0] == FDP:
            for i, f in enumerate(fs):
                x = v.a[2][i]
                if i == si:
                    has = True if x is field(proto, 0, i) else False if x is NONE else None
                elif x is not field(proto, 0, i):
                    return self.flag(st, "field:" + f[0], "%s of a file in the output is %s" % (f[0], show(x)[:80]))
        else:
            has = True
            while v.k == "cleared":
                if v.a[1] is S("source_code_info"):
                    has = False
                else:
                    return self.flag(st, "cleared", "%s of a file in the output is removed" % show(v.a[1]))
                v = v.a[0]
            if v.k == "dyn":
                v = v.a[0]
            if v is not mk("bytes", e):
                has = None
        if has is None:
            self.unknown.append("form of a file in the output: %s" % show(v)[:150])
        elif src is None:
            self.flag(st, "source-undecided", "source info is %s the output whether or not it was asked for" % ("in" if has else "not in"))
        elif has != src:
            self.flag(st, "source", "source info is %s the output although it was %sasked for" % ("in" if has else "not in", "" if src else "not "))

    def call(self, eng, st, callee, args, site):
        k = callee.get("key")
        if k is not None and k in self.prog.bodies:
            return None
        v = [eng.deref(st, a) for a in args]
        v0 = v[0] if v else UNIT
        op = opname(callee)
        full = fnpath(callee)
        if v0.k == "pool":
            if op == "files":
                return [(st, mk("poolfiles"))]
            if op == "encode_to_vec":
                return [(st, mk("encpool"))]
            if op == "clone" or op in ("deref", "borrow"):
                return None
            if op != "file_descriptor_protos":
                self.unknown.append("pool operation " + op)
            return [(st, mk("protos"))] if op == "file_descriptor_protos" else None
        if v0.k == "elem" and self.isfiles(v0.a[0]) or v0.k == "file_":
            t = {"name": "nameof", "file_descriptor_proto": "proto", "encode_to_vec": "bytes"}.get(op)
            if t:
                return [(st, mk(t, v0))]
        if v0.k == "files":
            if op in ("index", "get", "contains_key"):
                c = ("H", "meta")
                st.heap[c] = mk("meta", v[1])
                r = mk("R", c, (), META)
                return [(st, r if op == "index" else some(r) if op == "get" else TRUE)]
            self.unknown.append("files." + op)
        if full.endswith("DynamicMessage::decode"):
            return [(st, ok(mk("dyn", v[1])))]
        if op == "transcode_to_dynamic":
            return [(st, mk("dyn0", v0))]
        if v0.k in ("dyn", "cleared", "dyn0", "setf") and args[0].k == "R" or v0.k in ("dyn", "cleared", "dyn0", "setf") and op == "encode_to_vec":
            if op == "clear_field_by_name":
                eng.store(st, args[0].a[0], args[0].a[1], mk("cleared", v0, v[1]))
                return [(st, UNIT)]
            if op == "set_field_by_name":
                eng.store(st, args[0].a[0], args[0].a[1], mk("setf", v0, v[1], v[2]))
                return [(st, UNIT)]
            if op == "encode_to_vec":
                return [(st, mk("encmsg", v0))]
        if v0.k == "A" and v0.a[0].endswith("FileDescriptorSet") and op == "encode_to_vec":
            return [(st, mk("encmsg", v0))]
        return None

    def panic(self, eng, st, what):
        self.bad.append(("panic", "a panic can be reached: %s" % what, st.where(), conds(st)))

    def close(self):
        for u in self.unknown:
            self.rep.undecided("%s: %s" % (self.what, u))
        for key, what, where, cond in self.bad:
            if self.unknown:
                self.rep.undecided("%s: %s" % (self.what, what))
            else:
                self.rep("P24", "out:%s:%s" % (self.what, key), what, where, cond)


def setters(prog, rep, roles):
    """which field each option sets"""
    out = {}
    for nm, role in (("include_imports", "imports"), ("include_source_info", "source")):
        ks = [k for k in prog.bodies if bare(k) == CMP + "::" + nm]
        if not ks:
            raise Unsupported("no Compiler::" + nm)
        heap = {}
        s0 = self_value(prog, roles)
        b = prog.bodies[ks[0]]
        eng, outs = interp(prog, rep, Base(prog, rep), ks[0], [ref("self", s0, heap, CMP), P("yes")], heap)
        for st, v in outs or ():
            s1 = st.heap[SELF]
            ch = [i for i in range(len(s0.a[2])) if field(s1, 0, i) is not s0.a[2][i]]
            rep.ob()
            if len(ch) != 1 or field(s1, 0, ch[0]) is not P("yes") or out.setdefault(role, ch[0]) != ch[0]:
                rep("P24", "setter:" + nm, "%s does not set one option to the value given" % nm, M.norm_path(ks[0]), conds(st))
                out.setdefault(role, ch[0] if ch else 0)
    if len(set(out.values())) != 2:
        rep("P24", "setters", "the two options are not kept apart")
    return out


def outputs(prog, rep):
    roles = Roles(prog)
    flags = setters(prog, rep, roles)
    one = lambda nm: [k for k in prog.bodies if bare(k) == CMP + "::" + nm][0]
    for nm in ("file_descriptor_set", "encode_file_descriptor_set"):
        heap = {}
        c = Outs(prog, rep, roles, flags, nm)
        eng, outs = interp(prog, rep, c, one(nm), [ref("self", self_value(prog, roles), heap, CMP)], heap)
        for st, v in outs or ():
            rep.ob()
            imps, src = (c.bool_(eng, st, P("flag%d" % flags[x])) for x in ("imports", "source"))
            if v.k == "encpool":
                if not (imps is True and src is True):
                    c.flag(st, "whole-pool", "the whole pool with source info is the output although %s" % ("imports are not asked for" if not imps else "source info is not asked for"))
                continue
            if not st.cl.get("seen"):
                if "protos" in show(v):
                    c.unknown.append("output %s" % show(v)[:100])
                else:
                    c.flag(st, "unseen", "an output without going through the files of the pool: %s" % show(v)[:100])
                continue
            x = v
            if x.k == "encmsg":
                x = x.a[0]
            if x.k == "setf":
                if x.a[1] is not S("file"):
                    c.flag(st, "set-field", "the files are stored as %s" % show(x.a[1]))
                x = x.a[2]
                x = x.a[2][0] if x.k == "A" and x.a[2] else x
            elif x.k == "A" and x.a[0].endswith("FileDescriptorSet"):
                x = x.a[2][0]
            else:
                c.unknown.append("output %s" % show(v)[:100])
                continue
            if not (x.k == "V" or x.k == "A" and x.a[0] == "vec"):
                c.unknown.append("output %s" % show(v)[:100])
        c.close()
        rep.samples.append("%s: %d paths" % (nm, len(outs or ())))
    # the pool and the metadata handed out
    heap = {}
    c = Outs(prog, rep, roles, flags, "descriptor_pool")
    eng, outs = interp(prog, rep, c, one("descriptor_pool"), [ref("self", self_value(prog, roles), heap, CMP)], heap)
    for st, v in outs or ():
        rep.ob()
        if v.k != "pool":
            c.flag(st, "pool", "descriptor_pool returns %s" % show(v)[:80])
    c.close()
    heap = {}
    c = Outs(prog, rep, roles, flags, "files")
    eng, outs = interp(prog, rep, c, one("files"), [ref("self", self_value(prog, roles), heap, CMP)], heap)
    for st, v in outs or ():
        rep.ob()
        x = v
        maps = []
        while x.k == "it" and x.a[0] == "map":
            maps.append(x.a[2])
            x = x.a[1]
        if not (x.k == "it" and x.a[0] == "sym" and x.a[1].k == "poolfiles") or len(maps) != 1 or maps[0].k != "A" or not maps[0].a[0].startswith("closure:"):
            if x.k == "it" and x.a[0] in ("filter", "filter_map", "take_while", "skip_while"):
                c.flag(st, "files-part", "files() leaves out files")
            else:
                c.unknown.append(show(v)[:150])
            continue
        heap2 = dict(st.heap)
        key = maps[0].a[0][8:]
        e = M.elem_of(mk("poolfiles"))
        e2, outs2 = interp(prog, rep, c, key, [ref("clos", maps[0], heap2, "closure"), e], heap2)
        for st2, v2 in outs2 or ():
            rep.ob()
            if e2.deref(st2, v2) is not mk("meta", mk("nameof", e)):
                c.flag(st2, "files-meta", "files() gives %s for a file of the pool" % show(e2.deref(st2, v2))[:100])
    c.close()


class Drive(Base):
    """functions that only combine the compiler's operations"""

    def __init__(self, prog, rep, what):
        Base.__init__(self, prog, rep)
        self.what, self.unknown = what, []
        self.lists = ()

    def newvec(self, eng, st, elemty):
        return "array"

    def push(self, eng, st, ref, old, elem):
        if old.k == "A" and old.a[0] == "vec":
            if any(x.k == "elem" or x.k == "old" for x in subs(elem)):
                elem = mk("each", subst_old(elem))
                if old.a[2] and subst_old(old.a[2][-1]) is elem:
                    M.setref(eng, st, ref, A("vec", 0, old.a[2][:-1] + (elem,)))
                    return True
            M.setref(eng, st, ref, A("vec", 0, old.a[2] + (elem,)))
            return True
        return False

    def elem(self, eng, st, coll, e):
        if coll in self.lists:
            st.cl["it"] = ()

    def item_done(self, eng, st, coll, e):
        if coll in self.lists:
            if ("open", e) not in (st.cl.get("it") or ()):
                st.cl["missed"] = 1
            st.cl["it"] = None

    def exhausted(self, eng, st, coll):
        if coll in self.lists:
            st.cl["it"] = None
            if not st.cl.get("missed"):
                st.cl["opened"] = (coll,)

    def call(self, eng, st, callee, args, site):
        full = bare(callee.get("key") or callee.get("rpath") or callee["path"])
        if not full.split("::")[0].startswith("protox"):
            full = bare(callee.get("rpath") or callee["path"])
        v = [eng.deref(st, a) for a in args]
        m = re.match(r"protox::(compile::)?Compiler::(\w+)$", full)
        op = m.group(2) if m else None
        if op == "new" and self.what != "new":
            return self.fork(eng, st, mk("pred", "new", v[0]), lambda s: (s, ok(mk("comp", v[0], FALSE, FALSE))), lambda s: (s, err(mk("newerr", v[0]))))
        if op in ("include_imports", "include_source_info") and v[0].k == "comp":
            c = v[0]
            new = mk("comp", c.a[0], v[1] if op == "include_imports" else c.a[1], v[1] if op == "include_source_info" else c.a[2])
            eng.store(st, args[0].a[0], args[0].a[1], new)
            return [(st, args[0])]
        if op in ("open_file", "open_files") and not (op == "open_files" and self.what == "open_files"):
            def yes(s):
                if op == "open_file" and s.cl.get("it") is not None:
                    s.cl["it"] = s.cl["it"] + (("open", v[1]),)
                elif op == "open_files" and not s.cl.get("missed"):
                    s.cl["opened"] = (v[1],)
                return s, ok(args[0])
            return self.fork(eng, st, mk("pred", "opens", v[1]), yes, lambda s: (s, err(mk("openerr", v[1]))))
        if op in ("file_descriptor_set", "encode_file_descriptor_set"):
            return [(st, mk("fds" if op[0] == "f" else "encfds", v[0]))]
        if full.endswith("Parser::parse") or full.endswith("::try_parse"):
            return [(st, P("args"))]
        if full.endswith("fs::write"):
            def wrote(s):
                s.cl["wrote"] = s.cl.get("wrote", ()) + ((v[0], v[1], s.cl.get("opened")),)
                return s, ok(UNIT)
            return self.fork(eng, st, mk("pred", "writes"), wrote, lambda s: (s, err(mk("writeerr"))))
        return None


def subst_old(t):
    """an element of an earlier iteration stands for any element"""
    for x in list(subs(t)):
        if x.k == "old":
            t = subst(t, x, x.a[0])
    return t


def driver(prog, rep, binprog):
    roles = Roles(prog)
    # open_files
    k = [k for k in prog.bodies if bare(k) == CMP + "::open_files"][0]
    heap = {}
    c = Drive(prog, rep, "open_files")
    L = P("paths")
    c.lists = (L,)
    eng, outs = interp(prog, rep, c, k, [ref("self", self_value(prog, roles), heap, CMP), L], heap)
    for st, v in outs or ():
        rep.ob()
        if v.k == "A" and v.a[0] == RES and v.a[1] == 0:
            if st.cl.get("opened") != (L,):
                rep("P24", "open_files:all", "open_files succeeds without opening every file", M.norm_path(k), conds(st))
        elif not (v.k == "A" and v.a[0] == RES and v.a[2][0] is mk("openerr", M.elem_of(L))):
            rep("P24", "open_files:err", "open_files fails with %s" % show(v)[:120], M.norm_path(k), conds(st))
    # the convenience function
    ks = [k for k in prog.bodies if bare(k) == "protox::compile" and prog.bodies[k].args == 2]
    if not ks:
        raise Unsupported("no protox::compile")
    c = Drive(prog, rep, "compile")
    F, Inc = P("files"), P("includes")
    c.lists = (F,)
    eng, outs = interp(prog, rep, c, ks[0], [F, Inc], {})
    for st, v in outs or ():
        rep.ob()
        x = v.a[2][0] if v.k == "A" and v.a[0] == RES else v
        if v.k == "A" and v.a[1] == 0:
            if x.k != "fds" or x.a[0].k != "comp":
                rep.undecided("compile: result %s" % show(x)[:100])
            elif x.a[0] is not mk("comp", Inc, TRUE, TRUE):
                rep("P24", "compile:options", "protox::compile does not give imports and source info from the include paths given: %s" % show(x)[:100], "protox::compile", conds(st))
            elif st.cl.get("opened") != (F,):
                rep("P24", "compile:files", "protox::compile does not open every file before giving the result", "protox::compile", conds(st))
        elif x not in (mk("newerr", Inc), mk("openerr", F), mk("openerr", M.elem_of(F))):
            rep("P24", "compile:err", "protox::compile fails with %s" % show(x)[:100], "protox::compile", conds(st))
    # a new compiler
    k = [k for k in prog.bodies if bare(k) == CMP + "::new"][0]
    c = Drive(prog, rep, "new")
    eng, outs = interp(prog, rep, c, k, [P("includes")], {})
    e = M.elem_of(P("includes"))
    for st, v in outs or ():
        rep.ob()
        x = v.a[2][0] if v.k == "A" and v.a[0] == RES else v
        if x.k != "A" or x.a[0] != CMP or v.a[1] != 0:
            rep("P25", "new:fails", "Compiler::new gives %s" % show(v)[:120], M.norm_path(k), conds(st))
            continue
        r = x.a[2][roles.resolver]
        vec = None
        for y in walk(r):
            if y.k == "A" and y.a[0] in ("vec", "array"):
                vec = y
        if vec is None:
            rep.undecided("Compiler::new: resolvers %s" % show(r)[:100])
            continue
        names = [(y.k, short((y.a[0] if y.k == "each" else y).a[0]) if (y.a[0] if y.k == "each" else y).k == "A" else "?") for y in vec.a[2]]
        want = [("each", "IncludeFileResolver"), ("A", "GoogleFileResolver")]
        if st.facts.get(mk("len", P("includes"))) == ((0, 0),):
            want = want[1:]
        if names != want:
            rep("P25", "new:order", "a new compiler looks files up in %s" % (names,), M.norm_path(k), conds(st))
        elif len(want) == 2 and e not in subs(subst_old(vec.a[2][0].a[0])):
            rep("P25", "new:include", "an include path is looked up in %s" % show(vec.a[2][0])[:80], M.norm_path(k), conds(st))
    k = [k for k in prog.bodies if bare(k) == CMP + "::with_file_resolver"][0]
    eng, outs = interp(prog, rep, Drive(prog, rep, "with"), k, [P("res")], {})
    flags = setters(prog, rep, roles)
    for st, v in outs or ():
        rep.ob()
        if v.k == "A" and v.a[0] == CMP:
            if v.a[2][roles.resolver] is not P("res"):
                rep("P25", "with:resolver", "a compiler with a resolver of its own uses %s" % show(v.a[2][roles.resolver])[:80], M.norm_path(k))
            for nm in ("imports", "source"):
                if v.a[2][flags[nm]] is not FALSE:
                    rep("P24", "with:" + nm, "a new compiler starts with include_%s = %s" % (nm, show(v.a[2][flags[nm]])[:40]), M.norm_path(k))
    if binprog is not None:
        cli(binprog, rep)


def walk(v):
    yield v
    if type(v) is N:
        for x in v.a:
            if type(x) is N:
                yield from walk(x)
            elif type(x) is tuple:
                for y in x:
                    if type(y) is N:
                        yield from walk(y)


def cli(prog, rep):
    """the command line program"""
    ks = [k for k in prog.bodies if bare(k) == "protox::main"]
    if not ks:
        raise Unsupported("no main")
    ad = prog.adt_path.get("protox::Args")
    if ad is None:
        ads = [a for p, a in prog.adt_path.items() if a.get("local") and any(f[0] == "include_source_info" for v in a["variants"] for f in v["fields"])]
        ad = ads[0]
    ix = {f[0]: i for i, f in enumerate(ad["variants"][0]["fields"])}
    a = lambda nm: field(P("args"), 0, ix[nm])
    c = Drive(prog, rep, "main")
    c.lists = (a("files"),)
    eng, outs = interp(prog, rep, c, ks[0], [], {})
    O = a("output")
    for st, v in outs or ():
        rep.ob(2)
        okv = v.k == "A" and v.a[0] == RES and v.a[1] == 0
        wrote = st.cl.get("wrote", ())
        want = mk("encfds", mk("comp", a("includes"), a("include_imports"), a("include_source_info")))
        for p, data, opened in wrote:
            if p is not field(O, 1, 0):
                rep("P24", "cli:path", "the output is written to %s" % show(p)[:80], "main", conds(st))
            if data is not want:
                rep("P24", "cli:data", "what is written is %s" % show(data)[:160], "main", conds(st))
            if opened != (a("files"),):
                rep("P24", "cli:early", "the output is written before every file is compiled", "main", conds(st))
        has = st.facts.get(mk("discr", O, OPT))
        if okv:
            if st.cl.get("opened") != (a("files"),):
                rep("P24", "cli:files", "the program succeeds without compiling every file", "main", conds(st))
            if has == ((1, 1),) and len(wrote) != 1:
                rep("P24", "cli:write", "the program succeeds without writing the output", "main", conds(st))
            if has is None:
                rep("P24", "cli:output", "the program does not look whether an output is asked for", "main", conds(st))
        elif not any(x.k in ("newerr", "openerr", "writeerr") for x in walk(v)):
            rep("P24", "cli:err", "the program fails with %s" % show(v)[:100], "main", conds(st))


def analyse(prog, binprog=None):
    rep = Rep()
    for f in (flow, outputs, lambda p, r: driver(p, r, binprog)):
        try:
            f(prog, rep)
        except (Budget, Unsupported, KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError, AssertionError) as x:
            rep.undecided("%s: %s: %s" % (f.__name__, type(x).__name__, str(x)[:200]))
    import lookup
    lookup.analyse(prog, rep)
    rep.stats["functions"] = len(rep.fns)
    return rep


if __name__ == "__main__":
    import build, mir, sys, time
    t0 = time.time()
    prog = mir.Program(build.ensure(("protox_parse", "protox", "protox-bin")), ("protox",))
    r = analyse(prog, mir.Program(prog.dir, ("protox-bin",)))
    print(r.stats, "%.1fs" % (time.time() - t0))
    for v in r.viol:
        print("VIOL", v["props"], v["key"], "|", v["what"][:300], "|", v["where"], "|", v["cond"][-300:])
    for u in r.und:
        print("UND", u[:300])
    for x in r.samples:
        print("  ", x)
