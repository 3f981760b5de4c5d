"""Entry points and small functions of the parser crate: size limit, result plumbing, error accessors, line resolution."""
from ai import *
import models as M
import gen
import parse as PA
from gen import AST, PEK, find_units
from parse import RES, RANGE, SPAN

FDP = "prost_types::FileDescriptorProto"
PERR = "protox_parse::error::ParseError"
VPEK = "std::vec::Vec<%s>" % PEK
MAXLEN = 2 ** 31 - 1


class RC(Client):
    def __init__(self, handlers):
        self.h = handlers
        self.panics = []

    def call(self, eng, st, callee, args, site):
        f = self.h.get(callee.get("key"))
        return None if f is None else f(eng, st, callee, args)

    def panic(self, eng, st, what):
        self.panics.append((what, st.where()))

    def keep_fact(self, eng, st, t, live):
        return True

    def newvec(self, eng, st, elemty):
        return "array"

    def push(self, eng, st, ref, old, elem):
        if old.k == "A" and old.a[0] == "vec" and len(old.a[2]) < 40:
            M.setref(eng, st, ref, A("vec", 0, old.a[2] + (elem,)))
            return True
        return False


class Report:
    def __init__(self):
        self.viol, self.und, self.stats, self.samples = [], [], dict(obligations=0, functions=0, paths=0), []

    def __call__(self, props, key, what, where=""):
        if all(v["key"] != key for v in self.viol):
            self.viol.append(dict(props=[props] if type(props) is str else list(props), key=key, detail=what, what=what, where=where, cond=""))

    def ob(self, n=1):
        self.stats["obligations"] += n


def where(b):
    return "%s (%s)" % (b.path, getattr(b, "file", ""))


def run(prog, rep, key, args, handlers, heap=None, facts=None, props=(), max_steps=300_000, quiet=False, maxlen=None):
    c = RC(handlers)
    eng = Eng(prog, c, max_steps=max_steps)
    if maxlen:
        eng.maxlen = maxlen
    try:
        outs = eng.run(prog.bodies[key], args, heap or {}, facts or {}, {})
    except (Budget, Unsupported) as x:
        if not quiet:
            rep.und.append("%s cannot be followed: %s" % (key, x))
        return eng, []
    if not quiet:
        for what, w in c.panics:
            rep(("P07",), "panic:%s:%s" % (M.norm_path(key), what), "a panic can be reached: %s" % what, w)
    rep.stats["functions"] += len(eng.functions)
    rep.stats["paths"] += len(outs)
    return eng, outs


def structvals(v):
    """a value and everything it is built from"""
    return subs(v) | {v}


def changed(vals, x, rep):
    """is x missing from these values? a part that depends on x in some other way is left open unless it differs from x"""
    def within(v):
        return v is x or v.k in ("A", "named") and any(within(y) for z in v.a for y in (z if type(z) is tuple else (z,)) if type(y) is N)
    if any(within(v) for v in vals):
        return False
    if not any(x in structvals(v) for v in vals):
        return True
    import genspec
    if any(y.k == "sfn" and genspec.alters(y, True) or y.k == "stripped" and y.a[-1].k in ("s", "i") and y.a[-1].a[0] != ""
           for v in vals for y in structvals(v)):
        return True
    rep.und.append("whether %s is %s" % (", ".join(show(v)[:60] for v in vals), show(x)))
    return False


def find(sig, args, ret):
    return [k for k, (a, r) in sig.items() if list(a) == list(args) and r == ret]


def entry(prog, sig, rep):
    """the public entry: size limit, result plumbing"""
    ks = find(sig, ["&str", "&str"], RP(FDP, PERR))
    pf = find(sig, ["&str"], RP(AST + "File", VPEK))
    gf = [k for k, (a, r) in sig.items() if r == RP(FDP, VPEK) and AST + "File" in a]
    pn = [k for k, (a, r) in sig.items() if r == PERR and VPEK in a]
    if not (ks and pf and gf and pn):
        rep(("P05", "P17"), "entry", "the parse entry, the parser, the generator or the error constructor cannot be found")
        return
    src_i = generator_source(prog, gf[0], rep)
    for k in ks:
        b = prog.bodies[k]
        b.prep()
        # which parameter is the source text: the one given to the parser
        N, S_ = P("arg1"), P("arg2")
        roles = {}

        def do_pf(eng, st, callee, args):
            x = eng.deref(st, args[0])
            rep.ob()
            roles.setdefault("source", x)
            if x is not N and x is not S_:
                rep(("P05", "P17", "P03"), "source", "the parser is not given the source text but %s" % show(x)[:80], st.where())
            r = eng.rng(st, mk("len", x))
            if not (r and r[-1][1] <= MAXLEN):
                rep(("P17", "P07"), "size", "a source text longer than i32::MAX bytes can reach the parser", st.where())
            s2 = st.clone()
            e = mk("errs", "parse")
            s2.facts[mk("len", e)] = ((1, 2 ** 31 - 2),)
            return [(st, ok(mk("ast"))), (s2, err(e))]

        def do_gf(eng, st, callee, args):
            vals = [eng.deref(st, a) for a in args]
            rep.ob()
            if mk("ast") not in vals:
                rep("P05", "genarg", "the generator is not given the parsed file", st.where())
            if src_i is not None and vals[src_i] is not roles.get("source"):
                rep(("P03",), "gensource", "line numbers are resolved in %s, not in the source text" % show(vals[src_i])[:60], st.where())
            s2 = st.clone()
            e = mk("errs", "generate")
            s2.facts[mk("len", e)] = ((1, 2 ** 31 - 2),)
            return [(st, ok(mk("fd"))), (s2, err(e))]

        def do_pn(eng, st, callee, args):
            return [(st, mk("perror", *[eng.deref(st, a) for a in args]))]

        h = {x: do_pf for x in pf}
        h.update({x: do_gf for x in gf})
        h.update({x: do_pn for x in pn})
        eng, outs = run(prog, rep, k, [N, S_], h, maxlen=2 ** 63 - 1, props=("P05", "P17"))
        seen = set()
        pa = sig[pn[0]][0]
        iv = list(pa).index(VPEK)
        for st, v in outs:
            rep.ob()
            if v.k != "A" or v.a[0] != RES:
                rep("P05", "entry-result", "the result cannot be followed: %s" % show(v)[:80])
                continue
            if v.a[1] == 0:
                if v.a[2][0] is not mk("fd"):
                    rep("P05", "entry-ok", "the result is %s, not the generated descriptor" % show(v)[:80])
                seen.add("ok")
                continue
            e = v.a[2][0]
            if e.k != "perror":
                rep(("P05", "P18"), "entry-err", "the error is %s" % show(e)[:80])
                continue
            errs = e.a[iv]
            rest = [x for i, x in enumerate(e.a) if i != iv]
            src = roles.get("source", S_)
            nm = N if src is S_ else S_
            if errs.k == "errs":
                seen.add(errs.a[0])
                if changed(rest[:1], nm, rep) or changed(rest[1:], src, rep):
                    rep("P18", "entry-file", "the error's file name or source text is not that of the file parsed (%s)" % show(e)[:120])
            elif errs.k == "A" and errs.a[0] == "vec" and len(errs.a[2]) == 1:
                seen.add("large")
                x = errs.a[2][0]
                vs = prog.adt_path[PEK]["variants"]
                if not (x.k == "A" and vs[x.a[1]]["name"] == "FileTooLarge"):
                    rep(("P05", "P17"), "entry-large", "the error before parsing is %s" % show(x)[:80])
                r = eng.rng(st, mk("len", src))
                if not (r and r[0][0] > MAXLEN):
                    rep(("P17", "P05"), "entry-limit", "a source text of at most i32::MAX bytes is rejected as too large")
                if changed(rest[:1], nm, rep):
                    rep("P18", "entry-file", "the error's file name is not that of the file parsed")
            else:
                rep("P05", "entry-errs", "the diagnostics reported are %s, not those of the parser or generator" % show(errs)[:80])
        for x in {"ok", "parse", "generate", "large"} - seen:
            rep(("P17",) if x == "large" else ("P05",), "entry-missing:" + x, "no path of the entry returns the %s outcome" % x)


def RP(a, b):
    return "std::result::Result<%s, %s>" % (a, b)


def generator_source(prog, k, rep):
    """index of the parameter in which lines are resolved"""
    b = prog.bodies[k]
    b.prep()
    T = b.crate.types
    args = [mk("A%d" % i, "x") for i in range(b.args)]
    got = []
    lines = gen.line_fns(prog)[1]

    class C(RC):
        def call(self, eng, st, callee, a, site):
            key = callee.get("key") or ""
            if key in eng.prog.bodies and M.norm_path(eng.prog.bodies[key].path) in lines:
                got.append([eng.deref(st, x) for x in a])
                raise Unsupported("found")
            bb = eng.prog.bodies.get(key)
            return None
    eng = Eng(prog, C({}), max_steps=20_000)
    try:
        eng.run(b, args, {}, {}, {})
    except (Budget, Unsupported):
        pass
    for vs in got:
        for i, x in enumerate(args):
            if x in vs:
                return i
    return None


def parser_entry(prog, sig, w, rep):
    """the parser's entry succeeds only without diagnostics and fails only with some"""
    for k in find(sig, ["&str"], RP(AST + "File", VPEK)):
        E = mk("errors")

        def do_file(eng, st, callee, args):
            ref = args[0]
            v = w.parser_value(NONE, FALSE)

            def sub(x):
                return E if x is P("errors") else A(x.a[0], x.a[1], [sub(y) for y in x.a[2]]) if x.k == "A" else x
            old = eng.deref(st, ref)
            if old.k == "A" and not (field(old, 0, w.pf["peek"]) is NONE):
                rep(("P01", "P05"), "initial", "parsing does not start with an empty lookahead", st.where())
            M.setref(eng, st, ref, sub(v))
            s2 = st.clone()
            s2.facts[mk("len", E)] = ((1, 2 ** 31 - 2),)
            return [(st, ok(mk("ast"))), (s2, err(UNIT))]

        h = {x: do_file for x, u in w.units.items() if u == "File"}
        eng, outs = run(prog, rep, k, [P("source")], h, props=("P05",))
        for st, v in outs:
            rep.ob()
            r = eng.rng(st, mk("len", E))
            if v.k != "A" or v.a[0] != RES:
                rep("P05", "parser-result", "the parser's result cannot be followed: %s" % show(v)[:80])
            elif v.a[1] == 0:
                if v.a[2][0] is not mk("ast"):
                    rep("P05", "parser-ok", "the parser returns %s instead of the file parsed" % show(v)[:80])
                if r != ((0, 0),):
                    rep("P05", "parser-accepts", "the parser can return a file although diagnostics were reported")
            else:
                if v.a[2][0] is not E:
                    rep("P05", "parser-errors", "the parser's error is %s, not the diagnostics reported" % show(v)[:80])
                if not (r and r[0][0] >= 1):
                    rep("P05", "parser-silent", "the parser can fail without a diagnostic")
        if not outs:
            rep("P05", "parser-none", "the parser entry has no result")


def perror(prog, sig, rep):
    """the public error keeps every diagnostic; its accessors give the first one's span and the file's name"""
    adt = prog.adt_path.get(PERR)
    kinds = prog.adt_path[PEK]
    pn = [k for k, (a, r) in sig.items() if r == PERR and VPEK in a]
    spans = [k for k, (a, r) in sig.items() if list(a) == ["&" + PERR] and r == "std::option::Option<%s>" % SPAN]
    files = [k for k, (a, r) in sig.items() if list(a) == ["&" + PERR] and r == "&str"]
    if not (adt and pn and spans and files):
        rep(("P05", "P18"), "perror", "the error type's constructor or accessors cannot be found")
        return
    T = prog.tykind[SPAN]["crate"].types if SPAN in prog.tykind else None
    for k in pn:
        a = sig[k][0]
        for n in (1, 2, 3):
            es = [mk("err", i) for i in range(n)]
            args = [A("vec", 0, es) if x == VPEK else P("name") if x == "&str" else P("source") for x in a]

            def ns(eng, st, callee, args):
                return [(st, mk("named", *[eng.deref(st, x) for x in args]))]
            c = RC({})
            c.call = lambda eng, st, callee, args, site: ns(eng, st, callee, args) if callee["path"].endswith("NamedSource::<S>::new") or "NamedSource" in callee["path"] and callee["path"].endswith("::new") else None
            eng = Eng(prog, c, max_steps=100_000)
            try:
                outs = eng.run(prog.bodies[k], args, {}, {}, {})
            except (Budget, Unsupported) as x:
                rep.und.append("the error constructor cannot be followed: %s" % x)
                return
            for st, v in outs:
                rep.ob()
                flat = [x for x in order(v) if x.k == "err"]
                if flat != es:
                    rep(("P05", "P18"), "perror-kept", "of %d diagnostics the error keeps %s" % (n, [show(x) for x in flat]))
                if not any(x.k == "named" and x.a[0] is P("name") and P("source") in x.a[1:] for x in structvals(v)):
                    rep("P18", "perror-source", "the error's name and source text are not those given")
            if c.panics:
                rep("P07", "perror-panic", "the error constructor panics: %s" % c.panics[0][0], c.panics[0][1])
    # accessors
    names = [f[0] for f in adt["variants"][0]["fields"]]
    first = None
    for vi, var in enumerate(kinds["variants"]):
        fs = var["fields"]
        spi = [i for i, f in enumerate(fs) if ftype(prog, PEK, f) == SPAN]
        e = A(PEK, vi, [mk("sp", i) if i in spi else mk("x", i) for i in range(len(fs))])
        fields = []
        for f in adt["variants"][0]["fields"]:
            t = ftype(prog, PERR, f)
            fields.append(e if PEK in t and not t.startswith("std::vec") else A("vec", 0, ()) if t == VPEK else mk("named", P("name"), P("source")))
        pe = A(PERR, 0, fields)
        for k in spans:
            eng, outs = run(prog, rep, k, [mk("R", ("H", "e"), (), "e")], {}, heap={("H", "e"): pe}, props=("P18",))
            for st, v in outs:
                rep.ob()
                got = None if v is NONE else v.a[2][0] if v.k == "A" and v.a[2] else v
                if len(spi) == 1:
                    if got is None or got is not mk("sp", spi[0]) and not (got.k == "A" and got.a[2] == (field(mk("sp", spi[0]), 0, 0), field(mk("sp", spi[0]), 0, 1))):
                        rep("P18", "span:" + var["name"], "the span of %s is %s instead of the one recorded" % (var["name"], show(v)[:60]))
                elif not spi and got is not None:
                    rep("P18", "span:" + var["name"], "%s has no span but %s is returned" % (var["name"], show(v)[:60]))
                elif spi and got is not None and got not in [mk("sp", i) for i in spi]:
                    rep("P18", "span:" + var["name"], "the span of %s is %s, none of those recorded" % (var["name"], show(v)[:60]))
    for k in files:
        c = RC({})
        c.call = lambda eng, st, callee, args, site: [(st, eng.deref(st, args[0]).a[0])] if "NamedSource" in callee["path"] and callee["path"].endswith("::name") and eng.deref(st, args[0]).k == "named" else None
        eng = Eng(prog, c, max_steps=50_000)
        try:
            outs = eng.run(prog.bodies[k], [mk("R", ("H", "e"), (), "e")], {("H", "e"): pe}, {}, {})
        except (Budget, Unsupported) as x:
            rep.und.append("file accessor: %s" % x)
            continue
        for st, v in outs:
            rep.ob()
            if eng.deref(st, v) is not P("name"):
                rep("P18", "file", "the file name returned is %s" % show(v)[:60])


def order(v):
    """constructor terms in order"""
    if v.k == "A":
        return [y for x in v.a[2] for y in order(x)]
    if v.k == "V":
        return [y for x in sorted(v.a[1], key=show) for y in order(x)]
    return [v]


def ftype(prog, adtp, f):
    for ts, a in prog.adts.items():
        if a["path"] == adtp and f[1] is not None:
            return prog.tykind[ts]["crate"].types[f[1]]["s"]
    return "?"


def analyse(prog):
    rep = Report()
    w = PA.World(prog)
    sig = w.sig
    entry(prog, sig, rep)
    parser_entry(prog, sig, w, rep)
    perror(prog, sig, rep)
    return rep


if __name__ == "__main__":
    import sys, build, mir
    sys.setrecursionlimit(20000)
    prog = mir.Program(build.ensure(("protox_parse",)))
    r = analyse(prog)
    print(r.stats)
    for v in r.viol:
        print(v["props"], v["key"], v["detail"][:300], v["where"])
