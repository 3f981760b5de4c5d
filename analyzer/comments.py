"""The comment collector: for every sequence of comments and newlines between two tokens, what is taken as leading, trailing and
detached comments.  The collecting lookahead function and the comment buffer are interpreted together with a specification automaton
(protoc's rules); at loop heads texts equal to one of the specification's are given one name, so that the fixpoint covers sequences
of any length."""
from ai import *
from ai import _depth
import models as M
import parse as PA
from parse import Base, TOK, SPAN, RES, RANGE, COMMENTK, PEK

CLOSERS = ("RightBrace", "RightBracket", "RightParen")


class Spec:
    """protoc's rules for the comments between two tokens"""

    def __init__(self, first):
        self.ph = "body" if first else "same"
        self.tr = not first           # may the next finished comment be the previous token's?
        self.D, self.L, self.kind, self.T = (), None, None, None

    def copy(self):
        s = Spec.__new__(Spec)
        s.__dict__.update(self.__dict__)
        return s

    def key(self):
        return (self.ph, self.tr, self.D, self.L, self.kind, self.T)

    def map(self, f):
        s = self.copy()
        p = lambda x: None if x is None else tuple(map(f, x))
        s.D, s.L, s.T = tuple(map(p, s.D)), p(s.L), p(s.T)
        return s

    def flush(self):
        if self.L is not None:
            if self.tr:
                self.T = self.L
                self.tr = False
            else:
                self.D += (self.L,)
            self.L = self.kind = None

    def step(self, k, c):
        s = self.copy()
        if s.ph == "skip":
            if k in ("tok", "close", "eof"):
                s.ph = "end"
            return s
        if s.ph == "same":
            if k == "LineComment":
                s.L, s.kind = (c,), "line"
                s.flush()
                s.ph = "body"
            elif k == "BlockComment":
                s.L, s.kind, s.ph = (c,), "block", "bc"
            elif k == "Newline":
                s.ph = "body"
            else:
                s.ph = "end"
            return s
        if s.ph == "bc":
            if k == "Newline":
                s.flush()
                s.ph = "body"
            else:
                s.L = s.kind = None
                s.ph = "end" if k in ("tok", "close", "eof") else "skip"
            return s
        if s.ph == "bl":
            s.ph = "body"
            if k == "Newline":
                return s
        if k == "LineComment":
            if s.L is not None and s.kind == "line":
                s.L = s.L + (c,)
            else:
                s.flush()
                s.L, s.kind = (c,), "line"
        elif k == "BlockComment":
            s.flush()
            s.L, s.kind, s.ph = (c,), "block", "bl"
        elif k == "Newline":
            s.flush()
            s.tr = False
        else:
            if k in ("close", "eof"):
                s.flush()
            s.ph = "end"
        return s


class CC(Base):
    def __init__(self, w, key):
        super().__init__(w, key)
        self.bad = []
        self.steps = 0

    def clkey(self, st):
        sp = st.cl.get("spec")
        return (sp.key() if sp else None, st.cl["eof"], st.cl.get("lexerr"), st.cl.get("err"), st.cl.get("last"), st.cl.get("first"))

    def length(self, eng, st, v):
        """the list D stands for any number of comments"""
        if v.k == "A" and v.a[0] == "vec" and mk("text", "D") in v.a[2]:
            n = mk("len", v)
            if n not in st.facts:
                st.facts[n] = ((len(v.a[2]), 2 ** 60),)
            return n
        return None

    def push(self, eng, st, ref, old, elem):
        if elem.k == "A" and elem.a[0] == PEK:
            st.cl["err"] = True
            return True
        if old.k == "A" and old.a[0] == "vec" and len(old.a[2]) < 40:
            M.setref(eng, st, ref, A("vec", 0, old.a[2] + (elem,)))
            return True
        return False

    def call(self, eng, st, callee, args, site):
        if self.w.is_next(callee):
            return self.lexer_next(eng, st)
        if callee["path"].startswith("logos::Lexer") and callee["path"].split("::")[-1] == "span":
            t = st.cl.get("last")
            if t is None:
                if st.cl.get("first"):
                    return [(st, A(RANGE, 0, (I(0), I(0))))]
                t = mk("tok", "prev")
            return [(st, self.span_of(st, t))]
        return None

    def span_of(self, st, t):
        e = mk("endof", t)
        if e not in st.facts:
            st.facts[e] = ((1, 2 ** 63),)
        return A(RANGE, 0, (mk("startof", t), e))

    def lexer_next(self, eng, st):
        """split by the kind of token, so that the specification can follow"""
        if st.cl.get("eof"):
            return [(st, NONE)]
        out = []
        n = self.site(st, "tok")
        st.cl["np"] = frozenset()
        tnew = mk("tok", n)
        M.fresh(eng, st, [tnew])
        groups = [("LineComment", {"LineComment"}), ("BlockComment", {"BlockComment"}), ("Newline", {"Newline"}), ("close", set(CLOSERS)),
                  ("tok", set(self.w.kinds) - set(COMMENTK) - set(CLOSERS))]
        for k, ks in groups:
            s = st.clone()
            eng.narrow(s, mk("discr", tnew, TOK), self.rset(ks))
            s.cl["last"] = tnew
            out.append((s, some(ok(tnew))))
        s = st.clone()
        s.cl["eof"] = True
        out.append((s, NONE))
        s = st.clone()
        s.cl["lexerr"] = True
        out.append((s, some(err(UNIT))))
        return out

    def kindof(self, eng, st, t):
        ks = self.kindset(eng, st, t)
        if len(ks) == 1 and ks <= set(COMMENTK):
            return next(iter(ks))
        return "close" if ks <= set(CLOSERS) else "mixed" if ks & (set(COMMENTK) | set(CLOSERS)) else "tok"

    def changed(self, eng, st, old, new):
        co, cn = field(old, 0, self.w.pf["peek"]), field(new, 0, self.w.pf["peek"])
        if co is not cn and cn is NONE:
            st.cl["np"] = frozenset()
        if co is cn or st.cl["spec"] is None or not (co.k == "A" and co.a[1] == 1 and co.a[2][0].k == "A" and co.a[2][0].a[1] == 0):
            return
        t = field(co.a[2][0].a[2][0], 0, 0)
        if t is mk("tok", "prev"):
            return
        k = self.kindof(eng, st, t)
        if k not in COMMENTK:
            self.bad.append(("consume", "a token is dropped together with the comments before it", st.where()))
            return
        st.cl["spec"] = st.cl["spec"].step(k, field(t, self.w.tokv[k], 0) if k != "Newline" else None)

    def rset(self, names):
        r = ()
        for d in sorted(int(v["discr"]) for v in self.w.tok["variants"] if v["name"] in names):
            r = rs_or(r, ((d, d),))
        return r

    def renamed(self, eng, st, old, new):
        super().renamed(eng, st, old, new)
        sp = st.cl.get("spec")
        if sp is not None:
            st.cl["spec"] = sp.map(lambda x: M.rename(x, old, new))

    def newvec(self, eng, st, elemty):
        return "array"

    # ---- canonical names ---------------------------------------------------------------------------------
    def txt(self, v):
        """a String value as the tuple of the comments it is made of"""
        if v.k == "cat":
            out = ()
            for x in v.a[0]:
                t = self.txt(x)
                if t is None:
                    return None
                out += t
            return out
        if v.k == "s":
            return () if v.a[0] == "" else None
        return (v,)

    def head(self, eng, st):
        super().head(eng, st)
        sp = st.cl.get("spec")
        if sp is None or not st.frames[-1].body.local:
            return
        ref = ("H", "parser")
        v = st.heap[ref]
        fs = list(v.a[2])
        ci = self.w.pf["comments"]
        names = {}
        if sp.L is not None:
            names[sp.L] = mk("text", "L")
        if sp.T is not None:
            names[sp.T] = mk("text", "T")
        D = mk("text", "D")
        new = []                # the list has a new meaning

        def go(x):
            if x.k == "A" and x.a[0] == "vec":
                el = tuple(self.txt(e) for e in x.a[2])
                if sp.D and el == sp.D:
                    if x.a[2] != (D,):
                        new.append(D)
                    return A("vec", 0, (D,))
                return A("vec", 0, [go(e) for e in x.a[2]])
            if x.k == "A":
                return A(x.a[0], x.a[1], [go(e) for e in x.a[2]])
            t = self.txt(x) if x.k in ("cat", "f", "text") or x.k not in ("i", "s") else None
            return names.get(t, x) if t else x
        fs[ci] = go(fs[ci])
        for t in [f for f in st.facts if f.k == "len" and D in subs(f)] if new else []:
            del st.facts[t]
        st.heap[ref] = A(v.a[0], v.a[1], fs)
        s = sp.copy()
        s.L, s.T = s.L and (names[s.L],), s.T and (names[s.T],)
        s.D = s.D and ((D,),)
        st.cl["spec"] = s

    def stuck(self, eng, st):
        self.bad.append(("progress", "a round of this loop reads no token", st.where()))

    def consumed_ok(self):
        return True


def seq(eng, states, body, argf):
    """run a function from each of these states"""
    out = []
    for st0 in states:
        facts, heap, cl = dict(st0.facts), dict(st0.heap), dict(st0.cl)
        cl["np"] = frozenset()
        for st, v in eng.run(body, argf(st0), heap, facts, cl):
            out.append((st, v))
    return out


def resets(w):
    """the functions that empty the comment buffer whatever it holds"""
    arity = [a for a in w.prog.adt_path.values() if PA.bare(a["path"]) == w.comments_ty]
    n = len(arity[0]["variants"][0]["fields"])
    out = set()
    for k, r in w.comment_ops.items():
        if r != "()" or len(w.sig[k][0]) != 1:
            continue
        cc = CC(w, k)
        eng = Eng(w.prog, cc, max_steps=50_000)
        cm = A(w.comments_ty, 0, [mk("c0", i) for i in range(n)])
        try:
            outs = eng.run(w.prog.bodies[k], [mk("R", ("H", "c"), (), "c")], {("H", "c"): cm}, {}, dict(eof=False, np=frozenset(), last=None))
        except (Budget, Unsupported):
            continue
        if outs and not any(x.k == "c0" for st, _ in outs for x in subs(st.heap[("H", "c")])):
            out.add(k)
    return out


def analyse(w, report):
    prog = w.prog
    ci = w.pf["comments"]
    st_obl = dict(obligations=0, steps=0, functions=0)
    mkargs = lambda s: [mk("R", ("H", "parser"), (), "parser")]
    cref = lambda s: [mk("R", ("H", "parser"), (("f", 0, ci),), "parser")]
    P4 = ("P04",)
    ctor = [k for k, (a, r) in w.sig.items() if not a and PA.bare(r) == w.comments_ty]
    if not w.collects:
        report("collector", "no function collects the comments before a token", P4)
        return st_obl
    arity = [a for a in prog.adt_path.values() if PA.bare(a["path"]) == w.comments_ty]
    n = len(arity[0]["variants"][0]["fields"])

    def start(eng, comments, cell, facts, cl):
        v = w.parser_value(cell, FALSE)
        fs = list(v.a[2])
        fs[ci] = comments
        s = State()
        s.heap = {("H", "parser"): A(v.a[0], 0, fs)}
        s.facts = facts
        s.cl = dict(eof=False, err=False, lexerr=False, last=None, np=frozenset(), first=False, spec=None)
        s.cl.update(cl)
        return s

    starts = []
    cc = CC(w, None)
    # the state in which a file starts
    for k in ctor[:1]:
        eng = Eng(prog, cc)
        for st, v in eng.run(prog.bodies[k], [], {}, {}, dict(eof=False, np=frozenset(), last=None)):
            starts.append((True, start(eng, v, NONE, {}, dict(first=True))))
    if not starts:
        report("new", "no constructor of the comment buffer", P4)
    # the state after a token has been consumed
    bumps = []
    for k, (a, r) in sorted(w.sig.items()):
        if len(a) == 1 and w.is_parser(a[0]) and r in (SPAN, "()"):
            t = mk("tok", "prev")
            cm = A(w.comments_ty, 0, [mk("c0", i) for i in range(n)])
            eng = Eng(prog, cc, max_steps=100_000)
            s0 = start(eng, cm, some(ok(tup(t, mk("span", t)))), {mk("discr", t, TOK): rs_not(cc.drange(COMMENTK))}, dict(last=t, spec=Spec(False)))
            cc.bad, cc.panics = [], []
            try:
                outs = seq(eng, [s0], prog.bodies[k], mkargs)
            except (Budget, Unsupported):
                continue
            if not outs or cc.panics or any(cc.cell(st) is not NONE or st.cl["err"] or st.cl["eof"] or st.cl["spec"].ph != "same" or st.cl["last"] is not t
                                            for st, v in outs):
                continue
            bumps.append(k)
            for st, v in outs:
                c = field(cc.pv(st), 0, ci)
                if any(x.k == "c0" for x in subs(c)):
                    report("reset", "comments collected before a token are kept when it is consumed", P4, prog.bodies[k])
                starts.append((False, start(eng, c, NONE, {mk("endof", t): ((1, 2 ** 63),)}, dict(last=t))))
    if not bumps:
        report("bump", "no function consumes a token", P4)
    leads = [k for k, r in w.comment_ops.items() if r.startswith("(std")]
    trails = [k for k, r in w.comment_ops.items() if r.startswith("std::option::Option")]
    if not leads or not trails:
        report("take", "no functions take the leading and trailing comments", P4)
    seen = set()
    for first, s0 in starts:
        kk = (first, field(cc.pv(s0), 0, ci))
        if kk in seen:
            continue
        seen.add(kk)
        for pk in sorted(w.collects):
            cc = CC(w, pk)
            eng = Eng(prog, cc, max_steps=1_500_000)
            s0.cl["spec"] = Spec(first)
            cut = False
            try:
                outs = seq(eng, [s0], prog.bodies[pk], mkargs)
            except Budget as x:
                # what was followed to its end is judged all the same
                w.und.append("comments: %s is not followed to the end: %s" % (pk, x))
                outs = list(eng.out)[:400]
                eng.steps, cut = 0, True
            except Unsupported as x:
                w.und.append("comments: %s cannot be followed: %s" % (pk, x))
                continue
            for b in cc.bad:
                report(b[0], b[1], ("P06", "P04"), None, b[2])
            for what, where in cc.panics:
                report("panic:" + what, "a panic can be reached: %s" % what, ("P07",), None, where)
            st_obl["steps"] += eng.steps
            for st, v in outs:
                if st.cl["lexerr"] or st.cl["err"]:
                    continue
                c = cc.cell(st)
                if c is NONE:
                    k = "eof"
                elif c.k == "A" and c.a[2][0].k == "A" and c.a[2][0].a[1] == 0:
                    k = cc.kindof(eng, st, field(c.a[2][0].a[2][0], 0, 0))
                else:
                    k = "?"
                sp = st.cl["spec"].step(k, None) if k in ("eof", "close", "tok") else st.cl["spec"]
                if sp.ph != "end":
                    report("end", "the collector stops at a comment", P4, prog.bodies[pk])
                    continue
                st.frames = []
                for order in ((0, 1), (1, 0)):
                    for l in leads:
                        for t in trails:
                            cur = [st]
                            got = {}
                            for o in order:
                                try:
                                    r = seq(eng, cur, prog.bodies[(l, t)[o]], cref)
                                except (Budget, Unsupported) as x:
                                    w.und.append("comments: %s cannot be followed: %s" % ((l, t)[o], x))
                                    r = []
                                got[o] = [v for _, v in r]
                                cur = [x for x, _ in r]
                            for lv in got[0]:
                                st_obl["obligations"] += 2
                                ll, dd = None, None
                                if lv.k == "A" and len(lv.a[2]) == 2:
                                    for x in lv.a[2]:
                                        if x.k == "A" and x.a[0] == "vec":
                                            dd = tuple(cc.txt(e) for e in x.a[2])
                                        else:
                                            ll = opt(cc, x)
                                if (dd is None or ll == "?") and cut:
                                    pass
                                elif dd is None or ll == "?":
                                    report("result", "the comments taken cannot be followed: %s" % show(lv)[:100], P4, prog.bodies[l])
                                elif dd != sp.D:
                                    report("detached", "%s: detached comments are %s, expected %s" % (path(st), names(dd), names(sp.D)), P4, prog.bodies[pk])
                                elif ll != sp.L:
                                    report("leading", "%s: the leading comment is %s, expected %s" % (path(st), names([ll]), names([sp.L])), P4, prog.bodies[pk])
                            for tv in got[1]:
                                tt = opt(cc, tv)
                                if tt != sp.T:
                                    report("trailing", "%s: the trailing comment is %s, expected %s" % (path(st), names([tt]), names([sp.T])), P4, prog.bodies[pk])
            st_obl["functions"] += len(eng.functions)
            st_obl["paths"] = st_obl.get("paths", 0) + len(outs)
    return st_obl


def opt(cc, v):
    if v is NONE:
        return None
    if v.k == "A" and v.a[0].endswith("Option") and v.a[1] == 1:
        return cc.txt(v.a[2][0]) or "?"
    return "?"


def names(xs):
    return "[%s]" % ", ".join("none" if x is None else "+".join(show(y)[:60] for y in x) for x in xs)


def path(st):
    return "first in the file" if st.cl.get("first") else "after a token"


if __name__ == "__main__":
    import sys, build, mir
    sys.setrecursionlimit(20000)
    prog = mir.Program(build.ensure(("protox_parse",)))
    w = PA.World(prog)
    print(analyse(w, lambda k, what, props=(), b=None, where="": print("VIOL", k, what, b and b.key, where)))
