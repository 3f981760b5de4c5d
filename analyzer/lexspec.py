"""Tokens: the generated recognisers against the lexical grammar (automaton.py), and the callbacks that turn a recognised text into a
value, interpreted abstractly with what the grammar says about the text (its length, which bytes can be where)."""
import re
from ai import *
import models as M
import automaton as AU
from automaton import bset, members, seq, alt, star, plus, opt, DFA, Auto, Unsupp, longer

TOKEN = "protox_parse::lex::Token"
PEK = "protox_parse::error::ParseErrorKind"
RANGE = "std::ops::Range"

D, OD, HX = bset((48, 57)), bset((48, 55)), bset((48, 57), (65, 70), (97, 102))
LETTER = bset((65, 90), (97, 122), 95)
EXP = seq(bset("eE"), opt(bset("+-")), plus(D))
FS = bset("fF")
WS = bset(9, 11, 12, 13, 32)
NOT_NL = AU.ALL & ~bset(10)

TOKEN_LANG = [
    ("zero", "0"), ("octal", seq("0", plus(OD))), ("decimal", seq(bset((49, 57)), star(D))), ("hex", seq("0", bset("xX"), plus(HX))),
    ("badnum", seq("0", plus(D))),
    ("float", alt(seq(plus(D), ".", star(D), opt(EXP)), seq(plus(D), EXP), seq(".", plus(D), opt(EXP)))),
    ("floatf", alt(seq("0", FS), seq(bset((49, 57)), star(D), FS), seq(plus(D), ".", star(D), opt(EXP), FS), seq(plus(D), EXP, FS),
                   seq(".", plus(D), opt(EXP), FS))),
    ("ident", seq(LETTER, star(LETTER | D))), ("quote", bset("'\"")),
    ("comment", seq("//", star(NOT_NL), opt("\n"))), ("hash", seq("#", star(NOT_NL), opt("\n"))), ("block", "/*"), ("newline", "\n"),
    ("skip", plus(WS))]
PUNCT = {".": "Dot", "-": "Minus", "+": "Plus", "(": "LeftParen", ")": "RightParen", "{": "LeftBrace", "}": "RightBrace",
         "[": "LeftBracket", "]": "RightBracket", "<": "LeftAngleBracket", ">": "RightAngleBracket", ",": "Comma", "=": "Equals",
         ":": "Colon", ";": "Semicolon", "/": "ForwardSlash"}
TOKEN_LANG += [(c, c) for c in PUNCT]
VARIANT = dict(PUNCT, zero="IntLiteral", octal="IntLiteral", decimal="IntLiteral", hex="IntLiteral", badnum="IntLiteral", float="FloatLiteral",
               floatf="FloatLiteral", ident="Ident", quote="StringLiteral", comment="LineComment", hash="LineComment", block="BlockComment",
               newline="Newline")

STRING_LANG = [
    ("text", plus(AU.ALL & ~bset(0, 10, "\\'\""))), ("end", bset("'\"")), ("hexesc", seq("\\", bset("xX"), HX, opt(HX))),
    ("octesc", seq("\\", OD, opt(OD), opt(OD))), ("chresc", seq("\\", bset("abfnrtv?\\'\""))), ("uni4", seq("\\u", HX, HX, HX, HX)),
    ("uni8", seq("\\U", HX, HX, HX, HX, HX, HX, HX, HX))]
BLOCK_LANG = [("end", seq("*/", star(WS))), ("start", "/*"), ("newline", "\n")]
ESC = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "?": 63, "\\": 92, "'": 39, '"': 34}


class Lang:
    """what is known of a text of one kind"""

    def __init__(self, ref, kind):
        self.ref, self.kind = ref, kind
        n = len(ref.acc)
        self.acc = {q for q in range(n) if ref.kind(q) == kind}
        good = set(self.acc)
        while True:
            more = {q for q in range(n) if q not in good and any(t in good for _, t in ref.trans[q])}
            if not more:
                break
            good |= more
        self.good = good
        self.layers = [{0}]
        for _ in range(12):
            self.layers.append({t for q in self.layers[-1] for _, t in ref.trans[q] if t in good})
        lens = [i for i, l in enumerate(self.layers) if l & self.acc]
        self.min = lens[0]
        self.max = lens[-1] if lens[-1] < 12 else None

    def at(self, i):
        m = 0
        if i >= 0:
            for q in self.layers[min(i, 12)] if i <= 12 else ():
                for x, t in self.ref.trans[q]:
                    if t in self.good:
                        m |= x
            return m
        back = self.acc
        for k in range(-i):
            m, prev = 0, set()
            for q in self.good:
                for x, t in self.ref.trans[q]:
                    if t in back:
                        m |= x
                        prev.add(q)
            back = prev
        return m

    def accepts(self, bs):
        return self.ref.kind_of(bs) == self.kind

    def starts(self, bs):
        """do the texts of this kind start with bs?  True / False / None"""
        qs, sure = {0}, True
        for b in bs:
            ns = set()
            for q in qs:
                if q in self.acc:
                    sure = False
                for x, t in self.ref.trans[q]:
                    if t in self.good:
                        if x >> b & 1:
                            ns.add(t)
                        if x & ~(1 << b):
                            sure = False
            qs = ns
            if not qs:
                return False
        return True if sure else None


def rset(mask):
    out = []
    for x in members(mask):
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return tuple((a, b) for a, b in out)


def lx(name, which):
    return mk("p", name + which)


class LexEng(Eng):
    """knows positions in the text: tb(lexer, i) is the token's i-th byte (negative: from its end), rb(lexer, i) the i-th after it"""

    def index(self, st, v, ix):
        c = self.client
        off = c.text_of(v)
        if off is not None:
            L, kind, a, b = off
            i = self.const_of(st, ix)
            if kind == "tok" and i is not None:
                return mk("tb", L, a + i)
            if kind == "tok" and ix.k == "fromend":
                return mk("tb", L, -b - ix.a[0].a[0])
            if kind == "rem" and i is not None:
                return mk("rb", L, a + i)
            if kind == "src":
                x, k = (ix.a[0], ix.a[1]) if ix.k == "add" else (ix, 0)
                if x is lx("start", L):
                    return mk("tb", L, k)
                if x is lx("end", L):
                    return mk("tb", L, k) if k < 0 else mk("rb", L, k)
            if kind == "tok" and ix.k == "add" and ix.a[0].k == "len" and c.text_of(ix.a[0].a[0]) == off and ix.a[1] < 0:
                return mk("tb", L, ix.a[1] - b)
        return super().index(st, v, ix)

    def base_rng(self, st, t, ty=None):
        c = self.client
        if t.k == "tb":
            lang = c.langs.get(t.a[0])
            if lang is not None:
                if t.a[1] < 0 and lang.max == lang.min:
                    return rset(lang.at(lang.min + t.a[1]))
                return rset(lang.at(t.a[1]))
            return ((0, 255),)
        if t.k == "rb":
            return ((0, 0x10ffff),)
        if t.k == "len":
            o = c.text_of(t.a[0])
            if o is not None and o[1] == "tok" and c.langs.get(o[0]) is not None:
                lang = c.langs[o[0]]
                return ((lang.min - o[2] - o[3], (lang.max if lang.max is not None else self.maxlen) - o[2] - o[3]),)
        if t.k == "diff" and t.a[0] is lx("end", "m") and t.a[1] is lx("start", "m") and c.langs.get("m") is not None:
            lang = c.langs["m"]
            return ((lang.min, lang.max if lang.max is not None else self.maxlen),)
        if t.k == "parse":
            lang = c.langs.get(t.a[0])
            if lang is not None and lang.max is not None and t.a[3] in (8, 16):
                n = lang.max - t.a[1] - t.a[2]
                hi = t.a[3] ** n - 1
                if t.a[3] == 8 and n == 3:
                    hi = 0o777
                return ((0, hi),)
            return ((0, 2 ** 64 - 1),)
        if t.k == "p" and t.a[0].startswith(("start", "end")):
            return ((1 if t.a[0] == "endm" else 0, self.maxlen),)
        return super().base_rng(st, t, ty)

    def truth(self, st, b):
        if b.k == "lt":
            r = self.client.order(b.a[0], b.a[1])
            if r is not None:
                return r
        if b.k == "streq":
            o = self.client.text_of(b.a[0])
            lang = self.client.langs.get(o[0]) if o is not None and o[1] == "tok" and o[2] == o[3] == 0 else None
            if lang is not None:
                lit = b.a[1].encode()
                if not lang.accepts(lit):
                    return False
                if lang.min == lang.max and all(bin(lang.at(i)).count("1") == 1 for i in range(lang.min)):
                    return True
        return super().truth(st, b)

    def exact_counter(self, v):
        # small counters are followed exactly
        return v.k == "i" and abs(v.a[0]) < 4


class LexC(Client):
    """the lexer a callback works on; `langs`: what is known of the current token of lexer m (the file's) and c (of the components)"""

    def __init__(self, prog, langs):
        self.prog, self.langs, self.panics, self.recorded = prog, dict(langs), [], []
        self.lexers = 0
        self.errvariants = [v["name"] for v in prog.adt_path[PEK]["variants"]]
        self.events = None         # the components' kinds and values
        self.onnext = None

    # texts: (lexer, "tok" | "src" | "rem", from start, from end)
    def text_of(self, v):
        if v.k == "p":
            for nm in ("tok", "src", "rem"):
                if v.a[0] in (nm + "m", nm + "c"):
                    return v.a[0][len(nm):], nm, 0, 0
        if v.k == "text":
            return v.a
        if v.k == "slice" and v.a[1].k == "i" and v.a[2].k == "i":
            o = self.text_of(v.a[0])
            if o is not None and o[1] in ("tok", "rem"):
                return o[0], o[1], o[2] + v.a[1].a[0], o[3] - v.a[2].a[0]
        return None

    def order(self, x, y):
        """x < y for positions of one lexer"""
        def pos(t):
            k = 0
            if t.k == "add":
                t, k = t.a[0], t.a[1]
            if t.k == "p" and t.a[0][:-1] in ("start", "end"):
                return t.a[0][:-1], t.a[0][-1], k
            if t.k == "len" and self.text_of(t.a[0]) and self.text_of(t.a[0])[1] == "src":
                return "len", self.text_of(t.a[0])[0], k
            return None

        def tl(t):
            k = 0
            if t.k == "add":
                t, k = t.a[0], t.a[1]
            return (t.a[0], k) if t.k == "len" and self.text_of(t.a[0]) and self.text_of(t.a[0])[1] == "tok" else None

        p, q = tl(x), tl(y)
        if p is not None and q is not None and p[0] is q[0]:
            return p[1] < q[1]
        p, q = pos(x), pos(y)
        if p is None or q is None or p[1] != q[1]:
            return None
        lang = self.langs.get(p[1])
        lo, hi = (lang.min, lang.max) if lang is not None else (1, None)
        # bounds of y - x
        if p[0] == q[0]:
            return q[2] - p[2] > 0
        if p[0] == "start" and q[0] == "end":
            a, b = lo, hi
        elif p[0] == "end" and q[0] == "start":
            a, b = (None if hi is None else -hi), -lo
        elif q[0] == "len":
            a, b = 0 if p[0] == "end" else lo, None
        elif p[0] == "len":
            a, b = None, 0 if q[0] == "end" else -lo
        else:
            return None
        d = q[2] - p[2]
        if a is not None and a + d > 0:
            return True
        if b is not None and b + d <= 0:
            return False
        return None

    def sub(self, eng, st, v, ix):
        """a part of the token's text"""
        o = self.text_of(v)
        if o is None or not (ix.k == "A" and ix.a[0].startswith("std::ops::Range")):
            return None
        L, kind, a, b = o
        nm, fs = ix.a[0].split("::")[-1], ix.a[2]
        lo = fs[0] if nm in ("Range", "RangeFrom") else I(0)
        hi = fs[1] if nm == "Range" else fs[0] if nm == "RangeTo" else None
        if kind == "src":
            def frm(t, want):
                k = 0
                if t.k == "add":
                    t, k = t.a[0], t.a[1]
                return k if t is lx(want, L) else None

            x = frm(lo, "start")
            y = frm(hi, "end") if hi is not None else None
            if x is not None and y is not None and x >= 0 and y <= 0:
                return self.part(eng, st, L, x, -y)
            k = frm(lo, "end")
            if k is not None and k >= 0 and (hi is None or hi.k == "len"):
                if k == 0:
                    return lx("rem", L)
                n = M.bounds(eng, st, mk("len", lx("rem", L)))
                self.assert_(eng, st, "slice", (), True if k <= n[0] else False if k > n[1] else None)
                return mk("text", L, "rem", k, 0)
            return None
        if kind == "tok":
            x = eng.const_of(st, lo)
            y = None
            if hi is None:
                y = 0
            elif hi.k == "add" and hi.a[0].k == "len" and self.text_of(hi.a[0].a[0]) == o:
                y = -hi.a[1]
            elif hi.k == "len" and self.text_of(hi.a[0]) == o:
                y = 0
            if x is not None and y is not None:
                return self.part(eng, st, L, a + x, b + y)
        if kind == "rem" and hi is None and lo.k == "i":
            return mk("text", L, "rem", a + lo.a[0], b)
        return None

    def first(self, eng, st, coll):
        v = coll.a[0] if coll.k in ("chars", "bytes") else coll
        o = self.text_of(v)
        if o is None or o[1] == "src":
            return None
        e = mk("tb" if o[1] == "tok" else "rb", o[0], o[2])
        n = eng.length(st, v)
        out = []
        s2 = st.clone()
        if eng.narrow(s2, n, ((0, 0),)):
            out.append((s2, None))
        if eng.narrow(st, n, ((1, INF),)):
            out.append((st, e))
        return out

    def assert_(self, eng, st, kind, ops, decided):
        if not decided and kind == "overflow:Add" and len(ops) == 3 and all(self.is_pos(x) for x in ops[2]):
            decided = True          # positions in one text, or lengths of parts of it
        if not decided and kind == "overflow:Sub" and len(ops) == 3 and all(x.k == "len" for x in ops[2]):
            t = ops[2][1].a[0]      # the length of a part of the same text
            while t.k in ("trim", "after") and t is not ops[2][0].a[0]:
                t = t.a[0]
            decided = decided if t is not ops[2][0].a[0] else True
        super().assert_(eng, st, kind, ops, decided)

    def is_pos(self, t):
        """a position in a text, or the length of a part of one: far below the largest usize"""
        if t.k in ("pos", "old"):
            t = t.a[0]
            return t.k != "pos" or self.is_pos(t)
        if t.k == "diff":
            return all(self.is_pos(x) for x in t.a[:2])
        if t.k == "len" and any(self.text_of(x) is not None for x in subs(t)):
            return True
        if t.k == "add" and type(t.a[1]) is int:
            return self.is_pos(t.a[0]) and abs(t.a[1]) < 1 << 16
        if t.k == "i":
            return 0 <= t.a[0] < 1 << 16
        return t.k == "p" and t.a[0][:-1] in ("start", "end") or t.k == "len" and self.text_of(t.a[0]) is not None

    def part(self, eng, st, L, a, b):
        lang = self.langs.get(L)
        self.assert_(eng, st, "slice", (), None if lang is None or a < 0 or b < 0 else True if a + b <= lang.min else None)
        return lx("tok", L) if a == b == 0 else mk("text", L, "tok", a, b)

    def panic(self, eng, st, what):
        if not st.cl.get("err"):
            self.panics.append((what, st.where()))

    def keep_fact(self, eng, st, t, live):
        return True

    def clkey(self, st):
        return tuple(sorted((k, v) for k, v in st.cl.items()))

    def newvec(self, eng, st, elemty):
        return "array"

    def which(self, eng, st, v):
        """which lexer a reference denotes"""
        if v.k == "R" and v.a[0] == ("H", "lex") and not v.a[1]:
            return "m"
        w = eng.deref(st, v)
        if w.k == "p" and w.a[0] == "lexer":
            return "m"
        if w.k == "sublexer":
            return "c"
        return None

    def call(self, eng, st, callee, args, site):
        p = M.npath(callee.get("rpath") or callee["path"])
        nm = callee.get("method") or p.split("::")[-1]
        tr = callee.get("trait") or ""
        pth = callee["path"]
        if pth.startswith("logos::Lexer::<") or "logos::Lexer<" in (callee.get("rpath") or "") or pth.startswith("logos::Logos::"):
            return self.lexer_op(eng, st, nm, callee, args)
        if nm in ("get", "get_unchecked") and len(args) == 2 and not tr:
            v, ix = eng.deref(st, args[0]), args[1]
            o = self.text_of(v)
            if o is not None and o[1] == "src" and ix.k != "A":
                x, k = (ix.a[0], ix.a[1]) if ix.k == "add" and type(ix.a[1]) is int else (ix, 0)
                if x is lx("end", o[0]) and k >= 0:
                    r, n = lx("rem", o[0]), mk("len", lx("rem", o[0]))
                    s2, out = st.clone(), []
                    if eng.narrow(s2, n, ((0, k),)):
                        if k == 0:
                            s2.cl["exh"] = True
                        out.append((s2, NONE))
                    if eng.narrow(st, n, ((k + 1, INF),)):
                        out.append((st, some(mk("rb", o[0], k))))
                    return out
        if tr == "std::ops::Index" or nm == "get" and len(args) == 2 and not tr:
            v, ix = eng.deref(st, args[0]), args[1]
            r = self.sub(eng, st, v, ix)
            if r is not None:
                return [(st, r if tr else some(r))]
            if tr and self.text_of(v) is not None and ix.k != "A":
                self.assert_(eng, st, "index", (), eng.truth(st, mk("lt", ix, eng.length(st, v), "usize")))
                return [(st, eng.index(st, v, ix))]
            return None
        if nm == "from_str_radix":
            return self.parse_int(eng, st, args[0], eng.const_of(st, args[1]), re.search(r"impl (\w+)>", callee.get("rpath") or callee["path"]))
        if nm == "parse" and (callee.get("targs") or [""])[-1] == "f64" or nm == "from_str" and "f64" in (callee.get("rpath") or ""):
            return self.parse_float(eng, st, args[0])
        if nm == "parse" and (callee.get("targs") or [""])[-1] in ("u64", "u32"):
            return self.parse_int(eng, st, args[0], 10, re.match(r"(\w+)", callee["targs"][-1]))
        if pth.endswith("ParseIntError::kind"):
            v = eng.deref(st, args[0])
            return [(st, field(v, 0, 0))]
        if nm in ("starts_with", "strip_prefix", "ends_with", "strip_suffix") and "str" in p:
            r = self.edge(eng, st, nm, args)
            return r if r is not None or "suf" in nm or "ends" in nm else self.prefix(eng, st, nm, args)
        if nm in ("push", "push_str", "extend_from_slice", "extend", "add_assign") and len(args) == 2 and args[0].k == "R":
            return self.append(eng, st, nm, callee, args)
        if nm == "encode_utf8":
            return [(st, mk("utf8", eng.deref(st, args[0])))]
        if nm == "from_u32" and "char" in p:
            v = eng.deref(st, args[0])
            s2 = st.clone()
            self.note(s2, "char", 1)
            return [(s2, some(mk("char", v))), (st, NONE)]
        if nm == "last_mut" and args and args[0].k == "R" and args[0].a[0] == ("H", "lex"):
            s2 = st.clone()
            s2.cl["err"] = True
            e = self.prog.adt_path[PEK]["variants"]
            cell = ("H", "lasterr")
            s2.heap[cell] = P("lasterr")
            return [(s2, some(mk("R", cell, (), PEK))), (st, NONE)]
        if nm in ("trim_start", "trim_start_matches") and len(args) <= 2:
            v = eng.deref(st, args[0])
            if self.text_of(v) is not None:
                rs = self.charset(eng, st, args[1] if len(args) > 1 else None)
                if rs is not None:
                    return [(st, mk("trim", v, rs))]
        if nm == "is_nan" and eng.deref(st, args[0]).k == "parsef":
            return [(st, FALSE)]        # a parsed number
        if nm == "is_whitespace":
            return [(st, M.range_pred(eng, st, eng.deref(st, args[0]), WHITE, "char"))]
        if nm == "is_alphabetic" and "char" in p:
            v = eng.deref(st, args[0])
            return [(st, mk("inset", v, ((65, 90), (97, 122), (170, 0x10ffff)), "char"))]
        return None

    def note(self, st, k, v):
        st.cl[k] = v

    def lexer_op(self, eng, st, nm, callee, args):
        if nm == "lexer":
            v = eng.deref(st, args[0])
            return [(st, mk("sublexer", v))]
        L = self.which(eng, st, args[0]) if args else None
        if L is None:
            return None
        if nm == "slice":
            return [(st, lx("tok", L))]
        if nm == "span":
            e = lx("end", L)
            return [(st, A(RANGE, 0, (lx("start", L), e)))]
        if nm == "source":
            return [(st, lx("src", L))]
        if nm == "remainder":
            r = st.cl.get("rem" + L)
            return [(st, r if r is not None else lx("rem", L))]
        if nm == "bump":
            return self.bump(eng, st, L, args[1])
        if nm == "next" and L == "c" and self.onnext is not None:
            return self.onnext(eng, st)
        return None

    def bump(self, eng, st, L, n):
        n = eng.deref(st, n)
        if L == "m":
            st.cl["bump"] = st.cl.get("bump", ()) + (n,)
            return [(st, UNIT)]
        r = st.cl.get("rem" + L) or lx("rem", L)
        # past the prefix that was trimmed off
        if n.k == "diff" and n.a[0].k == "len" and n.a[1].k == "len" and n.a[0].a[0] is r and n.a[1].a[0].k == "trim" and n.a[1].a[0].a[0] is r:
            st.cl["rem" + L] = n.a[1].a[0]
        else:
            st.cl["rem" + L] = mk("after", r, n)
        return [(st, UNIT)]

    def charset(self, eng, st, pat):
        """the characters a pattern matches"""
        if pat is None:
            return WHITE
        v = eng.deref(st, pat)
        if v.k == "i":
            return ((v.a[0], v.a[0]),)
        if v.k == "A" and v.a[0] == "array":
            if all(x.k == "i" for x in v.a[2]):
                return rs_norm((x.a[0], x.a[0]) for x in v.a[2])
            return None
        e = Eng(self.prog, CharC(), max_steps=20000)
        try:
            if v.k == "A" and v.a[0].startswith("closure:"):
                b = self.prog.bodies.get(v.a[0][8:])
                cell = ("H", "clos")
                outs = e.run(b, [mk("R", cell, (), "closure"), P("ch")], {cell: v}, {}, {})
            elif v.k == "fn":
                cal = eng.fnnodes.get(v)
                b = self.prog.bodies.get(cal.get("key"))
                if b is None:
                    nm = M.npath(cal.get("rpath") or cal["path"]).split("::")[-1]
                    rs = WHITE if nm == "is_whitespace" else M.CHARSETS.get(nm)
                    return None if rs is None else tuple(rs)
                outs = e.run(b, [P("ch")], {}, {}, {})
            else:
                return None
        except (Budget, Unsupported, KeyError, AttributeError):
            return None
        yes = no = ()
        for s, r in outs:
            for want in (True, False):
                s2 = s.clone()
                if r.k == "i" and bool(r.a[0]) != want or r.k != "i" and not e.assume(s2, r, want):
                    continue
                x = e.rng(s2, P("ch"), "char")
                if want:
                    yes = rs_or(yes, x)
                else:
                    no = rs_or(no, x)
        if rs_and(yes, no):
            return None
        rs = yes
        return rs

    def parse_int(self, eng, st, s, radix, ty):
        ty = ty.group(1) if ty else "u64"
        top = TYRANGE.get(ty, (0, 2 ** 64 - 1))[1]
        v = eng.deref(st, s)
        o = self.text_of(v)
        if o is None or o[1] != "tok" or radix is None:
            return None
        lang = self.langs.get(o[0])
        ok_digits = rset(bset((48, 47 + min(radix, 10))) | (HX if radix == 16 else 0))
        state = self.digits(lang, o[2], o[3], radix) if lang is not None else None
        out = []
        t = mk("parse", o[0], o[2], o[3], radix)
        if state is not False:
            s2 = st.clone()
            if top >= 2 ** 64 - 1 or eng.narrow(s2, t, ((0, top),)):
                out.append((s2, ok(t)))
            big = lang is None or lang.max is None
            s3 = st.clone()
            if big or top < 2 ** 64 - 1 and eng.narrow(s3, t, ((top + 1, INF),)):
                if top == 2 ** 64 - 1:
                    s3.cl["ovf"] = True
                out.append((s3, err(A("std::num::ParseIntError", 0, (A("std::num::IntErrorKind", 2, ()),)))))
        if state is not True:
            for k in (1, 2):
                s3 = st.clone()
                s3.cl["bad"] = True
                out.append((s3, err(A("std::num::ParseIntError", 0, (A("std::num::IntErrorKind", k, ()),)))))
        return out

    def digits(self, lang, a, b, radix):
        """are all of text[a .. len-b] digits of the radix?"""
        okm = bset((48, 47 + min(radix, 10))) | (bset((65, 54 + radix), (97, 86 + radix)) if radix > 10 else 0)
        if b:
            return None
        qs = set(lang.layers[a]) if a <= 12 else set()
        if qs & lang.acc and a >= lang.min:
            return None
        # walk the rest: some text with only digits / some with another character
        def reach(mask):
            seen, todo = set(qs), list(qs)
            while todo:
                q = todo.pop()
                for x, t in lang.ref.trans[q]:
                    if t in lang.good and x & mask and t not in seen:
                        seen.add(t)
                        todo.append(t)
            return seen

        only = bool(reach(okm) & lang.acc)
        seen = reach(AU.ALL)
        other = any(x & ~okm and t in lang.good for q in seen for x, t in lang.ref.trans[q])
        return None if only and other else True if only else False

    def parse_float(self, eng, st, s):
        v = eng.deref(st, s)
        o = self.text_of(v)
        if o is None or o[1] != "tok":
            return None
        lang = self.langs.get(o[0])
        t = mk("parsef", o[0], o[2], o[3])
        if lang is not None and o[2] == 0:
            if lang.kind in ("zero", "octal", "decimal", "badnum", "float") and o[3] == 0 or lang.kind == "floatf" and o[3] == 1:
                return [(st, ok(t))]
            if lang.kind == "floatf" and o[3] == 0:
                return [(st, err(P("perr")))]
        s2 = st.clone()
        return [(s2, ok(t)), (st, err(P("perr")))]

    def edge(self, eng, st, nm, args):
        """does a text begin or end with one of a set of characters?"""
        v = eng.deref(st, args[0])
        o = self.text_of(v)
        front = nm.startswith("st") and nm.endswith(("with", "prefix"))
        if o is None or o[1] == "src" or not front and o[1] != "tok":
            return None
        lang = self.langs.get(o[0])
        x = eng.deref(st, args[1])
        if x.k == "s":
            if len(x.a[0]) != 1 or ord(x.a[0]) > 127 or o[1] == "tok" and lang is not None and front:
                return None
            rs = ((ord(x.a[0]), ord(x.a[0])),)
        else:
            rs = self.charset(eng, st, args[1])
        if rs is None:
            return None
        if o[1] == "tok":
            if lang is None or lang.min <= o[2] + o[3]:
                return None
            i = o[2] if front else -1 - o[3]
            at = rset(lang.at(i))
            if rs_and(at, ((128, 255),)) and rs_and(rs, ((128, INF),)):
                return None
            if front and i == 0 and not o[2]:
                t = mk("tb", o[0], 0)
            else:
                t = mk("tb", o[0], i)
            cases = [(t, st)]
            out = []
        else:
            t = mk("rb", o[0], o[2])
            n = eng.length(st, v)
            s2 = st.clone()
            out = []
            if eng.narrow(s2, n, ((0, 0),)):
                out.append((s2, None))
            cases = [(t, st)] if eng.narrow(st, n, ((1, INF),)) else []
        for t, s1 in cases:
            for want in (True, False):
                s2 = s1.clone()
                if eng.narrow(s2, t, rs if want else rs_not(rs)):
                    out.append((s2, t if want else None))
        if nm.endswith("with"):
            return [(s2, I(int(r is not None))) for s2, r in out]
        return [(s2, NONE if r is None else some(mk("text", o[0], o[1], o[2] + (1 if front else 0), o[3] + (0 if front else 1)))) for s2, r in out]

    def prefix(self, eng, st, nm, args):
        v, x = eng.deref(st, args[0]), eng.deref(st, args[1])
        o = self.text_of(v)
        if x.k == "i":
            x = S(chr(x.a[0]))
        if o is None and v.k != "trim" or x.k != "s":
            return None
        t = None
        if o is not None and o[1] == "tok" and o[2] == 0 and self.langs.get(o[0]) is not None:
            t = self.langs[o[0]].starts(x.a[0].encode())
        b = mk("pred", "starts_with", v, x)
        if nm == "starts_with":
            return [(st, b if t is None else I(int(t)))]
        out = []
        for tt in ([t] if t is not None else [True, False]):
            s2 = st.clone()
            if t is None and not eng.assume(s2, b, tt):
                continue
            n = len(x.a[0].encode())
            if tt and o is None:
                return None
            out.append((s2, some(mk("text", o[0], o[1], o[2] + n, o[3])) if tt else NONE))
        return out

    # ---- collected contents
    def content(self, v):
        """(base, items) of a collected text; None: not one"""
        while v.k == "A" and v.a[0] == COW:
            v = v.a[2][0]
        if v.k == "seq":
            return v.a[0], v.a[1]
        if v.k == "acc":
            return v, ()
        if v.k == "A" and v.a[0] in ("vec", "array"):
            return None if v.a[2] else (P("nil"), ())
        if v.k == "s":
            return P("nil"), ((v,) if v.a[0] else ())
        if v.k == "V" and not v.a[1]:
            return P("nil"), ()
        if v.k == "y" and not v.a[0]:
            return P("nil"), ()
        if v.k in ("p", "text", "utf8", "pay"):
            return P("nil"), (v,)
        return None

    def append(self, eng, st, nm, callee, args):
        tgt = args[0]
        if tgt.a[0] == ("H", "lex"):
            e = eng.deref(st, args[1])
            if e.k == "A" and e.a[0] == PEK:
                st.cl["err"] = True
                st.cl["errs"] = st.cl.get("errs", frozenset()) | {self.errvariants[e.a[1]]}
                esc = {f.a[0]: x == ((1, 1),) for f, x in st.facts.items() if f.k == "pred" and f.a[0] in ("starts_with", "contains") and f.a[1] is lx("tok", "c")
                       and f.a[2] is S("\\" if f.a[0] == "starts_with" else "\n") and x in (((1, 1),), ((0, 0),))}
                self.recorded.append((self.errvariants[e.a[1]], e.a[2], st.cl.get("ev"), st.where(), esc))
                return [(st, UNIT)]
            st.cl["err"] = True
            return [(st, UNIT)]
        cur = eng.deref(st, tgt)
        c = self.content(cur)
        x = eng.deref(st, args[1])
        while x.k == "A" and x.a[0] == COW:
            x = x.a[2][0]
        if c is None:
            return None
        if nm == "push":
            x = mk("chr", x) if x.k != "i" else S(chr(x.a[0])) if "String" in callee["path"] else mk("chr", x)
        elif x.k == "s":
            x = x
        M.setref(eng, st, tgt, mk("seq", c[0], c[1] + (x,)))
        return [(st, UNIT)]


def rs_norm(it):
    r = ()
    for x in it:
        r = rs_or(r, (x,))
    return r


WHITE = rs_norm([(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f),
                 (0x205f, 0x205f), (0x3000, 0x3000)])


class CharC(Client):
    def keep_fact(self, eng, st, t, live):
        return True

    def call(self, eng, st, callee, args, site):
        nm = M.npath(callee.get("rpath") or callee["path"]).split("::")[-1]
        if nm == "is_whitespace":
            return [(st, M.range_pred(eng, st, eng.deref(st, args[0]), WHITE, "char"))]
        return None


def lines_of(prog):
    return [k for k in prog.bodies if re.search(r" as logos::Logos<[^>]*>>::lex$", k)]


def prefix_of(prog, entry):
    """the functions of a generated automaton are nested in its entry function"""
    b = prog.bodies[entry]
    b.prep()
    for bl in b.blocks:
        if bl and bl[1][0] == "call" and bl[1][1][0] == "k":
            k = (bl[1][1][1].get("fn") or {}).get("key", "")
            if " as logos::Logos<" in k and "::lex::" in k:
                return k.rsplit("::", 1)[0] + "::"
    return None


class Lex:
    def __init__(self, prog, viol, und):
        self.prog, self.viol, self.und = prog, viol, und
        self.stats = dict(obligations=0, automaton_states=0, automaton_functions=0, byte_tests=0, tokens=0, callbacks=0)
        self.samples = []

    def report(self, props, key, what, where=""):
        if all(v["key"] != key for v in self.viol):
            self.viol.append(dict(props=list(props), key=key, what=what, detail=what, where=where, cond=""))

    def undecided(self, what):
        if what not in self.und:
            self.und.append(what)

    # ---- the recognisers
    def recogniser(self, entry, lang, role, variant, props, greedy=()):
        """-> {kind: {(callback, arguments, constructor, result type)}}"""
        prog = self.prog
        ref = DFA(lang)
        got = {}
        short = role

        def ctor_name(f):
            return re.sub(r"::<[^>]*>", "", f[1]).split("::")[-1] if type(f) is tuple and f[0] == "fn" else None

        def on(a, s, last):
            if not AU.feasible(s, a):
                return
            a.tokens += 1
            self.stats["obligations"] += 1
            kind = ref.kind(s.q) if s.u8 == 0 else None
            txt = s.text.encode("latin1").decode("utf8", "replace")
            if last is None:
                self.undecided("%s: a path that sets no token" % short)
                return
            if last[0] == "end":
                if not (s.eof == 0 and s.q == 0):
                    self.report(props, "%s:end" % short, "the %s stops at %r although the text goes on" % (role, txt), s.body.key)
                return
            if last[0] == "skip":
                if kind != "skip":
                    self.report(props, "%s:skip:%s" % (short, kind), "the %s skips %r" % (role, txt), s.body.key)
                return
            if last[0] == "error":
                if kind is not None or s.hit:
                    self.report(props, "%s:reject:%s" % (short, kind), "the %s rejects %r" % (role, txt), s.body.key)
                    return
                l = longer(ref, s, a)
                if l:
                    self.report(props, "%s:reject:%s" % (short, l[1]), "the %s rejects the %s %r" % (role, l[1], txt + l[0]), s.body.key)
                elif variant is None and len(s.text) > 1:
                    self.report(props, "%s:swallow" % short, "the %s passes over %r as a whole" % (role, txt), s.body.key)
                return
            # a token
            if last[0] == "make":
                cb, ctor, conv = last[1], last[2], last[3]
                name = ctor_name(ctor)
                val = (cb[1], cb[2]) if type(cb) is tuple and cb[0] == "cb" else (None, cb)
                how = "result" if conv.startswith("<std::result::Result<") else "option" if conv.startswith("<std::option::Option<") else \
                    "bool" if conv.startswith("<bool") else "plain" if conv.startswith("<") and " as logos::internal::CallbackResult<" in conv else "?"
                if re.search(r"Skip|Filter", conv.split(" as ")[0]):
                    how = "?"
            elif last[0] == "set":
                v = last[1]
                if not (type(v) is tuple and v[0] == "agg" and v[1] == RES):
                    self.undecided("%s: token %s" % (short, v))
                    return
                if v[2] == 1:
                    self.report(props, "%s:reject:%s" % (short, kind), "the %s rejects %r" % (role, txt), s.body.key)
                    return
                t = v[3][0]
                if not (type(t) is tuple and t[0] == "agg"):
                    self.undecided("%s: token %s" % (short, t))
                    return
                name = prog.adt_path[t[1]]["variants"][t[2]]["name"]
                val, how = (None, t[3][0] if t[3] else None), "plain"
            else:
                self.undecided("%s: %s" % (short, last[0]))
                return
            if kind is None:
                self.report(props, "%s:accept:%s" % (short, name), "the %s accepts %r as %s" % (role, txt, name), s.body.key)
                return
            if kind == "skip":
                self.report(props, "%s:accept:%s" % (short, name), "the %s does not skip %r" % (role, txt), s.body.key)
                return
            if variant is not None and variant.get(kind) != name:
                self.report(props, "%s:kind:%s" % (short, kind), "the %s takes the %s %r for %s" % (role, kind, txt, name), s.body.key)
                return
            if kind not in greedy:
                l = longer(ref, s, a)
                if l:
                    self.report(props, "%s:short:%s" % (short, l[1]), "the %s stops after %r in the %s %r" % (role, txt, l[1], txt + l[0]), s.body.key)
                    return
            got.setdefault(kind, set()).add((val, name, how))

        pre = prefix_of(prog, entry)
        a = Auto(prog, entry, pre, ref, on)
        try:
            if pre is None:
                raise Unsupp("no generated functions")
            a.run()
        except Unsupp as x:
            self.undecided("%s: %s" % (short, x))
            return None, ref
        self.stats["automaton_states"] += len(a.seen)
        self.stats["automaton_functions"] += len(a.functions)
        self.stats["byte_tests"] += a.tests
        self.stats["tokens"] += a.tokens
        for k, _ in lang:
            if k not in got and k != "skip":
                self.report(props, "%s:missing:%s" % (short, k), "the %s never recognises a %s" % (role, k), entry)
        return got, ref

    # ---- callbacks
    def run_cb(self, key, extra, langs, role, onnext=None, setup=None):
        b = self.prog.bodies.get(key)
        c = LexC(self.prog, langs)
        if onnext is not None:
            c.onnext = lambda eng, st: onnext(c, eng, st)
        eng = LexEng(self.prog, c, max_steps=300_000)
        cell = ("H", "lex")
        args = [mk("R", cell, (), "logos::Lexer")] + [I(x) for x in extra]
        if b is None or any(type(x) is not int for x in extra):
            self.undecided("%s: callback %s" % (role, key))
            return None, c, eng
        self.stats["callbacks"] += 1
        try:
            outs = eng.run(b, args, {cell: P("lexer")}, {}, {})
        except (Budget, Unsupported) as x:
            self.undecided("%s: %s" % (role, x))
            return None, c, eng
        except (KeyError, IndexError, AttributeError, TypeError, ValueError) as x:
            self.undecided("%s: %s %s" % (role, type(x).__name__, x))
            return None, c, eng
        return outs, c, eng

    def merged(self, eng, st, key):
        """an error of a string that extends the one before: they are next to each other, and both are covered"""
        x = st.heap.get(("H", "lasterr"))
        if x is None or x.k != "A" or x.a[0] != PEK:
            return
        self.stats["obligations"] += 1
        for i, r in enumerate(x.a[2]):
            if r.k == "A" and r.a[0] == RANGE:
                old = field(P("lasterr"), x.a[1], i)
                lo, hi = r.a[2]
                start, end = [mk("sum", *sorted((lx("end", "m"), lx(n, "c")), key=show)) for n in ("start", "end")]
                if lo is start or hi in (start, field(old, 0, 1)):
                    self.report(("P30",), "string:merge:span", "two errors of a string become one that points at one of them only", key)
                elif lo is field(old, 0, 0) and hi is end:
                    e = field(old, 0, 1)
                    if eng.truth(st, eng.eq(st, e, start, "usize")) is not True and eng.truth(st, eng.lt(st, e, start, "usize")) is not False:
                        self.report(("P30",), "string:merge:apart", "two errors of a string become one although there may be text between them", key)

    def spans(self, c, role):
        """the position of an error is that of the text it is about"""
        S0, E0, S1, E1 = lx("start", "m"), lx("end", "m"), lx("start", "c"), lx("end", "c")

        def at(x):
            """(bases, offset) of a position"""
            if x.k == "add" and type(x.a[1]) is int:
                b, k = at(x.a[0])
                return b, k + x.a[1]
            if x.k == "sum":
                b, k = (), 0
                for y in x.a:
                    c1, k1 = at(y)
                    b, k = b + c1, k + k1
                return tuple(sorted(b, key=str)), k
            if x.k == "i":
                return (), x.a[0]
            return (x,), 0

        def two(a, b):
            return tuple(sorted((a, b), key=str))
        for name, args, ev, where, esc in c.recorded:
            self.stats["obligations"] += 1
            if ev == "error" and {"UnterminatedString": esc.get("contains") is False,
                                  "InvalidStringEscape": esc.get("starts_with") is False or esc.get("contains") is True,
                                  "InvalidStringCharacters": esc.get("starts_with") is True or esc.get("contains") is True}.get(name):
                self.report(("P30",), "%s:kind:%s" % (role, name), "%s is reported for a component of a string that is of another kind (%s)" % (
                    name, ", ".join("%s %s: %s" % (k, "a backslash" if k == "starts_with" else "a line break", v) for k, v in sorted(esc.items()))), where)
            if name == "UnexpectedEof":
                if ev not in (None, "eof"):
                    self.report(("P30", "P14"), "%s:eof:%s" % (role, ev), "a %s is reported as not terminated at %s" % (role, ev), where)
                continue
            if role == "string" and ev in ("text", "chresc", "hexesc") or role == "comment" and ev in ("text", "newline", "end"):
                self.report(("P14",), "%s:reject:%s" % (role, ev), "a %s with %s in it is rejected (%s)" % (role, ev, name), where)
                continue
            r = [x for x in args if x.k == "A" and x.a[0] == RANGE]
            if len(r) != 1:
                continue
            (sb, sk), (eb, ek) = at(r[0].a[2][0]), at(r[0].a[2][1])
            if any(x not in (S0, E0, S1, E1) for x in sb):
                continue
            known = all(x in (S0, E0, S1, E1) for x in eb)
            inner = (two(E0, S1), 0), (two(E0, E1), 0)
            outer = ((S0,), 0), ((E0,), 0)
            if name == "UnterminatedString":
                ok = ((sb, sk), (eb, ek)) in (inner, outer) or (sb, sk) == outer[0] or not known
            elif name in ("InvalidStringCharacters", "InvalidStringEscape", "NestedBlockComment"):
                ok = (sb, sk) == inner[0] and ((eb, ek) == inner[1] or not known)
            elif name == "NoSpaceBetweenIntAndIdent":
                ok = (sb in ((S0,), (E0,)) and 0 <= sk <= 2) and (not known or eb == (E0,) and ek >= 1)
            elif name in ("IntegerOutOfRange", "InvalidToken", "FloatSuffixOutsideTextFormat", "HashCommentOutsideTextFormat"):
                ok = sb == (S0,) and 0 <= sk <= (2 if name == "IntegerOutOfRange" else 0) and ((eb, ek) == outer[1] or not known)
                if name == "FloatSuffixOutsideTextFormat" and (sb, sk, eb, ek) == ((E0,), -1, (E0,), 0):
                    ok = True
            else:
                ok = True
            if not ok:
                self.report(("P30",), "%s:span:%s" % (role, name), "the error %s of a %s points at %s" % (name, role, show(r[0])), where)

    def panics(self, c, role):
        self.spans(c, role)
        for what, where in c.panics:
            self.report(("P07",), "lexer:panic:%s:%s" % (role, what), "a panic can be reached for a %s: %s" % (role, what), where)

    def results(self, outs, how, eng):
        """-> (state, value or None when the text is rejected)"""
        for st, v in outs:
            self.stats["obligations"] += 1
            if how == "plain":
                yield st, v
            elif v.k == "A" and v.a[0] == (RES if how == "result" else OPT):
                good = v.a[1] == (0 if how == "result" else 1)
                yield st, (v.a[2][0] if good else None)
            else:
                self.undecided("the callback's result %s" % show(v)[:60])

    def next_letter(self, eng, st):
        """is the token followed by a letter?"""
        t = mk("rb", "m", 0)
        rs = [v for f, v in st.facts.items() if f is t and v[0] != "S"]
        o = [v for f, v in st.facts.items() if f.k in ("elem", "at") and lx("remm", "") in subs(f) and v[0] != "S"]
        return rs + o

    def number(self, kind, val, how, ref):
        key, extra = val
        if key is None:
            self.undecided("a %s without a callback" % kind)
            return
        outs, c, eng = self.run_cb(key, extra, {"m": Lang(ref, kind)}, kind)
        if outs is None:
            return
        self.panics(c, kind)
        for st, v in self.results(outs, how, eng):
            err = st.cl.get("errs", frozenset())
            if v is None or kind == "badnum":
                if kind == "badnum" and v is not None and not st.cl.get("err"):
                    self.report(("P14",), "badnum:accept", "decimal digits after a leading zero are read as %s without an error" % show(v)[:60], key)
                elif kind != "badnum" and not st.cl.get("ovf"):
                    self.report(("P14",), kind + ":reject", "a valid %s literal is rejected" % kind, key)
                continue
            letters = rset(LETTER)
            nx = [r for r in (x for f, x in st.facts.items() if self.is_next(f)) if r and r[0] != "S"]
            follows = True if any(not rs_and(r, rs_not(letters)) for r in nx) else False if any(not rs_and(r, letters) for r in nx) else None
            none = self.no_rest(st)
            if kind in ("zero", "octal", "decimal", "hex"):
                if st.cl.get("ovf"):
                    if not st.cl.get("err"):
                        self.report(("P14",), kind + ":overflow", "a %s literal above 2^64-1 is accepted as %s" % (kind, show(v)[:60]), key)
                    continue
                if not st.cl.get("err"):
                    if follows is not False and not none and not self.undecided_rest(st):
                        self.report(("P14",), kind + ":ident", "a %s literal directly followed by a letter is accepted" % kind, key)
                elif follows is False or none or not nx and not self.undecided_rest(st) or \
                        any(rs_and(r, ((0, 47), (58, 64), (91, 94), (96, 96), (123, 127))) for r in nx):
                    self.report(("P14",), kind + ":reject", "a valid %s literal is rejected (%s)" % (kind, ", ".join(sorted(err))), key)
                    continue
                want = {"zero": [(0, 8), (0, 10), (0, 16)], "octal": [(0, 8), (1, 8)], "decimal": [(0, 10)], "hex": [(2, 16)]}[kind]
                good = v.k == "parse" and v.a[2] == 0 and (v.a[1], v.a[3]) in want or kind == "zero" and v is I(0)
                if not good and v.k in ("parse", "i") and not st.cl.get("err"):
                    self.report(("P14",), kind + ":value", "a %s literal has the value %s" % (kind, show(v)), key)
                elif not good and not st.cl.get("err"):
                    self.undecided("a %s literal has the value %s" % (kind, show(v)[:80]))
            else:
                while v.k == "A" and len(v.a[2]) == 1:
                    v = v.a[2][0]
                suffix = kind == "floatf"
                modes = {bool(x[0][0]) for f, x in st.facts.items() if P("lexer") in subs(f) and f.k == "f" and x in (((1, 1),), ((0, 0),))}
                neg = [f for f, x in st.facts.items() if f.k == "f" and P("lexer") in subs(f) and x[0] != "S" and x not in (((1, 1),), ((0, 0),))]
                if neg:
                    modes |= {True}
                if suffix and not st.cl.get("err") and True not in modes:
                    self.report(("P14", "P19"), "floatf:mode", "a float with suffix f is accepted outside text format", key)
                if st.cl.get("err") and (not suffix or True in modes):
                    self.report(("P14",), kind + ":reject", "a valid float literal is rejected (%s)" % ", ".join(sorted(err)), key)
                good = v.k == "parsef" and v.a[1] == 0 and v.a[2] == (1 if suffix else 0)
                if not good and v.k in ("parsef", "fl", "i"):
                    self.report(("P14",), kind + ":value", "a %s literal has the value %s" % (kind, show(v)), key)
                elif not good:
                    self.undecided("a %s literal has the value %s" % (kind, show(v)[:80]))

    def is_next(self, f):
        if f.k == "rb" and f.a[0] == "m" and f.a[1] == 0:
            return True
        if f.k in ("at", "elem", "first") and f.a and type(f.a[0]) is N and lx("rem", "m") in subs(f.a[0]):
            return f.k != "at" or f.a[1] is I(0)
        return False

    def no_rest(self, st):
        r = lx("rem", "m")
        for f, x in st.facts.items():
            if f.k in ("pred", "empty", "exh", "len") and r in subs(f) and x[0] != "S":
                if f.k == "len" and x == ((0, 0),):
                    return True
                if f.k == "pred" and f.a[0] == "nonempty" and x == ((0, 0),):
                    return True
            if f is r and x[0] == "S" and x[1] == "":
                return True
        return bool(st.cl.get("exh"))

    def undecided_rest(self, st):
        """a condition on the text after the token that is not understood"""
        r = lx("rem", "m")
        for f in st.facts:
            if r in subs(f) and not self.is_next(f) and f.k not in ("len",):
                self.undecided("the check of the text after a number: %s" % show(f)[:80])
                return True
        return False

    def escapes(self, got, ref):
        """the components of a string literal"""
        spec = {"hexesc": (2, 16), "octesc": (1, 8), "uni4": (2, 16), "uni8": (2, 16)}
        for kind, vals in sorted(got.items()):
            for val, name, how in sorted(vals, key=str):
                lang = Lang(ref, kind)
                if kind == "text":
                    if val[0] is None and val[1] != ("slice",):
                        self.undecided("text of a string: %s" % (val,))
                        continue
                if val[0] is None:
                    if kind not in ("text",):
                        self.undecided("a %s without a callback" % kind)
                    continue
                outs, c, eng = self.run_cb(val[0], val[1], {"m": lang}, kind)
                if outs is None:
                    continue
                self.panics(c, kind)
                done = {}
                for st, v in self.results(outs, how, eng):
                    if kind in ("chresc", "end"):
                        i = 1 if kind == "chresc" else 0
                        cur = eng.rng(st, mk("tb", "m", i))
                        for l, h in cur:
                            for x in range(l, h + 1):
                                w = ESC[chr(x)] if kind == "chresc" else x
                                if v is None:
                                    self.report(("P14",), "%s:reject:%d" % (kind, x), "the escape \\%s is rejected" % chr(x), val[0])
                                elif v.k == "i" and v.a[0] != w or v.k == "tb" and (v.a[1] != i or w != x):
                                    self.report(("P14",), "%s:%d" % (kind, x), "the %s %s%s stands for %s" % (
                                        "escape" if i else "quote", "\\" * i, chr(x), show(v)), val[0])
                                elif v.k not in ("i", "tb"):
                                    self.undecided("%s: %s" % (kind, show(v)[:80]))
                    elif kind in spec:
                        a, r = spec[kind]
                        t = mk("parse", "m", a, 0, r)
                        byte = kind in ("hexesc", "octesc")
                        rs = eng.rng(st, t)
                        if v is None:
                            if byte and rs_and(rs, ((0, 255),)) or not byte and st.cl.get("char"):
                                self.report(("P14",), kind + ":reject", "an escape (%s) in range is rejected" % kind, val[0])
                            continue
                        want = t if byte else mk("char", t)
                        if v is not want:
                            if subs(v) and not {x.k for x in subs(v)} & {"parse", "tb", "char", "cast"} or v.k == "op":
                                self.undecided("%s: %s" % (kind, show(v)[:80]))
                            else:
                                self.report(("P14",), kind + ":value", "an escape (%s) stands for %s" % (kind, show(v)), val[0])
                        elif byte and rs_and(rs, ((256, INF),)):
                            self.report(("P14",), kind + ":range", "an escape (%s) above 255 is accepted" % kind, val[0])

    def string(self, key, extra, how, comps, tref):
        """the loop that collects a string literal"""
        kinds = []
        for kind, vals in sorted(comps.items()):
            for val, name, h in sorted(vals, key=str):
                kinds.append((kind, name, h))
        kinds = sorted(set(kinds))
        seen = dict(n=0)

        def settle(c, eng, st, where):
            """what the last event should have added"""
            ev = st.cl.get("ev")
            st.cl["adds"] = ()
            if ev is None:
                return ()
            kind = ev
            if kind == "text":
                return (lx("tok", "c"),)
            if kind == "end":
                return (mk("chr", P("pay:end")),)
            if kind in ("hexesc", "octesc", "chresc"):
                return (mk("chr", P("pay:" + kind)),)
            if kind in ("uni4", "uni8"):
                return (mk("utf8", P("pay:" + kind)),)
            return None

        comp = self.string_adt

        def onnext(c, eng, st):
            ev = st.cl.get("ev")
            if ev == "error":
                self.merged(eng, st, key)
            if st.cl.get("err"):
                return []           # the file is rejected
            if ev is not None:
                self.stats["obligations"] += 1
                if ev == "error":
                    self.report(("P14",), "string:error", "an invalid character or escape in a string is accepted", key)
                    return []
                if ev == "eof":
                    self.undecided("string: goes on after the end")
                    return []
                want = settle(c, eng, st, "next")
                if ev == "end":
                    t = eng.truth(st, self.same_quote(eng, st))
                    if t is True:
                        self.report(("P14",), "string:end", "a string goes on after its closing quote", key)
                        return []
                if not self.accumulate(c, eng, st, want, key, "string"):
                    return []
            return self.fork(c, eng, st, kinds, comp, ["error", "eof"])

        outs, c, eng = self.run_cb(key, extra, {"m": Lang(tref, "quote")}, "string", onnext)
        if outs is None:
            return
        self.panics(c, "string")
        for st, v in self.results(outs, how, eng):
            if st.cl.get("err"):
                continue
            if v is None:
                self.report(("P14",), "string:reject", "a string literal is rejected without an error", key)
                continue
            ev = st.cl.get("ev")
            if ev == "end":
                t = eng.truth(st, self.same_quote(eng, st))
                if t is False:
                    self.report(("P14",), "string:other", "a string ends at the other kind of quote", key)
                elif t is None:
                    self.undecided("string: the condition on which it ends")
            elif ev in ("eof", "error", None):
                self.report(("P14",), "string:%s" % ev, "a string without closing quote is accepted" if ev == "eof" else "an invalid string is accepted", key)
                continue
            else:
                self.report(("P14",), "string:cut", "a string ends after a component that is not its closing quote (%s)" % ev, key)
                continue
            self.final(c, st, v, key, "string")
            b = st.cl.get("bump", ())
            if b != (lx("end", "c"),):
                if all(x.k in ("p", "i", "add") for x in b):
                    self.report(("P14",), "string:bump", "after a string literal the text goes on at %s" % (show(b),), key)
                else:
                    self.undecided("string: advances by %s" % show(b)[:80])

    def same_quote(self, eng, st):
        x, y = P("pay:end"), mk("tb", "m", 0)
        b = eng.eq(st, x, y, "u8")
        if eng.truth(st, b) is None:
            rx, ry = eng.rng(st, x, "u8"), eng.rng(st, y, "u8")
            if len(rx) == 1 and rx == ry and rx[0][0] == rx[0][1]:
                return TRUE
            if not rs_and(rx, ry):
                return FALSE
        return b

    def fork(self, c, eng, st, kinds, comp, more):
        """the next component"""
        for f in list(st.facts):
            if any(t.k == "p" and (t.a[0].endswith("c") and t.a[0][:-1] in ("tok", "rem", "start", "end") or t.a[0].startswith("pay:"))
                   for t in subs(f)):
                del st.facts[f]
        st.cl.pop("remc", None)
        out = []
        vs = [v["name"] for v in self.prog.adt_path[comp]["variants"]]
        for kind, name, how in kinds:
            s2 = st.clone()
            s2.cl["ev"] = kind
            vi = vs.index(name)
            nf = len(self.prog.adt_path[comp]["variants"][vi]["fields"])
            pay = (lx("tok", "c") if kind == "text" else P("pay:" + kind),)[:nf]
            if kind == "end" and nf:
                s2.facts[pay[0]] = ((34, 34), (39, 39))
            out.append((s2, some(ok(A(comp, vi, pay)))))
        for m in more:
            s2 = st.clone()
            s2.cl["ev"] = m
            out.append((s2, some(err(UNIT)) if m == "error" else NONE))
        return out

    def accumulate(self, c, eng, st, want, key, role):
        """checks that the collected text grew by `want` since the last component, and forgets what it was"""
        acc = mk("acc", role)
        base = acc if st.cl.get("n") else P("nil")
        found = set()

        def go(v):
            if v is None:
                return None
            if v.k == "seq" or v is acc:
                found.add(v)
                return acc
            if v.k == "A" and v.a[0] == COW:
                ct = c.content(v)
                if ct is not None and (ct[1] or ct[0] is acc):
                    found.add(mk("seq", ct[0], ct[1]))
                    return A(COW, 1, (acc,))
                return v
            if v.k == "A":
                return A(v.a[0], v.a[1], [go(x) for x in v.a[2]])
            return v

        for fr in st.frames:
            lv = fr.body.live.get(fr.blk, ()) if fr is st.frames[-1] else None
            for i, v in enumerate(fr.locals):
                if v is not None and (acc in subs(v) or any(x.k == "seq" for x in subs(v)) or v.k == "A"):
                    if v.k == "R":
                        continue
                    w = go(v)
                    fr.locals[i] = w
        for r, v in list(st.heap.items()):
            if v is not None and any(x.k in ("seq", "acc") for x in subs(v)):
                st.heap[r] = go(v)
        got = {(acc, ()) if v is acc else (v.a[0], v.a[1]) for v in found}
        target = (base, want)
        if want == () and not st.cl.get("n"):
            ok_ = not got or got <= {(P("nil"), ())}
        else:
            ok_ = target in got
        if not ok_:
            if not got and (want or st.cl.get("n")) or any(x.k in ("havoc", "call") for fr in st.frames for v in fr.locals if v is not None for x in subs(v)):
                self.undecided("%s: what %s adds" % (role, st.cl.get("ev")))
                return False
            if all(self.plain(x) for g in got for x in g[1]):
                what = "; ".join(show(g[1]) for g in sorted(got, key=show)) or "nothing"
                self.report(("P14", "P04") if role == "comment" else ("P14",), "%s:collect:%s" % (role, st.cl.get("ev")),
                            "in a %s, %s adds %s instead of %s" % (role, st.cl.get("ev"), what, show(want)), key)
            else:
                self.undecided("%s: collects %s" % (role, show(sorted(got, key=show))[:120]))
            return False
        if want or st.cl.get("n"):
            st.cl["n"] = 1
        return True

    def plain(self, x):
        return x.k in ("p", "chr", "s", "text", "utf8", "i")

    def final(self, c, st, v, key, role):
        n = st.cl.get("n")
        norm = False
        while True:
            if v.k == "A" and v.a[0] == COW:
                v = v.a[2][0]
            elif v.k == "sfn" and v.a[0] == "replace" and v.a[2] is S("\r\n") and v.a[3] is S("\n"):
                v, norm = v.a[1], True
            else:
                break
        ct = c.content(v)
        want = (mk("acc", role), ()) if n else (P("nil"), ())
        if ct != want:
            if ct is not None:
                self.report(("P14", "P04") if role == "comment" else ("P14",), role + ":value", "a %s has the value %s instead of what was collected" % (role, show(v)[:80]), key)
            else:
                self.undecided("%s: value %s" % (role, show(v)[:80]))
        return norm

    # ---- comments
    def normalised(self, c, st, v, norm, empty=False):
        """line ends are normalised: replaced, or known not to occur"""
        if norm:
            return True
        return any(f.k == "pred" and f.a[0] == "contains" and f.a[2] in (S("\r\n"), S("\r"), S("\n")) and x == ((0, 0),) for f, x in st.facts.items()) \
            or empty

    def line_comment(self, kind, val, how, ref):
        key, extra = val
        if key is None:
            self.undecided("comments without a callback")
            return
        outs, c, eng = self.run_cb(key, extra, {"m": Lang(ref, kind)}, kind)
        if outs is None:
            return
        self.panics(c, kind)
        for st, v in self.results(outs, how, eng):
            modes = {bool(x[0][0]) for f, x in st.facts.items() if P("lexer") in subs(f) and f.k == "f" and x in (((1, 1),), ((0, 0),))}
            if any(f.k == "f" and P("lexer") in subs(f) and x[0] != "S" and x not in (((1, 1),), ((0, 0),)) for f, x in st.facts.items()):
                modes |= {True}
            if kind == "hash" and not st.cl.get("err") and True not in modes:
                self.report(("P14", "P19"), "hash:mode", "a comment starting with # is accepted outside text format", key)
            if st.cl.get("err") and (kind == "comment" or True in modes):
                self.report(("P14",), kind + ":reject", "a valid comment is rejected", key)
            if v is None:
                continue
            norm = False
            while True:
                if v.k == "A" and v.a[0] == COW:
                    v = v.a[2][0]
                elif v.k == "sfn" and v.a[0] == "replace" and v.a[2] is S("\r\n") and v.a[3] is S("\n"):
                    v, norm = v.a[1], True
                else:
                    break
            n = 2 if kind == "comment" else 1
            o = c.text_of(v)
            if o is None and (v.k == "trim" or v.k == "sfn" and v.a[0].startswith("trim")):
                self.report(("P04",), kind + ":text", "the text of a line comment is trimmed", key)
            elif o is None:
                self.undecided("%s: text %s" % (kind, show(v)[:80]))
            elif o != ("m", "tok", n, 0):
                self.report(("P04",), kind + ":text", "the text of a line comment is its %s from byte %d on, without %d bytes at the end" % (o[1], o[2], o[3]), key)
            elif not self.normalised(c, st, v, norm):
                self.report(("P04",), kind + ":crlf", "line ends in a comment are not normalised", key)

    def block_comment(self, key, extra, how, comps, tref):
        kinds = sorted({(k, name, h) for k, vals in comps.items() for _, name, h in vals})
        comp = self.block_adt

        def onnext(c, eng, st):
            ev = st.cl.get("ev")
            if st.cl.get("err"):
                return []
            if ev is not None:
                self.stats["obligations"] += 1
                if ev == "end":
                    self.report(("P04", "P14"), "comment:end", "a block comment goes on after its end", key)
                    return []
                if ev == "start":
                    self.report(("P14",), "comment:nested", "a nested block comment is accepted", key)
                    return []
                if ev == "eof":
                    self.undecided("comment: goes on after the end of the file")
                    return []
                want = (S("\n"),) if ev == "newline" else (lx("tok", "c"),)
                self.after_newline(c, eng, st, key, ev)
                if not self.accumulate(c, eng, st, want, key, "comment"):
                    return []
            return self.fork(c, eng, st, kinds, comp, ["error", "eof"])

        outs, c, eng = self.run_cb(key, extra, {"m": Lang(tref, "block")}, "comment", onnext)
        if outs is None:
            return
        self.panics(c, "comment")
        for st, v in self.results(outs, how, eng):
            if st.cl.get("err"):
                continue
            ev = st.cl.get("ev")
            if ev != "end":
                self.report(("P14",), "comment:%s" % ev, "a block comment without end is accepted" if ev == "eof" else "a block comment ends at %s" % ev, key)
                continue
            if v is None:
                self.report(("P14",), "comment:reject", "a block comment is rejected without an error", key)
                continue
            norm = self.final(c, st, v, key, "comment")
            if not self.normalised(c, st, v, norm, not st.cl.get("n")):
                self.report(("P04",), "comment:crlf", "line ends in a comment are not normalised", key)
            b = st.cl.get("bump", ())
            if b != (lx("end", "c"),):
                if all(x.k in ("p", "i", "add") for x in b):
                    self.report(("P14", "P04"), "comment:bump", "after a block comment the text goes on at %s" % (show(b),), key)
                else:
                    self.undecided("comment: advances by %s" % show(b)[:80])

    def after_newline(self, c, eng, st, key, ev):
        """the indentation after a line end is dropped, and one asterisk after it"""
        r = st.cl.get("remc")
        star = slash = None
        base = lx("rem", "c")
        if ev != "newline":
            if r is not None:
                self.report(("P04",), "comment:skip", "text in a block comment is passed over", key)
            return
        if r is None:
            self.report(("P04",), "comment:indent", "the indentation of a line in a block comment is kept", key)
            return
        bumped = None
        t = r
        if t.k == "after":
            bumped, t = t.a[1], t.a[0]
        if t.k != "trim" or t.a[0] is not base:
            self.undecided("comment: after a line end %s" % show(r)[:80])
            return
        rs = t.a[1]
        if rs_and(rs, ((10, 10),)):
            self.report(("P04",), "comment:blank", "blank lines in a block comment are dropped", key)
        elif rs_and(((9, 9), (32, 32)), rs_not(rs)):
            self.report(("P04",), "comment:indent", "the indentation of a line in a block comment is kept", key)
        elif rs_and(rs, rs_not(WHITE)):
            self.report(("P04",), "comment:indent", "more than white space is dropped at the start of a line in a block comment", key)
        for f, x in st.facts.items():
            if f.k == "pred" and f.a[0] == "starts_with" and f.a[1] is t:
                if f.a[2] is S("*"):
                    star = x == ((1, 1),)
                elif f.a[2] is S("*/"):
                    slash = x == ((1, 1),)
        drop = star is True and slash is False
        keep = star is False or slash is True
        if not drop and not keep:
            if bumped is not None or star is None and slash is None:
                self.report(("P04",), "comment:star", "the asterisk at the start of a line in a block comment is treated wrongly", key)
            else:
                self.undecided("comment: the asterisk at the start of a line")
        elif drop and bumped is not I(1) or keep and bumped is not None:
            self.report(("P04",), "comment:star", "at the start of a line in a block comment that %s, %s is dropped" % (
                "starts with *" if drop else "does not start with * or ends there", "nothing" if bumped is None else show(bumped)), key)


def analyse(prog):
    viol, und = [], []
    L = Lex(prog, viol, und)
    entries = {}
    for k in lines_of(prog):
        m = re.match(r"<([\w:]+)", k)
        if m and m.group(1) in prog.adt_path:
            entries[m.group(1)] = k
    props = ("P14",)
    if TOKEN not in entries:
        L.report(props, "no-lexer", "the generated recogniser of tokens was not found")
        return L
    got, ref = L.recogniser(entries[TOKEN], TOKEN_LANG, "lexer", VARIANT, props)
    if got is None:
        return L
    L.samples = ["%s: %s" % (k, ", ".join("%s via %s%s" % (n, v[0] or "no callback", v[1] if v[0] else "") for v, n, h in sorted(vs, key=str)))
                 for k, vs in sorted(got.items())]
    for kind in ("zero", "octal", "decimal", "hex", "badnum", "float", "floatf"):
        for val, name, how in sorted(got.get(kind, ()), key=str):
            L.number(kind, val, how, ref)
    for val, name, how in got.get("ident", ()):
        if val != (None, ("slice",)):
            L.undecided("identifiers: %s" % (val,))
    for kind in ("comment", "hash"):
        for val, name, how in sorted(got.get(kind, ()), key=str):
            L.line_comment(kind, val, how, ref)
    for kind, lang, role in (("quote", STRING_LANG, "string"), ("block", BLOCK_LANG, "comment")):
        for val, name, how in sorted(got.get(kind, ()), key=str):
            if val[0] is None:
                L.undecided("%s without a callback" % kind)
                continue
            comp = component(prog, val[0], entries)
            if comp is None:
                L.undecided("%s: no component lexer" % kind)
                continue
            cg, cref = L.recogniser(entries[comp], lang, role + " lexer", None, props, greedy=("text", "end") if kind == "quote" else ("end",))
            if cg is None:
                continue
            if kind == "quote":
                L.string_adt = comp
                L.escapes(cg, cref)
                L.string(val[0], val[1], how, cg, ref)
            else:
                L.block_adt = comp
                L.block_comment(val[0], val[1], how, cg, ref)
    return L


def component(prog, key, entries):
    """the token type of the lexer a callback runs over the rest of the text"""
    todo, seen = [key], set()
    while todo:
        k = todo.pop()
        if k in seen or k not in prog.bodies:
            continue
        seen.add(k)
        b = prog.bodies[k]
        b.prep()
        for l in b.locals:
            m = re.match(r"logos::Lexer<'_, ([\w:]+)", b.crate.types[l]["s"])
            if m and m.group(1) in entries and m.group(1) != TOKEN:
                return m.group(1)
        for bl in b.blocks:
            if bl and bl[1][0] == "call" and bl[1][1][0] == "k":
                f = bl[1][1][1].get("fn") or {}
                if f.get("local") and " as logos::Logos<" not in f.get("key", ""):
                    todo.append(f["key"])
    return None
