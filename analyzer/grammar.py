"""The protobuf language as this compiler documents it: one regular expression per construct (over tokens and other
constructs), the place in the syntax tree each part goes to, and where its comments are taken.

Choices are made as protoc's recursive-descent parser makes them: with one token of lookahead, a keyword that starts
an alternative winning over a plain identifier.  The machine below follows a code path letter by letter: `advance`
consumes a token, `advance_nt` a construct parsed by a function of its own; constructs that the code parses in line
are entered and left on the way, so it does not matter how the code is divided into functions."""
from ai import *
from gen import AST

SCALARS = ["double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
           "sfixed32", "sfixed64", "bool", "string", "bytes"]


class Leaf:
    __slots__ = ("kind", "name", "role", "lst", "wrap", "trail", "check", "i")

    def __init__(self, kind, name, role=None, lst=None, wrap=None, trail=False, check=None):
        self.kind, self.name, self.role, self.lst, self.wrap, self.trail, self.check = kind, name, role, lst, wrap, trail, check

    def __repr__(self):
        return {"t": "%s", "kw": "'%s'", "id": "identifier", "n": "<%s>"}[self.kind] % (() if self.kind == "id" else self.name)


def t(n, role=None, **k):
    return ("leaf", ("t", n, role, k))


def kw(n, role=None, **k):
    return ("leaf", ("kw", n, role, k))


def ident(role=None, **k):
    return ("leaf", ("id", "", role, k))


def n(name, role=None, **k):
    return ("leaf", ("n", name, role, k))


def seq(*xs):
    return ("seq", xs)


def alt(*xs):
    return ("alt", xs)


def star(*xs):
    return ("star", seq(*xs))


def opt(*xs):
    return ("opt", seq(*xs))


def rules():
    R = {}
    semi = t("Semicolon")
    item = [semi, n("Import", lst="imports"), n("Option", lst="options")] + [
        n(x, lst="items", wrap=("FileItem", x)) for x in ("Message", "Enum", "Service", "Extend")]
    R["File"] = seq(opt(n("Syntax", "syntax")), star(alt(*item)), opt(n("Package", "package"), star(alt(*item))))
    R["Syntax"] = seq(kw("syntax"), t("Equals"), n("String", "value"), t("Semicolon", trail=True))
    R["Import"] = seq(kw("import"), opt(alt(kw("weak", "weak"), kw("public", "public"))),
                      n("Utf8String", "value", check="import"), t("Semicolon", trail=True))
    R["Package"] = seq(kw("package"), n("FullIdent", "name"), t("Semicolon", trail=True))
    R["Message"] = seq(kw("message"), ident("name"), t("LeftBrace", trail=True), n("Body", "body"))
    mi = [n(x, lst="items", wrap=("MessageItem", x)) for x in ("Oneof", "Enum", "Message", "Extend", "Field")]
    R["Body"] = seq(star(alt(semi, n("Option", lst="options"), n("Reserved", lst="reserved"),
                             n("Extensions", lst="extensions"), *mi)), t("RightBrace", "end"))
    tail = [ident("name"), t("Equals"), n("Int", "number"), opt(n("OptionList", "options"))]
    R["Field"] = seq(
        opt(alt(kw("optional", "optional"), kw("required", "required"), kw("repeated", "repeated"))),
        alt(seq(kw("map", "map"), t("LeftAngleBracket"), n("Type", "key"), t("Comma"), n("Type", "val"),
                t("RightAngleBracket", "mapend"), *tail, t("Semicolon", trail=True)),
            seq(kw("group", "group"), ident("name", check="group"), *tail[1:], t("LeftBrace", trail=True), n("Body", "body")),
            seq(n("Type", "ty"), *tail, t("Semicolon", trail=True))))
    R["Extend"] = seq(kw("extend"), n("TypeName", "extendee"), t("LeftBrace", trail=True),
                      star(alt(semi, n("Field", lst="fields"))), t("RightBrace"))
    R["Service"] = seq(kw("service"), ident("name"), t("LeftBrace", trail=True),
                       star(alt(semi, n("Method", lst="methods"), n("Option", lst="options"))), t("RightBrace"))
    R["Method"] = seq(kw("rpc"), ident("name"), t("LeftParen"), opt(kw("stream", "cs")), n("TypeName", "input"),
                      t("RightParen"), kw("returns"), t("LeftParen"), opt(kw("stream", "ss")), n("TypeName", "output"),
                      t("RightParen"),
                      alt(t("Semicolon", trail=True),
                          seq(t("LeftBrace", trail=METHOD_BRACE_TRAIL), star(alt(semi, n("Option", lst="options"))),
                              t("RightBrace", trail=not METHOD_BRACE_TRAIL))))
    R["Enum"] = seq(kw("enum"), ident("name"), t("LeftBrace", trail=True),
                    star(alt(semi, n("Option", lst="options"), n("Reserved", lst="reserved"), n("EnumValue", lst="values"))),
                    t("RightBrace"))
    R["EnumValue"] = seq(ident("name"), t("Equals"), n("Int", "number"), opt(n("OptionList", "options")),
                         t("Semicolon", trail=True))
    R["Oneof"] = seq(kw("oneof"), ident("name"), t("LeftBrace", trail=True),
                     star(alt(semi, n("Option", lst="options"), n("Field", lst="fields"))), t("RightBrace"))
    R["Type"] = alt(n("TypeName", "name"), *[kw(s, "kw:" + s) for s in SCALARS])
    R["Reserved"] = seq(kw("reserved"), alt(
        seq(n("Range", lst="ranges"), star(t("Comma"), n("Range", lst="ranges"))),
        seq(n("Utf8String", lst="names", wrap="identstr", check="ident"),
            star(t("Comma"), n("Utf8String", lst="names", wrap="identstr", check="ident")))), t("Semicolon", trail=True))
    R["Extensions"] = seq(kw("extensions"), n("Range", lst="ranges"), star(t("Comma"), n("Range", lst="ranges")),
                          opt(n("OptionList", "options")), t("Semicolon", trail=True))
    R["Range"] = seq(n("Int", "start"), opt(kw("to"), alt(n("Int", "end"), kw("max", "max"))))
    R["OptionList"] = seq(t("LeftBracket"), n("OptionBody", lst="options"), star(t("Comma"), n("OptionBody", lst="options")),
                          t("RightBracket"))
    R["Option"] = seq(kw("option"), n("OptionBody", "body"), t("Semicolon", trail=True))
    R["OptionBody"] = seq(n("NamePart", lst="name"), star(t("Dot"), n("NamePart", lst="name")), t("Equals"), alt(
        seq(t("Minus", "minus"), alt(ident("ident"), t("IntLiteral", "int"), t("FloatLiteral", "float"))),
        ident("ident"), t("IntLiteral", "int"), t("FloatLiteral", "float"), n("String", "string"),
        seq(t("LeftBrace", "lb"), n("Text", "text"), t("RightBrace", "rb"))))
    R["NamePart"] = alt(ident("ident"), seq(t("LeftParen", "lp"), n("TypeName", "name"), t("RightParen", "rp")))
    R["TypeName"] = seq(opt(t("Dot", "dot")), n("FullIdent", "name"))
    R["FullIdent"] = seq(ident(lst="parts", wrap="ident"), star(t("Dot"), ident(lst="parts", wrap="ident")))
    R["Int"] = seq(opt(t("Minus", "minus")), t("IntLiteral", "int"))
    R["String"] = seq(t("StringLiteral", lst="bytes", wrap="strtok"), star(t("StringLiteral", lst="bytes", wrap="strtok")))
    R["Utf8String"] = n("String", "s")
    R["Text"] = seq()
    return R


METHOD_BRACE_TRAIL = True

# constructs whose comments are recorded; the comments before them are theirs
COMMENTED = ("Import", "Package", "Message", "Field", "Extend", "Service", "Method", "Enum", "EnumValue", "Oneof",
             "Reserved", "Extensions", "Option", "Syntax")


class Rule:
    """Glushkov automaton of a rule"""

    def __init__(self, name, r):
        self.name = name
        self.leaves = []
        self.follow = {}
        self.nullable, self.first, self.last = self.build(r)

    def build(self, r):
        k = r[0]
        if k == "leaf":
            kind, nm, role, kws = r[1]
            lf = Leaf(kind, nm, role, **kws)
            lf.i = len(self.leaves)
            self.leaves.append(lf)
            self.follow[lf.i] = set()
            return False, [lf.i], [lf.i]
        if k == "seq":
            nul, first, last = True, [], []
            for x in r[1]:
                n2, f2, l2 = self.build(x)
                for a in last:
                    self.follow[a] |= set(f2)
                if nul:
                    first = first + f2
                last = (last + l2) if n2 else l2
                nul = nul and n2
            return nul, first, last
        if k == "alt":
            nul, first, last = False, [], []
            for x in r[1]:
                n2, f2, l2 = self.build(x)
                nul, first, last = nul or n2, first + f2, last + l2
            return nul, first, last
        n2, f2, l2 = self.build(r[1])
        if k == "star":
            for a in l2:
                self.follow[a] |= set(f2)
        return True, f2, l2

    def nexts(self, pos):
        return sorted(self.first) if pos < 0 else sorted(self.follow[pos])

    def accepting(self, pos):
        return self.nullable if pos < 0 else pos in self.last


class Grammar:
    def __init__(self, kinds):
        self.R = {k: Rule(k, r) for k, r in rules().items()}
        self.kws = set()
        for r in self.R.values():
            for lf in r.leaves:
                if lf.kind == "kw":
                    self.kws.add(lf.name)
        self.classes = [k for k in kinds if k != "Ident"] + ["Ident:" + k for k in sorted(self.kws)] + ["Ident:*"]
        self.firstc = {}
        ch = True
        self.firstc = {k: {} for k in self.R}
        while ch:
            ch = False
            for k, r in self.R.items():
                for i in r.first:
                    for c, s in self.leaf_first(r.leaves[i]).items():
                        if self.firstc[k].get(c, 0) < s:
                            self.firstc[k][c] = s
                            ch = True
        for k, r in self.R.items():
            for pos in [-1] + list(range(len(r.leaves))):
                for c in self.classes:
                    self.choose(k, pos, c)

    def leaf_first(self, lf):
        if lf.kind == "t":
            return {lf.name: 2}
        if lf.kind == "kw":
            return {"Ident:" + lf.name: 2}
        if lf.kind == "id":
            return {"Ident": 1}
        return self.firstc[lf.name]

    def match(self, lf, c):
        f = self.leaf_first(lf)
        s = f.get(c, 0)
        if not s and c.startswith("Ident:"):
            s = f.get("Ident", 0)
        return s

    def choose(self, unit, pos, c):
        """the alternative the token class c selects"""
        r = self.R[unit]
        best, bs = None, 0
        for i in r.nexts(pos):
            s = self.match(r.leaves[i], c)
            if s > bs:
                best, bs = i, s
            elif s and s == bs:
                raise AssertionError("ambiguous grammar: %s at %s" % (unit, c))
        return None if best is None else r.leaves[best]

    def first(self, unit):
        out = set()
        for c in self.classes:
            f = self.firstc[unit]
            if f.get(c) or c.startswith("Ident:") and f.get("Ident"):
                out.add(c)
        return out


class Fr:
    """progress in one construct (immutable)"""
    __slots__ = ("unit", "pos", "env", "lists", "first", "last", "cm")

    def __init__(self, unit, pos=-1, env=(), lists=(), first=None, last=None, cm=()):
        self.unit, self.pos, self.env, self.lists, self.first, self.last, self.cm = unit, pos, env, lists, first, last, cm

    def key(self):
        return (self.unit, self.pos, self.env, self.lists, self.first, self.last, self.cm)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return type(o) is Fr and self.key() == o.key()

    def with_(self, **k):
        f = Fr(*self.key())
        for a, b in k.items():
            setattr(f, a, b)
        return f

    def get(self, role):
        for r, v, c in self.env:
            if r == role:
                return v
        return None

    def cls(self, role):
        for r, v, c in self.env:
            if r == role:
                return c
        return None

    def list(self, name):
        for l, pend, vid, cnt in self.lists:
            if l == name:
                return (pend, vid, cnt)
        return ((), None, False)

    def setlist(self, name, pend, vid, cnt):
        ls = tuple(x for x in self.lists if x[0] != name) + ((name, pend, vid, cnt),)
        return self.with_(lists=tuple(sorted(ls, key=lambda x: x[0])))

    def map(self, fn):
        """applies fn to the terms"""
        return Fr(self.unit, self.pos, tuple((r, fn(v), c) for r, v, c in self.env),
                  tuple((l, tuple(fn(x) for x in p), vid and fn(vid), c) for l, p, vid, c in self.lists),
                  self.first and fn(self.first), self.last and fn(self.last), tuple((k, fn(v), w) for k, v, w in self.cm))
