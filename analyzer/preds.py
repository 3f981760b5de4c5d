"""The string predicates and small string functions of the parser crate, decided as languages: which characters may come first and
later (identifiers, group names), which path components an import may have, how a name is turned into a map entry's name; and the
resolution of byte offsets into lines and columns."""
from ai import *
import models as M
from roots import RC
from lang import Alphabet

ALPHA = ((65, 90), (97, 122))
DIGIT = ((48, 57),)
US = ((95, 95),)
REST = rs_or(rs_or(ALPHA, DIGIT), US)
LANG = {"ident": (rs_or(ALPHA, US), REST), "group": (((65, 90),), REST)}
STRIP = ("as_bytes", "as_str", "bytes", "chars", "iter", "copied", "cloned", "as_ref", "deref", "into_iter", "to_owned")
S0 = P("s")


def subset(a, b):
    return not rs_and(a, rs_not(b))


def strip(t):
    """(kind, what) of a collection derived from the string"""
    k = 0
    while True:
        if t is S0:
            return k
        if t.k == "call" and t.a[0].split("::")[-1] in STRIP and t.a[1]:
            t = t.a[1][0]
        elif t.k in STRIP and t.a and type(t.a[0]) is N:
            t = t.a[0]
        elif t.k == "slice" and t.a[1].k == "i" and t.a[2] is I(0):
            k += t.a[1].a[0]
            t = t.a[0]
        elif t.k == "skip" and len(t.a) > 1 and type(t.a[1]) is N and t.a[1].k == "i":
            k += t.a[1].a[0]
            t = t.a[0]
        else:
            return None


def pos(t):
    if t.k == "old":
        return None
    if t.k == "at" and t.a[1].k == "i" and strip(t.a[0]) is not None:
        return ("at", strip(t.a[0]) + t.a[1].a[0])
    if t.k == "elem" and strip(t.a[0]) is not None:
        return ("ge", strip(t.a[0]))
    return None


class PredC(RC):
    def __init__(self, role):
        super().__init__({})
        self.role = role
        self.done = []            # what each accepted element is known to be

    def first(self, eng, st, coll):
        if self.role == "import" or strip(coll) is None:
            return None
        out = []
        s2 = st.clone()
        ln = mk("len", coll)
        if eng.narrow(s2, ln, ((0, 0),)):
            self.exhausted(eng, s2, coll)
            out.append((s2, None))
        if eng.narrow(st, ln, ((1, INF),)):
            st.cl["at0"] = coll
            out.append((st, mk("at", coll, I(0))))
        return out

    def elem(self, eng, st, coll, e):
        st.cl["at0"] = None

    def item_done(self, eng, st, coll, e):
        if st.cl.get("at0") is coll:
            e = mk("at", coll, I(0))
            if strip(coll) == 0:
                return              # looked at on its own
        if self.role == "import":
            fs = {f: v for f, v in st.facts.items() if f is e or e in subs(f)}
            new = (coll, e, fs, frozenset(x for x in st.cl.get("exh", ()) if e in subs(x)))
            if new not in self.done:
                self.done.append(new)
            return
        self.done.append((coll, e, eng.rng(st, e, "u8")))
        st.cl["done"] = st.cl.get("done", frozenset()) | {coll}

    def exhausted(self, eng, st, coll):
        st.cl["exh"] = st.cl.get("exh", frozenset()) | {coll}

    def clkey(self, st):
        return (st.cl.get("exh"), st.cl.get("done"), st.cl.get("at0"))


def check(prog, key, role, report, undecided):
    """the function accepts exactly the strings of its role"""
    c = PredC(role)
    eng = Eng(prog, c, max_steps=200_000)
    props = ("P12",) if role == "import" else ("P15",)
    b = prog.bodies[key]
    nm = M.norm_path(b.path).split("::")[-1]
    try:
        outs = eng.run(b, [S0], {}, {}, {})
    except (Budget, Unsupported) as x:
        undecided("%s: %s" % (nm, x))
        return 0
    if c.panics:
        report(props + ("P07",), role + ":panic", "a panic can be reached in the check of %s: %s" % (role, c.panics[0][0]), c.panics[0][1])
    obl = 0
    every = []
    for st, v in outs:
        obl += 1
        # a returned condition is both outcomes
        cases = []
        for truth in (1, 0):
            s = st.clone()
            if v.k == "i":
                if v.a[0] != truth:
                    continue
            elif not eng.assume(s, v, bool(truth)):
                continue
            cases.append((s, truth))
        every += cases
        for s, truth in cases if role != "import" else ():
            r = ident_case(eng, s, truth, c, role)
            if r is None:
                continue
            kind, why = r
            if kind == "?":
                undecided("%s: %s" % (nm, why))
            else:
                report(props, "%s:%s" % (role, kind), "%s %s" % (nm, why), nm)
    if role == "import":
        import_check(eng, every, c, report, undecided, nm)
        obl += len(c.done)
    return obl


def facts_text(st):
    return ", ".join("%s=%s" % (show(f)[:40], v) for f, v in list(st.facts.items())[:6])


def ident_case(eng, st, truth, c, role):
    F, R = LANG[role]
    known, unknown = [], []
    empty = nonempty = False
    for f, v in st.facts.items():
        if f is S0:
            if v[0] == "S":
                empty = empty or v[1] == ""
                nonempty = nonempty or "" in v[2]
            continue
        p = pos(f)
        if p is not None and v[0] != "S":
            known.append((p, v))
        elif f.k == "len" and strip(f.a[0]) is not None:
            if strip(f.a[0]) == 0:
                empty = empty or v == ((0, 0),)
                nonempty = nonempty or v[0][0] >= 1
        elif S0 in subs(f):
            unknown.append(f)
    allowed = lambda p: F if p == ("at", 0) else R
    if not truth:
        if empty or any(not rs_and(v, allowed(p)) for p, v in known):
            return None
        if unknown:
            return ("?", "a rejection depends on %s" % show(unknown[0])[:80])
        return ("rejects", "rejects a valid %s name (%s)" % (role, facts_text(st)))
    if empty:
        return ("accepts", "accepts the empty string")
    first = [v for p, v in known if p == ("at", 0)]
    if not first:
        return ("?", "the first character's check is not recognised") if unknown or known or st.cl.get("exh") else \
            ("accepts", "accepts a string whose characters have not been looked at")
    if not any(subset(v, F) for v in first):
        return ("accepts", "accepts a first character in %s" % (rs_and(first[0], rs_not(F)),))
    colls = [(x, strip(x)) for x in st.cl.get("exh", ())]
    good = [x for x, k in colls if k is not None and k <= 1]
    if not good:
        one = any(f.k == "len" and strip(f.a[0]) == 0 and v == ((1, 1),) or f.k == "len" and strip(f.a[0]) == 1 and v == ((0, 0),)
                  for f, v in st.facts.items())
        if one:
            return None
        if [x for x, k in colls if k is None] or unknown:
            return ("?", "the remaining characters' check is not recognised")
        return ("accepts", "accepts without looking at every remaining character")
    for coll, e, r in c.done:
        k = strip(coll)
        if k is not None and not subset(r, R):
            return ("accepts", "accepts a later character in %s" % (rs_and(r, rs_not(R)),))
    return None


class Unknown(Exception):
    pass


def mentioned(t):
    """the characters a term names"""
    if type(t) is tuple:
        return set().union(*map(mentioned, t))
    if type(t) is not N:
        return set()
    if t.k == "s":
        return set(t.a[0])
    if t.k == "i":
        return {chr(t.a[0])} if 32 <= t.a[0] < 127 else set()
    return mentioned(t.a)


class Langs:
    """the language of the strings for which an outcome of the check is possible, from what is known on its paths"""

    def __init__(self, eng, c, cases):
        self.eng = eng
        chars = set("/.\\a ")
        for st, _ in cases:
            for f in list(st.facts) + [x for a in c.done for x in a[2]] + list(st.cl.get("exh", ())):
                chars |= mentioned(f)
            for v in st.facts.values():
                if v[0] == "S":
                    for w in ([v[1]] if v[1] else []) + list(v[2]):
                        chars |= set(w)
        if len(chars) > 24:
            raise Unknown("too many different characters")
        self.al = Alphabet(chars)
        self.done = {}
        for coll, e, facts, exh in c.done:
            self.done.setdefault(coll, []).append((e, facts, exh))
        al = self.al
        part = al.minus(al.not_(al.or_(al.word(""), al.word("."), al.word(".."))), al.contains("\\"))
        self.spec = al.split_all(part, "/")

    def pat(self, x):
        if type(x) is N and x.k == "s":
            return x.a[0]
        if type(x) is N and x.k == "i":
            return chr(x.a[0])
        raise Unknown

    def coll(self, t):
        """(kind, string, separator, how many, first one looked at, how many looked at)"""
        nm, a = t.k, t.a
        if t.k == "call":
            nm, a = t.a[0].split("::")[-1], t.a[1]
        if nm in ("split", "rsplit", "split_terminator", "splitn", "rsplitn"):
            n = None
            if nm.endswith("splitn"):
                if a[1].k != "i" or not 1 <= a[1].a[0] <= 64:
                    raise Unknown
                n, a = a[1].a[0], (a[0], a[2])
            p = self.pat(a[1])
            if len(p) != 1:
                raise Unknown
            return (nm, a[0], p, n, 0, None)
        if nm in ("chars", "bytes"):
            return ("chars", a[0], None, None, 0, None)
        if t.k in ("slice", "skip") and (t.k == "skip" or a[2] is I(0)) and type(a[1]) is N and a[1].k == "i":
            k, s, p, n, lo, hi = self.coll(a[0])
            if hi is not None or a[1].a[0] > 16:
                raise Unknown
            return (k, s, p, n, lo + a[1].a[0], hi)
        if t.k == "part" and a[1] == "take" and a[2].k == "i" and a[2].a[0] <= 64:
            k, s, p, n, lo, hi = self.coll(a[0].a[1] if a[0].k == "it" else a[0])
            if hi is not None:
                raise Unknown
            return (k, s, p, n, lo, a[2].a[0])
        if nm in ("components", "iter", "as_path"):
            x = a[0]
            while x.k == "call" and x.a[0].split("::")[-1] in ("components", "new", "as_ref", "as_path", "iter") and len(x.a[1]) == 1:
                if x.a[0].split("::")[-1] == "new":
                    return ("path", x.a[1][0], "/", None, 0, None)
                x = x.a[1][0]
            raise Unknown
        if nm in STRIP and a and type(a[0]) is N:
            return self.coll(a[0])
        raise Unknown

    def forall(self, root, t, E, facts):
        """the strings at the root for which every element of the collection is in E"""
        al = self.al
        k, s, p, n, lo, hi = self.coll(t)
        heads = [al.all()] * lo
        rest = E
        if hi is not None:
            heads, rest = heads + [E] * hi, al.all()
        if k == "chars":
            one = al.length(((1, 1),))
            r = al.star(al.and_(rest, one))
            for h in reversed(heads):
                r = al.or_(al.word(""), al.cat(al.and_(h, one), r))
        elif k == "path":
            # std::path: empty components and "." are dropped, but for a "." that comes first; a leading '/' is a component
            if heads:
                raise Unknown
            r = al.split_seq([al.or_(E, al.word(""))], al.or_(E, al.word(""), al.word(".")), p)
            if al.empty(al.and_(E, al.word("/"))):
                r = al.minus(r, al.starts("/"))
        elif k == "split" or k == "rsplit" and not heads:
            r = al.split_seq(heads, rest, p)
        elif k == "rsplit":
            r = al.rev(al.split_seq([al.rev(h) for h in heads], al.rev(rest), p))
        elif k == "split_terminator":
            # what is left after the last separator is not an element when it is empty
            w = al.split_seq(heads, rest, p)
            r = al.or_(al.word(""), al.cat(w, al.word(p)), al.minus(w, al.or_(al.word(""), al.ends(p))))
        else:
            hs = (heads + [rest] * n)[:n]
            if k == "splitn":
                r = al.splitn_seq(hs[:-1], hs[-1], p)
            else:
                r = al.rev(al.splitn_seq([al.rev(h) for h in hs[:-1]], al.rev(hs[-1]), p))
        return self.lift(root, s, r, facts)

    def lift(self, root, t, E, facts, exh=()):
        """the strings at the root for which t is in E"""
        al = self.al
        if t is root:
            return E
        if t.k == "call" and t.a[0].split("::")[-1] in STRIP and t.a[1]:
            return self.lift(root, t.a[1][0], E, facts, exh)
        if t.k == "f" and t.a[2] == 0 and (t.a[1] == 4 or t.a[1] == 1 and t.a[0].k == "call" and t.a[0].a[0].split("::")[-1] == "to_str"):
            return self.lift(root, t.a[0], E, facts, exh)
        if t.k == "call" and len(t.a[1]) == 1 and t.a[0].split("::")[-1] in ("to_str", "to_string_lossy", "as_os_str"):
            return self.lift(root, t.a[1][0], E, facts, exh)
        if t.k == "stripped":
            p = self.pat(t.a[1])
            for nm in ("starts_with", "ends_with"):
                if facts.get(mk("pred", nm, *t.a)) == ((1, 1),):
                    w = al.word(p)
                    return self.lift(root, t.a[0], al.cat(w, E) if nm == "starts_with" else al.cat(E, w), facts, exh)
        if t.k == "sfn" and t.a[0].startswith("trim"):
            w = al.chars(lambda c: c == " ") if len(t.a) == 2 else al.word(self.pat(t.a[2]))
            one = al.and_(w, al.not_(al.word(""))) if len(t.a) == 2 else w
            if t.a[0] not in ("trim", "trim_matches", "trim_start", "trim_end", "trim_start_matches", "trim_end_matches"):
                raise Unknown
            many = al.star(one)
            if "end" not in t.a[0]:
                E = al.minus(E, al.cat(one, al.all()))
            if "start" not in t.a[0]:
                E = al.minus(E, al.cat(al.all(), one))
            if "end" not in t.a[0]:
                E = al.cat(many, E)
            if "start" not in t.a[0]:
                E = al.cat(E, many)
            return self.lift(root, t.a[1], E, facts, exh)
        if t.k == "elem":
            k, s, p, n, lo, hi = self.coll(t.a[0])
            if t.a[0] in exh or lo or hi is not None or k not in ("split", "rsplit", "chars"):
                return al.not_(self.forall(root, t.a[0], al.not_(E), facts))
            # the elements before it have been looked at
            D = self.passed(t.a[0], facts)
            if k == "chars":
                one = al.length(((1, 1),))
                r = al.cat(al.star(al.and_(D, one)), al.cat(al.and_(E, one), al.all()))
            else:
                c, fr = al.word(p), al.free(p)
                if k == "rsplit":
                    D, E = al.rev(D), al.rev(E)
                r = al.cat(al.star(al.cat(al.and_(D, fr), c)), al.cat(al.and_(E, fr), al.or_(al.word(""), al.cat(c, al.all()))))
                if k == "rsplit":
                    r = al.rev(r)
            return self.lift(root, s, r, facts, exh)
        raise Unknown

    def passed(self, coll, facts):
        """what the elements are that have been looked at without an outcome"""
        al = self.al
        r = al.none()
        for e, fs, exh in self.done.get(coll, ()):
            r = al.or_(r, self.conj(e, {f: v for f, v in fs.items() if f is e or e in subs(f)}, [x for x in exh if e in subs(x)]))
        return r

    def conj(self, root, facts, exh):
        al = self.al
        r = al.all()
        for f, v in facts.items():
            try:
                r = al.and_(r, self.fact(root, f, v, facts, exh))
            except (Unknown, OverflowError):
                pass
        for x in exh:
            try:
                r = al.and_(r, self.forall(root, x, self.passed(x, facts), facts))
            except (Unknown, OverflowError):
                pass
        return r

    def fact(self, root, f, v, facts, exh):
        al = self.al
        if v[0] == "S":
            E = al.all() if v[1] is None else al.word(v[1])
            for w in v[2]:
                E = al.minus(E, al.word(w))
            return self.lift(root, f, E, facts, exh)
        if f.k == "pred" and v in (((0, 0),), ((1, 1),)) and f.a[0] in ("starts_with", "ends_with", "contains"):
            p = self.pat(f.a[2])
            E = {"starts_with": al.starts, "ends_with": al.ends, "contains": al.contains}[f.a[0]](p)
            return self.lift(root, f.a[1], E if v == ((1, 1),) else al.not_(E), facts, exh)
        if f.k == "call" and f.a[0].split("::")[-1] == "is_absolute" or f.k == "is_absolute":
            x = f.a[1][0] if f.k == "call" else f.a[0]
            while x is not root and x.k == "call" and x.a[0].split("::")[-1] in ("new", "as_ref") and len(x.a[1]) == 1:
                x = x.a[1][0]
            E = al.starts("/")
            return self.lift(root, x, E if v == ((1, 1),) else al.not_(E), facts, exh)
        if f.k == "len":
            try:
                k, s, p, n, lo, hi = self.coll(f.a[0])
            except Unknown:
                return self.lift(root, f.a[0], al.length(v), facts, exh)
            if lo or hi is not None or n is not None or k == "split_terminator":
                raise Unknown
            if k == "chars":
                return self.lift(root, s, al.length(v), facts, exh)
            hi = max([a for a, b in v] + [b for a, b in v if b < 1000]) + 1
            if hi > 600:
                raise Unknown
            c = al.ix(p)
            E = al.det(1, lambda q, x: min(q + (x == c), hi), lambda q: any(a <= q <= b or q == hi and b >= hi for a, b in v))
            return self.lift(root, s, E, facts, exh)
        if f.k == "discr" and f.a[1].endswith("::Option") and v in (((0, 0),), ((1, 1),)) and f.a[0].k == "call" and \
                f.a[0].a[0].split("::")[-1] == "to_str":
            return al.all() if v == ((1, 1),) else al.none()
        if f.k == "discr" and f.a[1].endswith("path::Component"):
            named = al.or_(al.word("/"), al.word("."), al.word(".."), al.word(""))
            E = al.none()
            for i, x in ((1, al.word("/")), (2, al.word(".")), (3, al.word("..")), (4, al.not_(named))):
                if rs_and(v, ((i, i),)):
                    E = al.or_(E, x)
            return self.lift(root, f.a[0], E, facts, exh)
        if f.k == "elem" or f.k == "at":
            # a character
            E = al.and_(al.length(((1, 1),)), al.chars(lambda c: rs_and(((ord(c or "q"),) * 2,), v) != ()))
            return self.lift(root, f, E, facts, exh)
        raise Unknown

    def path(self, st):
        return self.conj(S0, st.facts, st.cl.get("exh", ()))


def import_check(eng, cases, c, report, undecided, nm):
    props = ("P12",)
    try:
        ls = Langs(eng, c, cases)
        al = ls.al
        yes, no = al.none(), al.none()
        for st, truth in cases:
            r = ls.path(st)
            if truth:
                yes = al.or_(yes, r)
            else:
                no = al.or_(no, r)
        both = al.and_(yes, no)
        w = al.example(al.minus(al.minus(yes, no), ls.spec))
        if w is not None:
            report(props, "import:accepts", "%s accepts the path %r" % (nm, w), nm)
        w = al.example(al.and_(al.minus(no, yes), ls.spec))
        if w is not None:
            report(props, "import:rejects", "%s rejects the valid path %r" % (nm, w), nm)
        w = al.example(both)
        if w is not None:
            undecided("%s: what is known does not tell whether %r is accepted" % (nm, w))
    except (Unknown, OverflowError) as x:
        undecided("%s: %s" % (nm, x or "too many states"))


# ---- lines and columns ------------------------------------------------------------------------------------
SRC = P("src")
NL = ((10, 10),)


class Table(RC):
    """the line table: a start is added for every newline, the offset after it"""

    def __init__(self, key, report, undecided):
        super().__init__({})
        self.key, self.report, self.undecided, self.obl, self.said, self.good = key, report, undecided, 0, set(), False

    def vague(self, what):
        if what not in self.said:
            self.said.add(what)
            self.undecided(what)

    def newvec(self, eng, st, ety):
        return ety in ("i32", "usize", "u32", "u64", "i64")

    def tracks(self, ety):
        return self.newvec(None, None, ety)

    def over(self, t):
        """what a collection of the source goes through: 'matches' of the newline, 'chars', 'bytes' or 'indices'"""
        nm, a = t.k, t.a
        if t.k == "call":
            nm, a = t.a[0].split("::")[-1], t.a[1]
        if a and a[0] is SRC and nm in ("match_indices", "chars", "bytes", "char_indices"):
            return {"match_indices": "matches", "char_indices": "indices"}.get(nm, nm)
        if nm in STRIP and a and type(a[0]) is N:
            return "bytes" if a[0] is SRC and nm == "as_bytes" else self.over(a[0])
        return None

    def elem(self, eng, st, coll, e):
        st.cl["push"] = ()

    def pushed(self, eng, st, vid, elem, ref):
        st.cl["push"] = st.cl.get("push", ()) + (base_cast(elem),)

    def item_done(self, eng, st, coll, e):
        push = st.cl.get("push", ())
        st.cl["push"] = ()
        self.obl += 1
        kind = self.over(coll)
        if kind is None:
            inner = [x for x in subs(coll) if self.over(x) == "matches"]
            fn = coll.a[0].split("::")[-1] if coll.k == "call" else coll.k
            if coll.k == "part" and inner:
                return self.report(("P22",), "lines:part", "only a part of the newlines start a line: %s" % show(coll)[:80], self.key)
            if fn == "match_indices" and coll.a[0].k == "sfn" and coll.a[0].a[0].startswith("trim") and coll.a[0].a[1] is SRC:
                return self.report(("P22",), "lines:part", "newlines are looked for in a part of the source: %s" % show(coll)[:80], self.key)
            if fn == "lines" and SRC in subs(coll):
                return self.report(("P22",), "lines:lines", "the lengths of lines do not tell whether a line ends in \\n or \\r\\n", self.key)
            return self.vague("lines are found in %s" % show(coll)[:80])
        if kind == "matches":
            pat = coll.a[1]
            if pat is not I(10) and pat is not S("\n"):
                return self.report(("P22",), "lines:separator", "lines are split at %s" % show(pat), self.key)
            at, ch, unk = field(e, 0, 0), None, [f for f in st.facts if e in subs(f)]
            is_nl = True
        else:
            ch = field(e, 0, 1) if kind == "indices" else e
            at = field(e, 0, 0) if kind == "indices" else mk("pos", coll)
            r = eng.rng(st, ch, "char")
            is_nl = True if r == NL else None if r is None or rs_and(r, NL) else False
            unk = [f for f in st.facts if f is not ch and (e in subs(f) or f is at)]
        if len(push) > 1:
            return self.vague("several starts are added for one newline")
        if not push:
            if is_nl is False:
                return
            if unk and kind != "matches":
                return self.vague("whether a newline starts a line depends on %s" % show(unk[0])[:80])
            return self.report(("P22",), "lines:missed", "a newline does not start a line%s" % (" when %s is %s" % (show(unk[0])[:60], st.facts[unk[0]]) if unk else ""), self.key)
        self.good = True
        if is_nl is not True:
            if is_nl is None and unk:
                return self.vague("whether a character starts a line depends on %s" % show(unk[0])[:80])
            return self.report(("P22",), "lines:separator", "a line starts after a character that is not a newline", self.key)
        x = unold(push[0])
        if kind == "chars" and at in subs(x):
            return self.report(("P22",), "lines:chars", "a line's start is counted in characters; offsets are in bytes", self.key)
        if x is not eng.add(at, 1):
            if at is x or all(y is at or y.k in ("i", "add") for y in [x] + list(subs(x)) if type(y) is N and y not in list(subs(at))):
                self.report(("P22",), "lines:start", "a line starts at %s; expected the character after the newline" % show(x)[:80], self.key)
            else:
                self.vague("line start %s" % show(x)[:80])

    def exhausted(self, eng, st, coll):
        st.cl["exh"] = st.cl.get("exh", frozenset()) | {coll}

    def clkey(self, st):
        return (st.cl.get("exh"), st.cl.get("push"))


def lines(prog, sig, report, undecided):
    obl = 0
    res = [k for k, (a, r) in sig.items() if len(a) == 2 and a[1] == "usize" and r == "(i32, i32)" and a[0].startswith("&protox_parse")]
    spans = [k for k, (a, r) in sig.items() if len(a) == 2 and a[1] == "std::ops::Range<usize>" and r == "std::vec::Vec<i32>" and a[0].startswith("&protox_parse")]
    if len(res) != 1 or len(spans) != 1:
        undecided("line resolution is not a pair of functions (offset) -> (line, column) and (range) -> span")
        return 0
    ty = sig[res[0]][0][0][1:]
    P3 = ("P22",)
    nf = len(prog.adt_path[ty]["variants"][0]["fields"]) if ty in prog.adt_path else 1
    OFF = P("offset")
    for k in [k for k, (a, r) in sig.items() if list(a) == ["&str"] and r == ty]:
        c = Table(k, report, undecided)
        eng = Eng(prog, c, max_steps=100_000)
        try:
            outs = eng.run(prog.bodies[k], [SRC], {}, {}, {})
        except (Budget, Unsupported) as x:
            undecided("line table: %s" % x)
            outs = []
        obl += c.obl
        for st, v in outs:
            obl += 1
            if v.k != "A" or v.a[0] != ty or not all(f.k == "V" for f in v.a[2]):
                c.vague("line table %s" % show(v)[:80])
            elif not c.good:
                c.vague("the newlines are not looked for in the source in a way that is recognised")
            elif not [x for x in st.cl.get("exh", ()) if c.over(x)]:
                c.vague("line table: not every newline is visited")
    LS = mk("lines")
    self = A(ty, 0, [LS] * nf)
    ref = [mk("R", ("H", "l"), (), "l")]

    def bs(eng, st, callee, args):
        nm = M.norm_path(callee["path"]).split("::")[-1]
        v = eng.deref(st, args[0])
        x = eng.deref(st, args[1])
        if v is not LS or base_cast(x) is not OFF:
            return None
        out = []
        for hit in (True, False):
            s = st.clone()
            i = mk("ix", "hit" if hit else "miss")
            s.facts[i] = ((0, 2 ** 31 - 3),)
            s.cl["n"], s.cl["hit"] = eng.add(i, 1) if hit else i, hit
            out.append((s, ok(i) if hit else err(i)))
        return out

    def pp(eng, st, callee, args):
        v = eng.deref(st, args[0])
        if v is not LS:
            return None
        E = mk("E", "x")
        s0 = st.clone()
        t = closure_truth(prog, eng, s0, args[1], E)
        i = mk("ix", "pp")
        st.facts[i] = ((0, 2 ** 31 - 3),)
        le, lt = t
        if le == (True, True, False):          # below, equal, above the offset
            st.cl["n"] = i
        elif le == (True, False, False):
            # line starts before the offset: one is missing when the offset is a line start
            st.cl["n"] = None
            st.cl["strict"] = True
        else:
            st.cl["n"] = None
        return [(st, i)]

    class C(RC):
        def call(self, eng, st, callee, args, site):
            p = M.norm_path(callee["path"])
            if p.endswith("slice::binary_search"):
                return bs(eng, st, callee, args)
            return None
    c = C({})
    eng = Eng(prog, c, max_steps=100_000)
    try:
        outs = eng.run(prog.bodies[res[0]], ref + [OFF], {("H", "l"): self}, {OFF: ((0, 2 ** 31 - 2),)}, {})
    except (Budget, Unsupported) as x:
        undecided("line resolution: %s" % x)
        outs = []
    for st, v in outs:
        obl += 1
        n = st.cl.get("n")
        if n is None or v.k != "A" or len(v.a[2]) != 2:
            undecided("line resolution not by binary search: %s" % show(v)[:80])
            continue
        ln, col = map(base_cast, v.a[2])
        r = eng.rng(st, n)
        cn = eng.const_of(st, n)
        if not (ln is n or ln.k == "i" and cn is not None and ln.a[0] == cn):
            report(P3, "lines:line", "the line is %s; expected the number of line starts up to the offset, %s" % (show(ln), show(n)), res[0])
            continue
        start = mk("at", LS, eng.add(n, -1))
        if st.cl["hit"]:
            good = col is I(0) or is_diff(col, OFF, start)
        elif cn == 0:
            good = col is OFF
        else:
            good = r[0][0] >= 1 and is_diff(col, OFF, start)
        if not good:
            report(P3, "lines:column", "the column is %s on line %s" % (show(col), show(n)), res[0])
    # spans
    SP = P("span")
    a, b = field(SP, 0, 0), field(SP, 0, 1)
    h = {res[0]: lambda eng, st, cc, args: [(st, tup(mk("line", args[1]), mk("col", args[1])))]}
    eng = Eng(prog, RC(h), max_steps=50_000)
    try:
        outs = eng.run(prog.bodies[spans[0]], ref + [SP], {("H", "l"): self}, {}, {})
    except (Budget, Unsupported) as x:
        undecided("span resolution: %s" % x)
        outs = []
    for st, v in outs:
        obl += 1
        la, ca, lb, cb = mk("line", a), mk("col", a), mk("line", b), mk("col", b)
        if v.k != "A" or v.a[0] not in ("vec", "array"):
            undecided("span %s" % show(v)[:80])
            continue
        t = eng.truth(st, eng.eq(st, la, lb, "i32"))
        if t is None:
            t = eng.truth(st, eng.eq(st, lb, la, "i32"))
        got = tuple(v.a[2])
        if t is True and got not in ((la, ca, cb), (lb, ca, cb)) or t is False and got != (la, ca, lb, cb) or t is None:
            report(P3, "lines:span", "a span %s becomes %s" % ("on one line" if t else "over several lines" if t is False else "", show(v)[:120]), spans[0])
    return obl


def base_cast(t):
    while t.k in ("cast", "tryinto") or t.k == "call" and t.a[0].split("::")[-1] in ("try_into", "index_to_i32", "try_from") and t.a[1]:
        t = t.a[-1] if t.k != "call" else t.a[1][0]
    return t


def unold(t):
    """an element collected in an earlier round of the loop"""
    for x in list(subs(t)):
        if x.k == "old":
            t = subst(t, x, x.a[0])
    return t


def is_diff(t, x, y):
    return t.k in ("diff", "sub") and base_cast(t.a[0]) is x and base_cast(t.a[1]) is y


def closure_truth(prog, eng, st, f, e):
    return None, None


# ---- map entry names --------------------------------------------------------------------------------------
LOWER = ((97, 122),)
OUT = P("out")


def has_e(t, e):
    return t is e or e in subs(t)


class Pascal(RC):
    """the string built follows the specification: '_' is dropped, the first character and those after '_' are upper-cased.
    The state keeps what is due (`up`), how many characters this round has produced (`n`) and whether there are any (`any`)."""

    def __init__(self, report, undecided, nm):
        super().__init__({})
        self.report, self.undecided, self.nm, self.obl = report, undecided, nm, 0

    def call(self, eng, st, callee, args, site):
        p = M.norm_path(callee["path"])
        nm = p.split("::")[-1]
        if nm in ("to_ascii_uppercase", "to_ascii_lowercase") and ("char" in p or "u8" in p or "num" in p):
            x = eng.deref(st, args[0])
            r = eng.rng(st, x, "char")
            if nm == "to_ascii_uppercase":
                return [(st, x if r and not rs_and(r, LOWER) else mk("upper", x))]
            return [(st, x if r and not rs_and(r, ((65, 90),)) else mk("lower", x))]
        if p.endswith(("String::new", "String::with_capacity")):
            return [(st, OUT)]
        if p.endswith(("String::push", "String::push_str", "String::write_char")) and eng.deref(st, args[0]) is OUT:
            x = eng.deref(st, args[1])
            x = x.a[0] if x.k == "chr" else x
            self.push_(eng, st, x)
            return [(st, UNIT)]
        if nm in ("is_empty", "len") and args and eng.deref(st, args[0]) is OUT:
            if nm == "is_empty" or not st.cl.get("any"):
                return [(st, I(0 if (nm == "len") else int(not st.cl.get("any"))))]
        return None

    def elem(self, eng, st, coll, e):
        st.cl["cur"] = e
        st.cl["n"] = 0

    def push_(self, eng, st, x):
        if not (st.cl.get("cur") is None or strip_chars(st.cl["cur"].a[0])):
            return self.undecided("%s: %s is appended" % (self.nm, show(x)[:60]))
        st.cl["any"] = True
        st.cl["n"] = st.cl.get("n", 0) + 1
        self.obl += 1
        e = st.cl.get("cur")
        up = st.cl.get("up", True)
        b = base_cast(x)
        if x.k == "cast":
            x = b
        if e is None or not (has_e(x, e) or x.k == "i"):
            return self.undecided("%s: %s is appended" % (self.nm, show(x)[:60]))
        r = eng.rng(st, e, "char")
        inner = x.a[0] if x.k in ("upper", "lower") else x
        if base_cast(inner) is not e and not (x.k == "i" and r == ((x.a[0], x.a[0]),)):
            return self.undecided("%s: %s is appended" % (self.nm, show(x)[:60]))
        low = bool(rs_and(r, LOWER))
        if x.k == "lower":
            return self.report(("P20",), "pascal:lower", "%s lower-cases a character of the name" % self.nm, st.where())
        if low and x.k != "upper" and up:
            self.report(("P20",), "pascal:plain", "%s: the first character, or one after '_', is not upper-cased" % self.nm, st.where())
        if low and x.k == "upper" and not up:
            self.report(("P20",), "pascal:upper", "%s: a character that is neither first nor after '_' is upper-cased" % self.nm, st.where())

    def item_done(self, eng, st, coll, e):
        if st.cl.get("cur") is None:
            return
        st.cl["cur"] = None
        self.obl += 1
        r = eng.rng(st, e, "char")
        n = st.cl.get("n", 0)
        unk = [f for f in st.facts if f is not e and e in subs(f)]
        if unk:
            self.undecided("%s depends on %s" % (self.nm, show(unk[0])[:60]))
        elif n > 1:
            self.report(("P20",), "pascal:twice", "%s appends a character of the name twice" % self.nm, st.where())
        elif n and rs_and(r, US):
            self.report(("P20",), "pascal:underscore", "%s keeps '_'" % self.nm, st.where())
        elif not n and rs_and(r, rs_not(US)) and r != US:
            self.report(("P20",), "pascal:drops", "%s drops characters in %s" % (self.nm, rs_and(r, rs_not(US))[:3]), st.where())
        if r == US:
            st.cl["up"] = True
        elif not rs_and(r, US):
            st.cl["up"] = False
        else:
            st.cl["up"] = n == 0
        st.cl["n"] = 0

    def exhausted(self, eng, st, coll):
        st.cl["exh"] = st.cl.get("exh", frozenset()) | {coll}

    def clkey(self, st):
        return (st.cl.get("up", True), st.cl.get("any"), st.cl.get("n", 0), st.cl.get("cur") is None, st.cl.get("exh"))


def pascal(prog, key, report, undecided):
    b = prog.bodies[key]
    nm = M.norm_path(b.path).split("::")[-1]
    c = Pascal(report, undecided, nm)
    eng = Eng(prog, c, max_steps=100_000)
    try:
        outs = eng.run(b, [S0], {}, {}, {})
    except (Budget, Unsupported) as x:
        undecided("%s: %s" % (nm, x))
        return 0
    if c.panics:
        report(("P20", "P07"), "pascal:panic", "a panic can be reached in %s: %s" % (nm, c.panics[0][0]), c.panics[0][1])
    for st, v in outs:
        c.obl += 1
        if v is not OUT:
            undecided("%s returns %s" % (nm, show(v)[:80]))
        elif not any(strip_chars(x) for x in st.cl.get("exh", ())):
            undecided("%s: not every character of the name is visited" % nm)
    return c.obl


def strip_chars(t):
    return strip(t) == 0
