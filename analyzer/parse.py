"""Analysis of the recursive-descent parser: every path of each parsing function is followed in lock-step with the
grammar (grammar.py).  A path that rejects a token the grammar allows there, consumes one it does not allow, stops
before the construct is complete, or builds another syntax tree than the grammar prescribes is a violation; so are
an error result without a reported error, a loop iteration without progress, and a reachable panic."""
import re
from ai import *
import time
import models as M
import asts
import gen
from gen import AST, PEK
import grammar as G
from grammar import Fr

TOK = "protox_parse::lex::Token"
COMMENTK = ("LineComment", "BlockComment", "Newline")
RP = "std::result::Result<%s, ()>"
SPAN = "std::ops::Range<usize>"
RANGE = "std::ops::Range"

UNITS = {
    "File": RP % (AST + "File"), "Import": RP % (AST + "Import"), "Package": RP % (AST + "Package"),
    "Message": RP % (AST + "Message"), "Body": RP % ("(%sMessageBody, %s)" % (AST, SPAN)), "Field": RP % (AST + "Field"),
    "Extend": RP % (AST + "Extend"), "Service": RP % (AST + "Service"), "Method": RP % (AST + "Method"),
    "Enum": RP % (AST + "Enum"), "EnumValue": RP % (AST + "EnumValue"), "Oneof": RP % (AST + "Oneof"),
    "Type": RP % ("(%sTy, %s)" % (AST, SPAN)), "Reserved": RP % (AST + "Reserved"), "Extensions": RP % (AST + "Extensions"),
    "Range": RP % (AST + "ReservedRange"), "OptionList": RP % (AST + "OptionList"), "Option": RP % (AST + "Option"),
    "OptionBody": RP % (AST + "OptionBody"), "NamePart": RP % (AST + "OptionNamePart"), "TypeName": RP % (AST + "TypeName"),
    "FullIdent": RP % (AST + "FullIdent"), "Int": RP % (AST + "Int"), "String": RP % (AST + "String"),
    "Utf8String": RP % ("(std::string::String, %s)" % SPAN), "Syntax": RP % ("(%sSyntax, %s, %sComments)" % (AST, SPAN, AST)),
    "Text": RP % "std::string::String",
}
RETUNIT = {v: k for k, v in UNITS.items()}
ANY = mk("any")


def sigs(prog):
    out = {}
    for k, b in prog.bodies.items():
        if not b.local or b.raw.get("derived") or b.raw.get("kind") == "Closure":
            continue
        T = b.crate.types
        out[k] = ([T[b.locals[i]]["s"] for i in range(1, b.args + 1)], T[b.locals[0]]["s"])
    return out


PUNCT = {";": "Semicolon", "[": "LeftBracket", "]": "RightBracket", "{": "LeftBrace", "}": "RightBrace", "(": "LeftParen", ")": "RightParen",
         "<": "LeftAngleBracket", ">": "RightAngleBracket", "=": "Equals", ",": "Comma", ".": "Dot", "-": "Minus", "+": "Plus", ":": "Colon",
         "/": "ForwardSlash"}


def SPANISH(x):
    """a span whose origin is known"""
    return x.k == "span" or x.k == "f" and not any(y.k in ("gone", "old") for y in subs(x))


def LEXSPAN(x):
    return x is mk("call", "lexer_span", ())


def bounds(x):
    """(start, end) of a span, each (side, span, offset); None: not known"""
    if SPANISH(x) or LEXSPAN(x):
        return (0, x, 0), (1, x, 0)
    if x.k != "A" or x.a[0] != RANGE or len(x.a[2]) != 2:
        return None
    out = []
    for y in x.a[2]:
        k = 0
        if y.k == "add" and type(y.a[1]) is int:
            y, k = y.a[0], y.a[1]
        if y.k == "f" and y.a[2] in (0, 1) and bounds(y.a[0]) is not None and y.a[0].k != "A":
            out.append((y.a[2], y.a[0], k))
        elif y.k == "i":
            out.append((None, None, y.a[0]))
        elif y.k == "len" and y.a[0] is P("source"):
            out.append((None, y, k))
        else:
            return None
    return tuple(out)


def elsewhere(x, want):
    """is span x certainly none of those wanted?"""
    b = bounds(x)
    if not any(LEXSPAN(w) for w in want) and b is not None and any(k is not None and LEXSPAN(k) for _, k, _ in b):
        return False            # the last token read, whichever that was
    return b is not None and all(w is not None and b != bounds(w) for w in want) and all(bounds(w) is not None for w in want)


def quoted(prog, x):
    """the tokens a text names: those in quotes, and those it formats"""
    out = []
    for y in [x] + list(subs(x)):
        if y.k == "s":
            for w in re.findall(r"'([^' ]+)'", y.a[0]):
                out.append(PUNCT.get(w, "Ident:" + w))
        elif y.k == "A" and y.a[0].endswith("lex::Token"):
            nm = prog.adt_path[y.a[0]]["variants"][y.a[1]]["name"]
            if nm == "Ident":
                out += ["Ident:" + z.a[0] for z in y.a[2][0:1] for z in [z] + list(subs(z)) if z.k == "s"]
            else:
                out.append(nm)
    return out


def const(v):
    return all(s.k in ("zst",) for s in subs(v))


def bare(ts):
    return re.sub(r"<'_(, '_)*>", "", ts)


class World:
    def __init__(self, prog):
        self.prog = prog
        self.sig = sigs(prog)
        self.find_parser()
        self.tok = prog.adt_path[TOK]
        self.kinds = [v["name"] for v in self.tok["variants"]]
        self.tokv = {n: i for i, n in enumerate(self.kinds)}
        self.g = G.Grammar([k for k in self.kinds if k not in COMMENTK])
        self.names = set(self.g.kws)
        self.units, self.comment_ops, self.opaque, self.preds, self.spanfns = {}, {}, set(), set(), {}
        cand = []
        full = asts.full_fns(prog)
        for k, (a, r) in self.sig.items():
            if a and self.is_parser(a[0]):
                u = RETUNIT.get(r)
                if u and "impl " not in k and all(re.match(r"&\[[\w:<>', ]+\]$|bool$", x) and "::Token" not in x for x in a[1:]):
                    self.units[k] = u
                if len(a) == 1 and bare(r) == RP % ("std::option::Option<(%s, %s)>" % (TOK, SPAN)):
                    cand.append(k)
            elif a and bare(a[0]) == "&mut " + self.comments_ty:
                self.comment_ops[k] = r
            elif any(self.is_parser(x) for x in a):
                pass
            elif r == "std::string::String":
                self.opaque.add(k)
            elif a == ["&str"] and r == "bool":
                self.preds.add(k)
                self.opaque.add(k)
            elif k in full:
                self.spanfns[full[k]] = k
                self.opaque.add(k)
        self.unit_fn = {}
        self.inline = set()          # functions that parse no construct on their own
        self.tasks = {}
        self.queue = []
        self.edges = {}
        self.calls = {}
        self.badkeys = set()
        self.follow = {}             # task -> set of classes / parent tasks
        self.rejects = []
        self.viol = {}
        self.und = []
        self.used_preds = {}
        self.stats = dict(tasks=0, states=0, steps=0, paths=0, obligations=0, functions=0, tokens=0)
        self.fns = set()
        self.peeks, self.collects = {}, set()
        for k in cand:
            r = PeekCheck(self, k).run()
            if r is not None:
                self.peeks[k] = r[0]
                if r[1]:
                    self.collects.add(k)
        # a part of a collecting function that nothing else calls is judged as part of it
        import effects
        callers = {}
        for k, b in prog.bodies.items():
            if b.local and k in self.sig:
                out = []
                effects.refs(b.raw, out)
                for c in out:
                    if c.get("key") in self.collects and c["key"] != k:
                        callers.setdefault(c["key"], set()).add(k)
        self.collects -= {k for k in self.collects if callers.get(k) and callers[k] <= self.collects}
        self.pf, self.lexf, self.exf = self.pf, self.lexf, self.exf

    def is_parser(self, ts):
        return ts.startswith("&mut " + self.parser) and not ts[len("&mut " + self.parser):].lstrip("<'_>, ")

    def find_parser(self):
        prog = self.prog
        for ts, a in prog.adts.items():
            if not a["path"].startswith("protox_parse::") or a["kind"].lower() != "struct":
                continue
            T = prog.tykind[ts]["crate"].types
            fs = {}
            for i, f in enumerate(a["variants"][0]["fields"]):
                if f[1] is None:
                    continue
                s = T[f[1]]["s"]
                if s.startswith("logos::Lexer<"):
                    fs["lexer"] = i
                    lex = s
                elif s.startswith("std::option::Option<std::result::Result<(" + TOK):
                    fs["peek"] = i
                elif s.startswith("protox_parse::") and "omment" in s:
                    fs["comments"] = i
                    self.comments_ty = bare(s)
            if len(fs) == 3:
                self.parser, self.pf, self.nparser = a["path"], fs, len(a["variants"][0]["fields"])
                self.lexty = lex
                la = prog.adts.get(lex) or prog.adt_path.get("logos::Lexer")
                self.lexf = {f[0]: i for i, f in enumerate(la["variants"][0]["fields"])}
                self.lexn = len(la["variants"][0]["fields"])
                break
        else:
            raise Unsupported("no parser state type (lexer, lookahead, comments)")
        ea = prog.adt_path["protox_parse::lex::TokenExtras"]
        self.exn = len(ea["variants"][0]["fields"])
        self.exf = {}
        for ts, a in prog.adts.items():
            if a is ea or a["path"] == ea["path"]:
                T = prog.tykind[ts]["crate"].types
                for i, f in enumerate(a["variants"][0]["fields"]):
                    s = T[f[1]]["s"]
                    if s == "bool":
                        self.exf["mode"] = i
                    elif PEK in s:
                        self.exf["errors"] = i
        self.extras = ea["path"]

    def is_next(self, callee):
        rp = callee.get("rpath") or ""
        ta = callee.get("targs") or [""]
        return (callee["path"].endswith("Iterator::next") and (rp.startswith("<logos::Lexer<") or ta[0].startswith("logos::Lexer<"))
                and (TOK in ta[0] or TOK in rp or "Token" in rp))

    def tasks_of(self, unit):
        return [t for t in self.tasks if t[0] == unit]

    def edge(self, a, b, counted):
        if not counted:
            self.edges.setdefault(a, set()).add(b)

    def cycles(self):
        """constructs that can be nested in themselves without a limit"""
        out, idx, low, stack, on = [], {}, {}, [], set()

        def go(v):
            idx[v] = low[v] = len(idx)
            stack.append(v)
            on.add(v)
            for u in self.edges.get(v, ()):
                if u not in idx:
                    go(u)
                    low[v] = min(low[v], low[u])
                elif u in on:
                    low[v] = min(low[v], idx[u])
            if low[v] == idx[v]:
                c = []
                while True:
                    u = stack.pop()
                    on.discard(u)
                    c.append(u)
                    if u == v:
                        break
                if len(c) > 1 or v in self.edges.get(v, ()):
                    out.append(sorted(c))

        for v in sorted(self.edges):
            if v not in idx:
                go(v)
        return out

    def want(self, task):
        if task not in self.tasks:
            self.tasks[task] = None
            self.queue.append(task)

    def report(self, task, key, what, where="", cond="", props=("P01",), body=None):
        k = (task[1] if task else "", key)
        props = tuple(props)
        if task and "P02" in props and task[0] in ("OptionList", "Option", "OptionBody", "NamePart", "String", "Text"):
            props += ("P13",)
        if task and "P01" in props and task[0] == "Type":
            props += ("P11",)
        if task:
            self.badkeys.add(task[1])
        if k not in self.viol:
            self.viol[k] = dict(props=list(props), key="%s/%s" % (task[0] if task else "parser", key), what=what,
                                detail=what, where=where, cond=cond)

    def parser_value(self, cell, mode):
        ex = [UNDEF] * self.exn
        ex[self.exf["errors"]] = P("errors")
        if "mode" in self.exf:
            ex[self.exf["mode"]] = mode
        lx = [mk("lx", i) for i in range(self.lexn)]
        lx[self.lexf["extras"]] = A(self.extras, 0, ex)
        fs = [mk("pfield", i) for i in range(self.nparser)]
        fs[self.pf["lexer"]] = A("logos::Lexer", 0, lx)
        fs[self.pf["peek"]] = cell
        return A(self.parser, 0, fs)


class Base(Client):
    """the parser state: lexer, lookahead cell, text-format flag"""

    def __init__(self, w, key):
        self.w, self.prog, self.key = w, w.prog, key
        self.sites = {}
        self.panics = []

    def heap_key(self, name):
        return name == ("H", "parser")

    def pv(self, st):
        return st.heap[("H", "parser")]

    def cell(self, st):
        return field(self.pv(st), 0, self.w.pf["peek"])

    def setcell(self, st, c):
        v = self.pv(st)
        fs = list(v.a[2])
        fs[self.w.pf["peek"]] = c
        st.heap[("H", "parser")] = A(v.a[0], 0, fs)

    def mode(self, st):
        if "mode" not in self.w.exf:
            return FALSE
        lx = field(self.pv(st), 0, self.w.pf["lexer"])
        return field(field(lx, 0, self.w.lexf["extras"]), 0, self.w.exf["mode"])

    def site(self, st, kind, extra=()):
        k = (kind,) + tuple((f.body.key, f.blk) for f in st.frames) + tuple(extra)
        n = self.sites.get(k)
        if n is None:
            n = self.sites[k] = len(self.sites)
        return n

    def drange(self, names):
        return tuple((int(v["discr"]),) * 2 for v in self.w.tok["variants"] if v["name"] in names)

    def fresh_tok(self, eng, st, n, exclude=()):
        t = mk("tok", n)
        M.fresh(eng, st, [t])
        if exclude:
            eng.narrow(st, mk("discr", t, TOK), rs_not(self.drange(exclude)))
        self.w.stats["tokens"] += 1
        return t

    def kindset(self, eng, st, t):
        if t.k == "A":
            return {self.w.kinds[t.a[1]]}
        r = eng.rng(st, mk("discr", t, TOK))
        return {v["name"] for v in self.w.tok["variants"] if any(l <= int(v["discr"]) <= h for l, h in r)}

    def classes(self, eng, st, t):
        """token classes the term may have"""
        out = set()
        for k in self.kindset(eng, st, t):
            if k != "Ident":
                out.add(k)
                continue
            p = field(t, self.w.tokv["Ident"], 0)
            if p.k == "s":
                pos, neg = p.a[0], frozenset()
            else:
                pos, neg = eng.str_fact(st, p)
            if pos is not None:
                out.add("Ident:" + (pos if pos in self.w.g.kws else "*"))
            else:
                out |= {"Ident:" + x for x in self.w.g.kws if x not in neg}
                out.add("Ident:*")
        return frozenset(out)

    def err_known(self, eng, st):
        ln = mk("len", P("errors"))
        st.facts[ln] = ((1, 2 ** 31 - 2),)

    def sticky(self, t):
        return t.k == "len" and t.a[0] is P("errors")

    def lexer_call(self, eng, st, callee):
        if self.w.is_next(callee):
            return self.lexer_next(eng, st)
        if callee["path"].startswith("logos::Lexer"):
            m = callee["path"].split("::")[-1]
            if m == "span":
                last = st.cl.get("last")
                c = self.cell(st)
                if last is None and c.k == "A" and c.a[1] == 1 and c.a[2][0].k == "A" and c.a[2][0].a[1] == 0:
                    return [(st, field(c.a[2][0].a[2][0], 0, 1))]        # the token looked at is the last one read
                return [(st, mk("span", last) if last is not None else mk("call", "lexer_span", ()))]
            if m == "source":
                return [(st, P("source"))]
        return None

    def lexer_next(self, eng, st):
        st.cl["np"] = frozenset()
        if st.cl.get("eof"):
            return [(st, NONE)]
        n = self.site(st, "tok")
        s1, s2, s3 = st, st.clone(), st.clone()
        t = self.fresh_tok(eng, s1, n)
        s1.cl["last"] = t
        self.lexed(eng, s1, t)
        s2.cl["eof"] = True
        s3.cl["last"] = None
        s3.cl["lexerr"] = True
        return [(s1, some(ok(t))), (s2, NONE), (s3, some(err(UNIT)))]

    def no_token(self, st, e):
        """text that is no token is reported where it is"""
        if st.cl.get("lexerr") and self.w.prog.adt_path[PEK]["variants"][e.a[1]]["name"] == "InvalidToken" and \
                elsewhere(e.a[2][0], [mk("call", "lexer_span", ())]):
            self.w.report(None, "diag:InvalidToken:span", "text that is no token is reported at %s instead of where it is" % show(e.a[2][0])[:80],
                          st.where(), props=("P30",))

    def lexed(self, eng, st, t):
        pass

    def renamed(self, eng, st, old, new):
        l = st.cl.get("last")
        if l is not None:
            st.cl["last"] = M.rename(l, old, new)

    def panic(self, eng, st, what):
        self.panics.append((what, st.where()))

    def minlen(self, eng, st, coll):
        return gen.nonempty(eng, st, coll)

    def next(self, eng, st, itn):
        self.stepped(st)
        return None

    def stepped(self, st):
        np = st.cl.get("np") or frozenset()
        if np:
            chain = tuple(f.body.key for f in st.frames if f.body.local)
            st.cl["np"] = frozenset(h for h in np if h[0] != chain)

    def head(self, eng, st):
        fr = st.frames[-1]
        if not fr.body.local or fr.body.counters.get(fr.blk):
            return
        chain = tuple(f.body.key for f in st.frames if f.body.local)
        h = (chain, tuple(f.blk for f in st.frames if f.body.local))
        np = st.cl.get("np") or frozenset()
        if h in np:
            self.stuck(eng, st)
        st.cl["np"] = np | {h}

    def stuck(self, eng, st):
        pass


class PeekCheck(Base):
    """does this function look at the next token (possibly dropping comments) and nothing else?"""

    def run(self):
        w = self.w
        b = w.prog.bodies[self.key]
        b.prep()
        self.ok, self.why, self.collect = True, None, False
        returned, inits = set(), []
        t0 = mk("tok", "init")
        inits = [(NONE, {}), (some(ok(tup(t0, mk("span", t0)))), {}), (some(err(UNIT)), dict(err=True)), (NONE, dict(eof=True))]
        for cell, cl in inits:
            eng = Eng(w.prog, self, max_steps=400_000)
            cl0 = dict(eof=False, err=False, lexerr=False, last=None, np=frozenset())
            cl0.update(cl)
            try:
                outs = eng.run(b, [mk("R", ("H", "parser"), (), "parser")], {("H", "parser"): w.parser_value(cell, mk("mode"))}, {}, cl0)
            except (Budget, Unsupported) as x:
                return None
            for st, v in outs:
                c = self.cell(st)
                if v.k != "A" or v.a[0] != RES:
                    return None
                if v.a[1] == 1:
                    if not (st.cl["err"] and c is some(err(UNIT))):
                        return None
                    continue
                if st.cl["err"] or st.cl["lexerr"]:
                    return None
                r = v.a[2][0]
                if r is NONE:
                    if c is not NONE or not st.cl["eof"]:
                        return None
                    continue
                if c is not some(ok(r.a[2][0])):
                    return None
                pair = r.a[2][0]
                tk = field(pair, 0, 0)
                if field(pair, 0, 1) is not mk("span", tk):
                    return None
                returned |= self.kindset(eng, st, tk)
        if not self.ok or self.panics:
            return None
        return tuple(sorted(set(w.kinds) - returned)), self.collect

    def call(self, eng, st, callee, args, site):
        r = self.lexer_call(eng, st, callee)
        if r is not None:
            return r
        key = callee.get("key")
        if key in self.w.comment_ops:
            if len(args) > 1:
                self.collect = True
            return [(st, mk("cm", key))]
        return None

    def push(self, eng, st, ref, old, elem):
        if elem.k == "A" and elem.a[0] == PEK:
            self.no_token(st, elem)
            st.cl["err"] = True
            return True
        return False

    def changed(self, eng, st, old, new):
        co, cn = field(old, 0, self.w.pf["peek"]), field(new, 0, self.w.pf["peek"])
        if co is not cn and cn is NONE:
            st.cl["np"] = frozenset()
            if co.k == "A" and co.a[1] == 1:
                r = co.a[2][0]
                if r.k == "A" and r.a[1] == 0:
                    if not self.kindset(eng, st, field(r.a[2][0], 0, 0)) <= set(COMMENTK):
                        self.ok = False

    def stuck(self, eng, st):
        self.ok = False


class PClient(Base):
    """one construct, from its first token to the return"""

    def __init__(self, w, task):
        super().__init__(w, task[1])
        self.task = task
        self.unit = task[0]
        self.obl = 0

    # ---- start ---------------------------------------------------------------------------------------
    def start(self, eng):
        w = self.w
        unit, key, rest, entry = self.task
        b = w.prog.bodies[key]
        args = [mk("R", ("H", "parser"), (), "parser")] + list(rest)
        facts = {}
        cell = NONE
        peeked = None
        if entry != "none":
            t = mk("tok", "entry")
            cell = some(ok(tup(t, mk("span", t))))
            facts[mk("discr", t, TOK)] = rs_not(self.drange(COMMENTK))
            peeked = entry
        cl = dict(cfg=(Fr(unit),), err=False, bad=None, eof=False, last=None, np=frozenset(), peeked=peeked, due=(), lexerr=False)
        if unit == "Text":
            cl.update(txt=frozenset([S("")]), lv=frozenset([I(0)]), pendtok=None, lvp=())
        return eng.run(b, args, {("H", "parser"): w.parser_value(cell, FALSE)}, facts, cl)

    def clkey(self, st):
        c = st.cl
        return (c["cfg"], c["err"], bool(c.get("dirty")) and not c["err"], c["bad"], c["eof"], c["last"], c["np"], c["peeked"], c["due"], c.get("txt"), c.get("lv"), c.get("pendtok"), c.get("lvp"))

    def keep_fact(self, eng, st, t, live):
        # facts about tokens and checks the grammar still needs
        if t.k == "f" and t.a[0].k == "tok" and t.a[0] in live:
            return True
        if self.unit == "String" and t.k == "len" and self.payloadlike(t.a[0]):
            return True
        if self.unit in ("Syntax", "File") and any(x.k == "u" and x.a[0] == "String" for x in subs(t)):
            return True
        if self.unit == "Text" and st.cl.get("lv") and any(x in st.cl["lv"] for x in subs(t)):
            return True
        return None

    def sticky(self, t):
        if t.k == "len" and t.a[0] is P("errors"):
            return True
        return t.k == "call" and t.a[0] in self.w.predn

    # ---- calls ---------------------------------------------------------------------------------------
    def call(self, eng, st, callee, args, site):
        r = self.lexer_call(eng, st, callee)
        if r is not None:
            return r
        key = callee.get("key")
        b = eng.prog.bodies.get(key)
        if b is None or not b.local:
            if callee["path"].endswith(("Extend::extend", "Vec::extend_from_slice", "Vec::<T, A>::extend_from_slice", "Vec::<T, A>::append")) and args and args[0].k == "R":
                old = eng.deref(st, args[0])
                x = eng.deref(st, args[1])
                while x.k == "it" and x.a[0] in ("sym", "copied", "cloned") and (x.a[0] != "sym" or self.payloadlike(x.a[1])):
                    x = x.a[1]
                whole = self.payloadlike(x) or not callee["path"].endswith("append")
                if x.k != "it" and whole and self.astlike(x) and self.push(eng, st, args[0], old, x) == "virtual":
                    v = M.as_V(eng, st, old) if old.k in ("V", "A") else mk("V", M.vid_of(st, "x"), frozenset())
                    M.setref(eng, st, args[0], v)
                    self.pushed(eng, st, v.a[0], x, args[0])
                    if callee["path"].endswith("append") and args[1].k == "R":
                        M.setref(eng, st, args[1], A("vec", 0, ()))
                    return [(st, UNIT)]
            return None
        if key in self.w.comment_ops:
            return self.comment_op(eng, st, key, args)
        if key in self.w.peeks and st.frames:
            return self.do_peek(eng, st, key)
        u = self.w.units.get(key)
        if u is not None and u == self.unit and key not in [f.body.key for f in st.frames]:
            cfg = st.cl["cfg"]
            if cfg is None or len(cfg) == 1 and cfg[0].pos < 0 and not cfg[0].env:
                return None              # the rest of this construct, in a function of its own
        if u is not None and (key not in self.w.inline or key in [f.body.key for f in st.frames]) and args and args[0].k == "R" and args[0].a[0] == ("H", "parser"):
            rest = tuple(eng.deref(st, a) for a in args[1:])
            if all(const(a) for a in rest):
                return self.do_unit(eng, st, u, key, rest)
        if key in self.w.opaque:
            vals = tuple(eng.deref(st, a) for a in args)
            if key in self.w.preds:
                t = mk("call", key, vals)
                if eng.truth(st, t) is None:
                    pass
            return [(st, mk("call", key, vals))]
        return None

    def payloadlike(self, e):
        return e.k == "f" and e.a[0].k == "tok"

    def astlike(self, e):
        return any(s.k in ("tok", "u", "cm") for s in subs(e))

    def comment_op(self, eng, st, key, args):
        r = self.w.comment_ops[key]
        if r == "()":
            if key in self.w.resets:
                st.cl["dirty"] = False
            if len(args) > 1 and not st.cl["err"]:
                self.problem(st, "comment", "a comment is recorded outside the functions that look at the next token", ("P04",))
            return [(st, UNIT)]
        which = "trail" if r.startswith("std::option::Option") else "lead"
        t = mk("cm", which, self.site(st, "cm"))
        M.fresh(eng, st, [t])
        cfg = st.cl["cfg"]
        if cfg is not None:
            top = cfg[-1]
            r = self.w.g.R[top.unit]
            good = st.cl["peeked"] == "collect" or st.cl["peeked"] == "collect?"
            if which == "lead":
                # taken before the construct's first token
                if top.pos >= 0 or not good:
                    good = False
            else:
                good = good and top.pos >= 0 and r.leaves[top.pos].trail
            cfg = cfg[:-1] + (top.with_(cm=tuple(x for x in top.cm if x[0] != which) + ((which, t, bool(good)),)),)
            st.cl["cfg"] = cfg
        return [(st, t)]

    # ---- tokens --------------------------------------------------------------------------------------
    def lexed(self, eng, st, t):
        want = TRUE if self.unit == "Text" else FALSE
        m = self.mode(st)
        if not st.cl["err"] and m is not want:
            self.problem(st, "mode", "tokens are read with the text-format flag %s" % show(m), ("P19",))

    def to_err(self, eng, st, cell=None):
        st.cl["err"] = True
        st.cl["cfg"] = None
        st.cl["due"] = ()
        st.cl["bad"] = None
        st.cl["peeked"] = None
        self.err_known(eng, st)
        if cell is not None:
            self.setcell(st, cell)
            st.cl["eof"] = False

    def do_peek(self, eng, st, key):
        skip = self.w.peeks[key]
        c = self.cell(st)
        kind = "collect" if key in self.w.collects else "skip"
        if c.k == "A" and c.a[1] == 1:
            r = c.a[2][0]
            if r.k == "A" and r.a[1] == 1:
                return [(st, err(UNIT))]
            if r.k == "A" and r.a[1] == 0:
                pair = r.a[2][0]
                tk = field(pair, 0, 0)
                ks = self.kindset(eng, st, tk)
                if not ks & set(skip):
                    if st.cl["peeked"] == "unit":
                        st.cl["peeked"] = kind
                    return [(st, ok(some(pair)))]
                out = []
                s1 = st.clone()
                if eng.narrow(s1, mk("discr", tk, TOK), rs_not(self.drange(skip))):
                    out.append((s1, ok(some(pair))))
                self.setcell(st, NONE)
                return out + self.do_peek(eng, st, key)
        if c.k != "A":
            # whatever a failed construct left behind
            out = []
            for v in (NONE, some(err(UNIT)), None):
                s = st.clone()
                if v is None:
                    t = self.fresh_tok(eng, s, self.site(s, "left"))
                    v = some(ok(tup(t, mk("span", t))))
                self.setcell(s, v)
                out += self.do_peek(eng, s, key)
            return out
        if st.cl["eof"]:
            return [(st, ok(NONE))]
        self.clean(st)
        n = self.site(st, "tok")
        st.cl["np"] = frozenset()
        st.cl["peeked"] = kind if not (st.cl["peeked"] == "skip") else "skip"
        s2, s3 = st.clone(), st.clone()
        t = self.fresh_tok(eng, st, n, skip)
        self.lexed(eng, st, t)
        pair = tup(t, mk("span", t))
        self.setcell(st, some(ok(pair)))
        s2.cl["eof"] = True
        self.to_err(eng, s3)
        self.setcell(s3, some(err(UNIT)))
        return [(st, ok(some(pair))), (s2, ok(NONE)), (s3, err(UNIT))]

    def look(self, eng, st):
        """lookahead classes: frozenset, "EOF", or None when not read"""
        c = self.cell(st)
        if c.k == "A" and c.a[1] == 1:
            r = c.a[2][0]
            if r.k == "A" and r.a[1] == 0:
                return self.classes(eng, st, field(r.a[2][0], 0, 0))
            return frozenset()
        if st.cl["eof"]:
            return "EOF"
        return None

    def clean(self, st):
        if st.cl.get("dirty") and not st.cl["err"]:
            self.problem(st, "reset", "a token is consumed but the comments collected before it are kept", ("P04",))
            st.cl["dirty"] = False

    def do_unit(self, eng, st, u, key, rest):
        w = self.w
        self.clean(st)
        w.calls.setdefault(self.task[1], set()).add(key)
        w.edge(self.task[1], key, self.counted(eng, st))
        cls = self.look(eng, st)
        c = self.cell(st)
        entry = "none"
        if c.k == "A" and c.a[1] == 1:
            entry = st.cl["peeked"] or "skip"
            if entry == "unit":
                entry = "skip"
        # failure of the construct
        s2 = st.clone()
        errored = s2.cl["err"]
        self.to_err(eng, s2)
        known = type(cls) is frozenset and cls and cls <= w.g.first(u)
        if known:
            s2.cl["np"] = frozenset()
        cellv = mk("left", self.site(st, "unit", (key,)))
        M.fresh(eng, s2, [cellv])
        self.setcell(s2, cellv)
        s2.cl["eof"] = False
        s2.cl["last"] = None
        out = [(s2, err(UNIT))]
        if cls == "EOF" and u != "Text":
            return out
        if type(cls) is frozenset and u != "Text" and not (cls & w.g.first(u)):
            if not st.cl["err"]:
                out = out
            return out
        task = (u, key, rest, entry)
        if errored:
            # after an error only that the construct terminates matters; any start will do
            if not any((u, key, rest) == x[:3] for x in w.tasks):
                w.want((u, key, rest, "none" if u == "Text" else "collect" if entry == "skip" else entry))
        else:
            w.want(task)
        n = self.site(st, "unit", (key,))
        tokv = field(c.a[2][0].a[2][0], 0, 0) if entry != "none" and c.a[2][0].a[1] == 0 else None
        t = mk("u", u, n)
        M.fresh(eng, st, [t])
        if u == "Text":
            if c is not NONE and not errored:
                self.problem(st, "text-entry", "the aggregate's first token is read before text-format mode is entered", ("P19",))
        cfg = st.cl["cfg"]
        if cfg is not None:
            if type(cls) is frozenset:
                start = mk("span", tokv)
            else:
                start = None
            r = self.advance_nt(cfg, u, cls if type(cls) is frozenset else None, t, start)
            if type(r) is str:
                self.bad(eng, st, r)
            else:
                st.cl["cfg"] = r[0]
                lf = r[1]
                if lf.check:
                    val = t if u != "Utf8String" else field(t, 0, 0)
                    st.cl["due"] = st.cl["due"] + ((lf.check, val),)
                self.addfollow(task, st.cl["cfg"])
        self.setcell(st, NONE)
        st.cl["last"] = None
        st.cl["peeked"] = "unit"
        st.cl["np"] = frozenset()
        out.append((st, ok(t)))
        return out

    def counted(self, eng, st):
        """has this path raised a counter that is below a fixed limit?"""
        for i, v in enumerate(self.pv(st).a[2]):
            f = mk("pfield", i)
            if v is not f and f in subs(v) and v.k != "A":
                r = eng.rng(st, v)
                if r and r[-1][1] <= 4096:
                    return True
        return False

    def addfollow(self, task, cfg):
        w = self.w
        f = w.follow.setdefault((task[0], task[1], task[2]), set())
        for c in w.g.classes:
            if type(self.advance(cfg, c, ANY)) is not str:
                f.add(c)
        if self.complete(cfg):
            f.add((self.task[0], self.task[1], self.task[2]))

    def bad(self, eng, st, why):
        """the path has left the grammar; it must end in an error"""
        if st.cl["bad"] is None:
            st.cl["bad"] = (why, st.where())
        st.cl["cfg"] = None
        st.cl["due"] = ()

    # ---- consumption: the lookahead cell is emptied -----------------------------------------------------
    def changed(self, eng, st, old, new):
        co, cn = field(old, 0, self.w.pf["peek"]), field(new, 0, self.w.pf["peek"])
        if co is cn:
            return
        if cn is NONE:
            st.cl["np"] = frozenset()
        if st.cl["err"]:
            return
        if co.k == "A" and co.a[1] == 1 and not (cn.k == "A" and cn.a[1] == 1):
            r = co.a[2][0]
            if r.k == "A" and r.a[1] == 0:
                st.cl["dirty"] = True
                self.consumed(eng, st, field(r.a[2][0], 0, 0))
            st.cl["peeked"] = None
        elif cn.k == "A" and cn.a[1] == 1:
            self.problem(st, "cell", "the lookahead is overwritten", ("P01",))

    def consumed(self, eng, st, t):
        cfg = st.cl["cfg"]
        if cfg is None or self.unit == "Text":
            if self.unit == "Text":
                self.text_token(eng, st, t)
            return
        cls = self.classes(eng, st, t)
        self.resolve_due(eng, st)
        if st.cl["cfg"] is None:
            return
        res = {}
        for c in sorted(cls):
            r = self.advance(cfg, c, t)
            res.setdefault(r if type(r) is str else r[0], (c, r))
        bads = [(c, r) for c, r in res.values() if type(r) is str]
        if bads:
            self.bad(eng, st, bads[0][1])
            return
        if len(res) > 1:
            # the path does not distinguish tokens the grammar distinguishes
            self.bad(eng, st, "tokens %s are treated alike" % " and ".join(sorted(c for c, r in res.values())[:4]))
            return
        (c, r), = res.values()
        st.cl["cfg"] = r[0]
        if r[1].check:
            st.cl["due"] = st.cl["due"] + ((r[1].check, field(t, self.w.tokv["Ident"], 0)),)

    def nonempty(self, v):
        return v.a[0].k in ("tok", "old")        # every token has at least one character

    # the aggregate is rendered token by token; "txt" are the possible renderings, "lv" terms equal to the brace depth
    def text_token(self, eng, st, t):
        if st.cl["err"]:
            return
        ks = self.kindset(eng, st, t)
        lv = st.cl["lv"]
        if ks & {"LeftBrace", "RightBrace"}:
            if len(ks) > 1:
                self.problem(st, "text-brace", "braces are not told apart from other tokens", ("P19", "P01"))
            elif "RightBrace" in ks:
                if not any(self.atleast1(eng, st, x) for x in lv):
                    self.problem(st, "text-depth", "a '}' is consumed that may belong to the option itself", ("P19", "P01"))
                st.cl["lv"] = frozenset(eng.add(x, -1) for x in lv)
            else:
                st.cl["lv"] = frozenset(eng.add(x, 1) for x in lv)
        if st.cl["pendtok"] is not None:
            self.render(eng, st)
        st.cl["pendtok"] = t

    def atleast1(self, eng, st, x):
        r = eng.rng(st, x)
        if r and r[0][0] >= 1:
            return True
        return any(f.k == "ovf" and f.a[0] == "Sub" and f.a[1] is x and v == ((0, 0),) for f, v in st.facts.items())

    def zero(self, eng, st, x):
        return eng.rng(st, x) == ((0, 0),) or any(
            f.k == "ovf" and f.a[0] == "Sub" and f.a[1] is x and f.a[2] is I(1) and v == ((1, 1),) for f, v in st.facts.items())

    def render(self, eng, st):
        """the text written since the last token must be that token, separated from what is there already"""
        t = st.cl["pendtok"]
        if t is None or st.cl["err"]:
            return
        st.cl["pendtok"] = None
        vals = [v for fr in st.frames for v in fr.locals if v is not None] + [v for r, v in st.heap.items() if r != ("H", "parser")]
        vals += [x for v in vals if v.k == "A" for x in v.a[2]]
        out = set()
        d = [x for v in vals for x in subs(v) if x.k == "disp" and x.a[0] is t]
        for g in st.cl["txt"]:
            empty = g is S("") or any(f in (g, mk("len", g)) and v in (((0, 0),), ("S", "", frozenset())) for f, v in st.facts.items())
            for x in set(d):
                for sp in (" ", "\n"):
                    cs = [M.cat(M.cat(g, S(sp)), x), M.cat(M.cat(g, x), S(sp))] + ([M.cat(g, x)] if empty else [])
                    out |= {c for c in cs if c in vals}
        if not out:
            self.problem(st, "text-render", "a token of the aggregate is not written, once and separated, into its text", ("P13",))
            out = {mk("lost")}
        st.cl["txt"] = frozenset(out)

    def widen(self, eng, st, body, local, c, v):
        lv = st.cl.get("lv")
        if self.unit != "Text" or not lv or st.cl["err"]:
            return
        new = set()
        for x in lv:
            bx, ox = (x.a[0], x.a[1]) if x.k == "add" else (x, 0)
            bv, ov = (v.a[0], v.a[1]) if v.k == "add" else (v, 0)
            if x.k == "i" and v.k == "i":
                new.add(x.a[0] - v.a[0])
            elif bx is bv:
                new.add(ox - ov)
        st.cl["lvp"] = st.cl.get("lvp", ()) + tuple((c, k) for k in sorted(new))

    def text_head(self, eng, st):
        p = st.cl.get("lvp", ())
        if p:
            st.cl["lv"] = frozenset(eng.add(c, k) for c, k in p)
            st.cl["lvp"] = ()
        self.render(eng, st)

    # ---- the grammar machine -----------------------------------------------------------------------------
    def advance(self, cfg, c, t):
        """consume a token of class c -> (cfg, leaf) or an error message"""
        g = self.w.g
        cfg0 = cfg
        for _ in range(40):
            top = cfg[-1]
            lf = g.choose(top.unit, top.pos, c)
            if lf is not None:
                if lf.kind != "n":
                    f = top.with_(pos=lf.i, last=mk("span", t), first=top.first or mk("span", t))
                    return (cfg[:-1] + (self.bind(f, lf, t, c),), lf)
                cfg = cfg[:-1] + (top.with_(pos=lf.i), Fr(lf.name))
                continue
            if g.R[top.unit].accepting(top.pos) and len(cfg) > 1:
                cfg = self.pop(cfg)
                if cfg is None:
                    break
                continue
            break
        top = cfg0[-1]
        return "%s is not allowed %s" % (c, self.pos_str(top))

    def pos_str(self, top):
        r = self.w.g.R[top.unit]
        return "at the start of %s" % top.unit if top.pos < 0 else "after %s in %s" % (r.leaves[top.pos], top.unit)

    def advance_nt(self, cfg, u, cls, t, start):
        g = self.w.g
        cfg0 = cfg
        for _ in range(40):
            top = cfg[-1]
            r = g.R[top.unit]
            cands = [r.leaves[i] for i in r.nexts(top.pos) if r.leaves[i].kind == "n"]
            direct = [lf for lf in cands if lf.name == u]
            if len(direct) > 1:
                direct = direct[:1] if len({(d.role, d.lst) for d in direct}) == 1 else []
            for lf in direct or cands:
                okk = True
                for c in (cls if cls is not None else g.classes):
                    ch = g.choose(top.unit, top.pos, c)
                    if ch is not None and ch is not lf and u != "Text":
                        if cls is None and c not in g.first(u):
                            # the construct itself rejects this token: it must not be one another alternative takes
                            pass
                        okk = okk and False
                if not okk and lf in direct:
                    other = next(c for c in sorted(cls if cls is not None else g.classes)
                                 if g.choose(top.unit, top.pos, c) not in (None, lf))
                    return "%s is parsed as %s %s" % (other, u, self.pos_str(top))
                if lf.name == u:
                    if okk:
                        f = top.with_(pos=lf.i, last=mk("uend", t), first=top.first or start or mk("ustart", t))
                        if top.first is None and top.unit == "File":
                            f = f.with_(env=tuple(sorted(f.env + (("_first", t, None),), key=lambda x: x[0])))
                        return (cfg[:-1] + (self.bind(f, lf, t, None),), lf)
                elif okk and u in self.leftmost(lf.name):
                    return self.advance_nt(cfg[:-1] + (top.with_(pos=lf.i), Fr(lf.name)), u, cls, t, start)
            if r.accepting(top.pos) and len(cfg) > 1:
                cfg = self.pop(cfg)
                if cfg is None:
                    break
                continue
            break
        return "%s is not expected %s" % (u, self.pos_str(cfg0[-1]))

    def leftmost(self, unit, seen=None):
        seen = seen if seen is not None else set()
        if unit in seen:
            return seen
        r = self.w.g.R[unit]
        for i in r.first:
            lf = r.leaves[i]
            if lf.kind == "n" and lf.name not in seen:
                seen.add(lf.name)
                self.leftmost2(lf.name, seen)
        return seen

    def leftmost2(self, unit, seen):
        r = self.w.g.R[unit]
        for i in r.first:
            lf = r.leaves[i]
            if lf.kind == "n" and lf.name not in seen:
                seen.add(lf.name)
                self.leftmost2(lf.name, seen)

    def bind(self, f, lf, v, c):
        if lf.lst:
            pend, vid, cnt = f.list(lf.lst)
            return f.setlist(lf.lst, pend + (self.wrap(lf, v),), vid, True)
        if lf.role:
            return f.with_(env=tuple(sorted(tuple(x for x in f.env if x[0] != lf.role) + ((lf.role, v, None),), key=lambda x: x[0])))
        return f

    def pop(self, cfg):
        """leaves an in-line construct: its value is bound in the construct around it"""
        top, par = cfg[-1], cfg[-2]
        v = Builder(self.w, top).value()
        lf = self.w.g.R[par.unit].leaves[par.pos]
        f = par.with_(last=top.last, first=par.first or top.first)
        return cfg[:-2] + (self.bind(f, lf, v, None),)

    def complete(self, cfg):
        g = self.w.g
        while True:
            top = cfg[-1]
            if not g.R[top.unit].accepting(top.pos):
                return None
            if len(cfg) == 1:
                return cfg
            cfg = self.pop(cfg)
            if cfg is None:
                return None

    def wrap(self, lf, v):
        w = lf.wrap
        if w is None:
            return v
        B = Builder(self.w, None)
        if w == "identstr":
            return B.ast("Ident", value=B.conv(field(v, 0, 0)), span=field(v, 0, 1))
        if w == "ident":
            return B.identv(v)
        if w == "strtok":
            return mk("strtok", v)
        return B.variant(w[0], w[1], v)

    # ---- lists -------------------------------------------------------------------------------------------
    def push(self, eng, st, ref, old, elem):
        if elem.k == "A" and elem.a[0] == PEK:
            self.error(eng, st, elem)
            return True
        if not self.astlike(elem):
            return False
        st.cl["_p"] = (old, elem)
        return "virtual"

    def pushed(self, eng, st, vid, elem, ref):
        p = st.cl.pop("_p", None)
        if p is None or st.cl["err"] or st.cl["cfg"] is None:
            return
        old, elem = p
        items = (old.a[2] if old.k == "A" else (old,) if old.k != "V" else ()) + (elem,)
        ovid = old.a[0] if old.k == "V" else None
        cfg = st.cl["cfg"]
        # in-line constructs that are complete are left first when the list belongs to the one around
        tries = [cfg]
        c = cfg
        while len(c) > 1 and self.w.g.R[c[-1].unit].accepting(c[-1].pos):
            c = self.pop(c)
            if c is None:
                break
            tries.append(c)
        for c in tries:
            for d in range(len(c) - 1, -1, -1):
                f = c[d]
                for name, pend, lvid, cnt in f.lists:
                    if len(pend) == len(items) and (lvid is None and ovid is None or lvid is None and not self.bound(c, ovid) or lvid is ovid):
                        if all(Builder(self.w, f).match(a, e) for a, e in zip(items, pend)):
                            f2 = f.setlist(name, (), vid, True)
                            st.cl["cfg"] = c[:d] + (f2,) + c[d + 1:]
                            return
        self.bad_list(eng, st, "%s is added to a list where the grammar has %s" % (
            show(elem)[:120], [(l, show(p)[:120]) for f in cfg for l, p, v, n in f.lists if p] or "no such element"))

    def bound(self, cfg, vid):
        return any(v is vid for f in cfg for _, _, v, _ in f.lists)

    def bad_list(self, eng, st, why):
        self.bad(eng, st, why)

    def newvec(self, eng, st, elemty):
        return elemty.startswith(AST) or elemty == "u8"

    # ---- errors ------------------------------------------------------------------------------------------
    def error(self, eng, st, e):
        """an error is reported: the grammar must justify it"""
        self.obl += 1
        self.no_token(st, e)
        v = self.w.prog.adt_path[PEK]["variants"][e.a[1]]
        fs = dict(zip([f[0] for f in v["fields"]], e.a[2]))
        if "first" in fs and "second" in fs:
            a, b = fs["first"], fs["second"]
            older = [x.k == "f" and any(y.k in ("old", "gone") for y in subs(x)) for x in (a, b)]
            if a is b or older == [False, True] and a.k == "f" and b.k == "f":
                self.problem(st, "diag:%s:order" % v["name"], "of the two places of %s the first is %s and the second %s" % (v["name"], show(a)[:60], show(b)[:60]), ("P30",))
        if st.cl["err"]:
            return
        cfg = st.cl["cfg"]
        if cfg is not None and self.unit != "Text":
            kind = self.w.prog.adt_path[PEK]["variants"][e.a[1]]["name"]
            why = self.semantic(eng, st, kind)
            self.diagnostic(eng, st, e, kind, why)
            if not why:
                cls = self.look(eng, st)
                where = st.where()
                top = cfg[-1]
                if cls is None:
                    self.problem(st, "error:%s:%s" % (kind, self.pos_str(top)), "%s is reported %s whatever follows" % (kind, self.pos_str(top)))
                elif cls == "EOF":
                    if self.complete(cfg):
                        self.w.rejects.append((self.task, "EOF", where, self.pos_str(top), kind))
                else:
                    for c in sorted(cls):
                        if type(self.advance(cfg, c, ANY)) is not str:
                            self.problem(st, "reject:%s:%s" % (c, self.pos_str(top)),
                                         "%s %s is rejected (%s), although the grammar allows it" % (c, self.pos_str(top), kind))
                        elif self.complete(cfg):
                            self.w.rejects.append((self.task, c, where, self.pos_str(top), kind))
        self.to_err(eng, st)

    def diagnostic(self, eng, st, e, kind, why):
        """a diagnostic points at, and names, the token that is not allowed, or the one that breaks a rule"""
        fs = dict(zip([f[0] for f in self.w.prog.adt_path[PEK]["variants"][e.a[1]]["fields"]], e.a[2]))
        top = st.cl["cfg"][-1]
        self.w.stats["diagnostics"] = self.w.stats.get("diagnostics", 0) + 1

        def say(k, what):
            self.problem(st, "diag:%s:%s:%s" % (kind, k, self.pos_str(top)), what, ("P30",))
        c = self.cell(st)
        if why is False:
            look = self.look(eng, st)
            if "span" in fs:
                if look == "EOF":
                    return say("eof", "%s is reported %s at the end of the file, where there is no token to point at" % (kind, self.pos_str(top)))
                if look is None or not (c.k == "A" and c.a[1] == 1 and c.a[2][0].k == "A" and c.a[2][0].a[1] == 0):
                    return
                tk, sp = field(c.a[2][0].a[2][0], 0, 0), field(c.a[2][0].a[2][0], 0, 1)
                if fs["span"] is not sp:
                    if elsewhere(fs["span"], [sp]):
                        say("span", "the diagnostic about the token %s has the span %s" % (self.pos_str(top), show(fs["span"])[:80]))
                    return
                if "found" in fs:
                    f = fs["found"]
                    ts = [x for x in [f] + list(subs(f)) if x.k in ("tok", "u")]
                    if ts and not any(x is tk or x in subs(tk) for x in ts):
                        say("found", "the diagnostic %s names %s; found is %s" % (self.pos_str(top), show(f)[:80], show(tk)[:80]))
            elif kind == "UnexpectedEof" and look is not None and look != "EOF":
                say("eof", "the end of the file is reported %s although a token follows" % self.pos_str(top))
            if "expected" in fs:
                r = self.w.g.R[top.unit]
                end = len(st.cl["cfg"]) == 1 and r.accepting(top.pos)      # what may follow is the caller's to say
                for name in quoted(self.w.prog, fs["expected"]) if not end else ():
                    if (top.unit, name) == ("File", "Ident:package"):
                        continue                # a second package has a diagnostic of its own
                    if name in self.w.g.classes and type(self.advance(st.cl["cfg"], name, ANY)) is str:
                        say("expected:" + name, "%s is said to be expected %s, where it is not allowed" % (name, self.pos_str(top)))
        elif type(why) is tuple and "span" in fs:
            want = [x for x in why if x is not None]
            if want and elsewhere(fs["span"], want):
                say("span", "%s has the span %s; expected %s" % (kind, show(fs["span"])[:80], " or ".join(show(x)[:60] for x in want)))

    def valspan(self, val):
        """the span of a value that has been checked"""
        if val.k == "u":
            return field(val, 0, 1)
        for x in [val] + list(subs(val)):
            if x.k == "tok":
                return mk("span", x)
            if x.k == "u":
                return field(x, 0, 1)
        return None

    def semantic(self, eng, st, kind):
        """errors about the meaning of a token: the check that justifies it has failed on this path"""
        broken = []
        for chk, val in st.cl["due"]:
            for t, f in st.facts.items():
                if t.k == "call" and t.a[0] in self.w.preds and len(t.a[1]) == 1 and self.sameval(chk, t.a[1][0], val) and f == ((0, 0),):
                    self.w.used_preds.setdefault(chk, set()).add(t.a[0])
                    broken.append(self.valspan(val))
        if broken:
            return tuple(broken)
        if kind == "InvalidUtf8String":
            us = [x for t, f in st.facts.items() if t.k == "pred" and t.a[0] == "utf8" and f == ((0, 0),) for x in subs(t)
                  if x.k == "u" and x.a[0] == "String"]
            if us:
                return tuple(field(x, 0, 1) for x in us)
        for t, f in st.facts.items():
            if t.k == "pfield" and f[0] != "S" and f[0][0] >= 16:
                return True              # a limit on a counter has been reached
        if kind == "UnknownSyntax" and self.syntax_value(eng, st) == "other":
            return tuple(field(x, 0, 1) for x in {x for t in st.facts for x in subs(t) if x.k == "u" and x.a[0] in ("String", "Utf8String")})
        return False

    def sameval(self, chk, a, val):
        if val.k == "u":
            val = field(val, 0, 0)
        return a is val or M.strip_conv(a) is M.strip_conv(val) if hasattr(M, "strip_conv") else a is val

    def resolve_due(self, eng, st, final=False):
        if not st.cl["due"]:
            return
        left = []
        for chk, val in st.cl["due"]:
            good = False
            for t, f in list(st.facts.items()):
                if t.k == "call" and t.a[0] in self.w.preds and len(t.a[1]) == 1 and self.sameval(chk, t.a[1][0], val):
                    if f == ((1, 1),):
                        good = True
                        self.w.used_preds.setdefault(chk, set()).add(t.a[0])
            if not good:
                left.append((chk, val))
        if final and left:
            self.problem(st, "check:" + left[0][0], "%s is not checked to be a valid %s" % (show(left[0][1]), left[0][0]), ("P12" if left[0][0] == "import" else "P15",))
            left = []
        st.cl["due"] = tuple(left)

    def syntax_value(self, eng, st):
        """which of the two syntax names the path has compared the string with"""
        poss = {}
        exact = None
        for name in ("proto2", "proto3"):
            good, known, ln = True, set(), False
            for t, f in st.facts.items():
                if not f or not any(x.k == "u" and x.a[0] in ("String", "Utf8String") for x in subs(t)):
                    continue
                if f[0] == "S":
                    if f[1] is not None:
                        good = good and f[1] == name
                        if f[1] == name:
                            exact = name
                    good = good and name not in f[2]
                elif t.k == "len":
                    good = good and any(l <= len(name) <= h for l, h in f)
                    ln = ln or f == ((len(name),) * 2,)
                elif t.k == "at" and t.a[1].k == "i" and 0 <= t.a[1].a[0] < len(name):
                    c = ord(name[t.a[1].a[0]])
                    good = good and any(l <= c <= h for l, h in f)
                    if f == ((c, c),):
                        known.add(t.a[1].a[0])
            if good and ln and len(known) == len(name):
                exact = name
            poss[name] = good
        if exact:
            return exact
        return "other" if not any(poss.values()) else None

    # ---- problems -----------------------------------------------------------------------------------------
    def problem(self, st, key, what, props=("P01",)):
        self.w.report(self.task, key, what, st.where(), " / ".join(path_str(st.trace, 12)), props)

    def head(self, eng, st):
        super().head(eng, st)
        self.drop_empty(st)
        if st.cl["err"]:
            self.erase(eng, st)
        elif self.unit == "Text":
            self.text_head(eng, st)

    def drop_empty(self, st):
        """a string literal without bytes adds nothing"""
        cfg = st.cl["cfg"]
        if self.unit != "String" or cfg is None or not st.facts:
            return
        new = []
        for f in cfg:
            for name, pend, vid, cnt in f.lists:
                rest = tuple(x for x in pend if not (x.k == "strtok" and self.emptytok(st, x.a[0])))
                if len(rest) != len(pend) and (rest or vid is not None or cnt):
                    f = f.setlist(name, rest, vid, cnt)
            new.append(f)
        st.cl["cfg"] = tuple(new)

    def emptytok(self, st, t):
        for f, v in st.facts.items():
            if f.k == "len" and v == ((0, 0),) and self.payloadlike(f.a[0]) and f.a[0].a[0] is t:
                return True
        return False

    def erase(self, eng, st):
        """after an error the values of what has been parsed do not matter"""
        keep = {x for x in subs(self.cell(st)) if x.k in ("tok", "left")}
        done = {}

        def sub(v, path):
            if v.k == "A":
                return mk("A", v.a[0], v.a[1], tuple(sub(x, path + (i,)) for i, x in enumerate(v.a[2])))
            if v.k == "V":
                return mk("V", v.a[0], frozenset())
            if v.k in ("R", "it", "clos", "i", "s", "zst", "fn", "undef"):
                return v
            ss = subs(v)
            if any(x in keep for x in ss) or not any(x.k in ("tok", "u", "cm", "old", "left", "gone", "at") for x in ss):
                return v
            return done.setdefault(v, mk("gone", path))

        for d, fr in enumerate(st.frames):
            for i, v in enumerate(fr.locals):
                if v is not None:
                    fr.locals[i] = sub(v, (d, i))
        for r in list(st.heap):
            if r != ("H", "parser"):
                st.heap[r] = sub(st.heap[r], r)
        for f in list(st.facts):
            if not self.sticky(f) and not any(x in keep for x in subs(f)):
                del st.facts[f]

    def stuck(self, eng, st):
        self.problem(st, "progress", "an iteration of this loop reads no token", ("P06",))

    def renamed(self, eng, st, old, new):
        super().renamed(eng, st, old, new)
        c = st.cl
        if c.get("cfg") is not None:
            c["cfg"] = tuple(f.map(lambda v: M.rename(v, old, new)) for f in c["cfg"])
        if c.get("due"):
            if any(old in subs(v) for _, v in c["due"]):
                self.resolve_due(eng, st)
            c["due"] = tuple((k, M.rename(v, old, new)) for k, v in c["due"])
        if c.get("txt"):
            c["txt"] = frozenset(M.rename(x, old, new) for x in c["txt"])
            c["lv"] = frozenset(M.rename(x, old, new) for x in c["lv"])
            c["pendtok"] = c["pendtok"] and M.rename(c["pendtok"], old, new)
        p = c.get("_p")
        if p is not None:
            c["_p"] = tuple(M.rename(x, old, new) for x in p)

    # ---- end ------------------------------------------------------------------------------------------------
    def finish(self, eng, outs):
        w = self.w
        for st, v in outs:
            self.obl += 1
            self.drop_empty(st)
            if v.k != "A" or v.a[0] != RES:
                self.problem(st, "result", "the result cannot be followed: %s" % show(v)[:100])
                continue
            if v.a[1] == 1:
                if not st.cl["err"]:
                    self.problem(st, "silent", "an error is returned although none has been reported", ("P05",))
                for i, x in enumerate(self.pv(st).a[2]):
                    if i not in self.w.pf.values() and x.k == "add" and x.a[0] is mk("pfield", i):
                        self.problem(st, "counter-error", "the parser's counter is off by %d after a construct that failed: what follows is judged by it" % x.a[1],
                                     ("P30", "P07") if x.a[1] < 0 else ("P30",))
                continue
            if st.cl["err"]:
                continue
            for i, x in enumerate(self.pv(st).a[2]):
                if i not in self.w.pf.values() and x is not mk("pfield", i):
                    self.problem(st, "counter", "the parser's state has changed to %s after the construct" % show(x)[:60], ("P01", "P07"))
            if self.unit == "Text":
                if self.mode(st) is not FALSE:
                    self.problem(st, "mode-exit", "text-format mode is left on", ("P19",))
                cls = self.look(eng, st)
                if type(cls) is frozenset and not any(self.zero(eng, st, x) for x in st.cl["lv"]):
                    self.problem(st, "text-depth-exit", "the aggregate is ended by a '}' that may belong to a nested message", ("P19", "P01"))
                st.frames = []
                st.heap[("H", "result")] = v.a[2][0]
                self.render(eng, st)
                if v.a[2][0] not in st.cl["txt"] and mk("lost") not in st.cl["txt"]:
                    self.problem(st, "text-result", "the text returned is not the tokens written one after the other", ("P13",))
                if cls != "EOF" and not (type(cls) is frozenset and cls <= {"RightBrace"}):
                    self.problem(st, "text-exit", "the aggregate ends before %s" % (sorted(cls)[:5] if cls else "an unread token"), ("P19", "P01"))
                continue
            self.clean(st)
            if self.mode(st) is not FALSE:
                self.problem(st, "mode-exit", "text-format mode is left on", ("P19",))
            if st.cl["bad"] is not None:
                self.w.report(self.task, "accept:" + st.cl["bad"][0], "accepted although %s" % st.cl["bad"][0], st.cl["bad"][1],
                              " / ".join(path_str(st.trace, 12)))
                continue
            self.resolve_due(eng, st, True)
            cfg = self.complete(st.cl["cfg"])
            if cfg is None:
                top = st.cl["cfg"][-1]
                self.problem(st, "incomplete:%s" % self.pos_str(top), "accepted although it ends %s" % self.pos_str(top))
                continue
            cls = self.look(eng, st)
            if self.unit == "File" and cls != "EOF":
                self.problem(st, "eof", "the file is accepted before its end has been reached (lookahead %s)" % (sorted(cls)[:5] if cls else "not read"))
                continue
            more = [c for c in (w.g.classes if cls is None else [] if cls == "EOF" else sorted(cls))
                    if type(self.advance(st.cl["cfg"], c, ANY)) is not str]
            if more:
                self.problem(st, "early:%s" % more[0], "%s is taken to end before %s, which continues it" % (self.unit, more[0]))
                continue
            if self.unit in G.COMMENTED and st.cl["peeked"] == "skip":
                self.problem(st, "skipped", "the comments after this construct are dropped before the next one can take them", ("P04",))
            b = Builder(w, cfg[0], self, eng, st)
            exp = b.value()
            if not b.match(v.a[2][0], exp):
                for what, props in b.diffs[:3]:
                    self.problem(st, "value:" + what.split(":")[0], what, props)


class Builder:
    """the syntax tree node for a completed construct"""

    def __init__(self, w, fr, client=None, eng=None, st=None):
        self.w, self.fr, self.client, self.eng, self.st = w, fr, client, eng, st
        self.diffs = []

    def conv(self, v):
        return v

    def ast(self, _n, **fs):
        a = self.w.prog.adt_path[AST + _n]
        names = [f[0] for f in a["variants"][0]["fields"]]
        for f in fs:
            if f not in names:
                raise Unsupported("the syntax tree node %s has no field %s" % (_n, f))
        return A(AST + _n, 0, [fs.get(n, ANY) for n in names])

    def variant(self, adt, var, *xs, **fs):
        a = self.w.prog.adt_path[AST + adt]
        for i, v in enumerate(a["variants"]):
            if v["name"] == var:
                if fs:
                    return A(AST + adt, i, [fs.get(f[0], ANY) for f in v["fields"]])
                return A(AST + adt, i, xs)
        raise Unsupported("no variant %s::%s" % (adt, var))

    def payload(self, t, kind):
        return field(t, self.w.tokv[kind], 0)

    def identv(self, t):
        return self.ast("Ident", value=self.payload(t, "Ident"), span=mk("span", t))

    def rng(self, a, b):
        return A(RANGE, 0, (mk("startof", a), mk("endof", b)))

    def span(self):
        return self.rng(self.fr.first, self.fr.last)

    def comments(self):
        d = {k: (v, g) for k, v, g in self.fr.cm}
        lead, trail = d.get("lead"), d.get("trail")
        bad = mk("nocomment")
        lv = lead[0] if lead and lead[1] else bad
        tv = trail[0] if trail and trail[1] else bad
        return self.ast("Comments", leading_detached_comments=mk("cmt", field(lv, 0, 0)), leading_comment=mk("cmt", field(lv, 0, 1)),
                        trailing_comment=mk("cmt", tv))

    def lst(self, name):
        return mk("list", name)

    def opt(self, role):
        v = self.fr.get(role)
        return NONE if v is None else some(v)

    def optspan(self, role):
        v = self.fr.get(role)
        return NONE if v is None else some(mk("span", v))

    def spanof(self, ty, v):
        return mk("extent", ty, v)

    def value(self):
        return getattr(self, "b_" + self.fr.unit)()

    def b_File(self):
        f = self.fr
        sx = f.get("syntax")
        if sx is None:
            syn, sspan = self.variant("Syntax", "Proto2"), NONE
        else:
            syn, sspan = field(sx, 0, 0), some(tup(field(sx, 0, 1), field(sx, 0, 2)))
        return self.ast("File", span=mk("filespan"), syntax=syn, syntax_span=sspan, package=self.opt("package"),
                        imports=self.lst("imports"), options=self.lst("options"), items=self.lst("items"))

    def b_Syntax(self):
        name = self.client.syntax_value(self.eng, self.st) if self.client else None
        v = {"proto2": self.variant("Syntax", "Proto2"), "proto3": self.variant("Syntax", "Proto3")}.get(name, mk("nosyntax"))
        return tup(v, self.span(), self.comments())

    def b_Import(self):
        f, kind = self.fr, NONE
        for r, vn in (("weak", "Weak"), ("public", "Public")):
            if f.get(r) is not None:
                kind = some(tup(self.variant("ImportKind", vn), mk("span", f.get(r))))
        u = f.get("value")
        return self.ast("Import", kind=kind, value=field(u, 0, 0), value_span=field(u, 0, 1), comments=self.comments(), span=self.span())

    def b_Package(self):
        return self.ast("Package", name=self.fr.get("name"), comments=self.comments(), span=self.span())

    def name(self):
        return self.identv(self.fr.get("name"))

    def body(self):
        b = self.fr.get("body")
        return field(b, 0, 0), field(b, 0, 1)

    def b_Message(self):
        b, end = self.body()
        return self.ast("Message", name=self.name(), body=b, comments=self.comments(), span=self.rng(self.fr.first, end))

    def b_Body(self):
        return tup(self.ast("MessageBody", **{k: self.lst(k) for k in ("items", "extensions", "options", "reserved")}),
                   mk("span", self.fr.get("end")))

    def b_Field(self):
        f, label = self.fr, NONE
        for r, vn in (("optional", "Optional"), ("required", "Required"), ("repeated", "Repeated")):
            if f.get(r) is not None:
                label = some(tup(self.variant("FieldLabel", vn), mk("span", f.get(r))))
        span = self.span()
        if f.get("map") is not None:
            k, v = f.get("key"), f.get("val")
            kind = self.variant("FieldKind", "Map", ty_span=self.rng(mk("span", f.get("map")), mk("span", f.get("mapend"))),
                                key_ty=field(k, 0, 0), key_ty_span=field(k, 0, 1), value_ty=field(v, 0, 0), value_ty_span=field(v, 0, 1))
        elif f.get("group") is not None:
            b, end = self.body()
            kind = self.variant("FieldKind", "Group", ty_span=mk("span", f.get("group")), body=b)
            span = self.rng(f.first, end)
        else:
            u = f.get("ty")
            kind = self.variant("FieldKind", "Normal", ty=field(u, 0, 0), ty_span=field(u, 0, 1))
        return self.ast("Field", label=label, name=self.name(), kind=kind, number=f.get("number"), options=self.opt("options"),
                        comments=self.comments(), span=span)

    def b_Extend(self):
        return self.ast("Extend", extendee=self.fr.get("extendee"), fields=self.lst("fields"), comments=self.comments(), span=self.span())

    def b_Service(self):
        return self.ast("Service", name=self.name(), options=self.lst("options"), methods=self.lst("methods"),
                        comments=self.comments(), span=self.span())

    def b_Method(self):
        return self.ast("Method", name=self.name(), input_ty=self.fr.get("input"), output_ty=self.fr.get("output"),
                        options=self.lst("options"), client_streaming=self.optspan("cs"), server_streaming=self.optspan("ss"),
                        comments=self.comments(), span=self.span())

    def b_Enum(self):
        return self.ast("Enum", name=self.name(), options=self.lst("options"), values=self.lst("values"),
                        reserved=self.lst("reserved"), comments=self.comments(), span=self.span())

    def b_EnumValue(self):
        return self.ast("EnumValue", name=self.name(), number=self.fr.get("number"), options=self.opt("options"),
                        comments=self.comments(), span=self.span())

    def b_Oneof(self):
        return self.ast("Oneof", name=self.name(), options=self.lst("options"), fields=self.lst("fields"),
                        comments=self.comments(), span=self.span())

    def b_Type(self):
        u = self.fr.get("name")
        if u is not None:
            return tup(self.variant("Ty", "Named", u), self.spanof("TypeName", u))
        for s in G.SCALARS:
            v = self.fr.get("kw:" + s)
            if v is not None:
                return tup(self.variant("Ty", s.capitalize()), mk("span", v))

    def b_Reserved(self):
        if any(l[0] == "names" for l in self.fr.lists):
            kind = self.variant("ReservedKind", "Names", self.lst("names"))
        else:
            kind = self.variant("ReservedKind", "Ranges", self.lst("ranges"))
        return self.ast("Reserved", kind=kind, comments=self.comments(), span=self.span())

    def b_Extensions(self):
        return self.ast("Extensions", ranges=self.lst("ranges"), options=self.opt("options"), comments=self.comments(), span=self.span())

    def b_Range(self):
        f = self.fr
        if f.get("max") is not None:
            end = self.variant("ReservedRangeEnd", "Max", mk("span", f.get("max")))
        elif f.get("end") is not None:
            end = self.variant("ReservedRangeEnd", "Int", f.get("end"))
        else:
            end = self.variant("ReservedRangeEnd", "None")
        return self.ast("ReservedRange", start=f.get("start"), end=end)

    def b_OptionList(self):
        return self.ast("OptionList", options=self.lst("options"), span=self.span())

    def b_Option(self):
        return self.ast("Option", body=self.fr.get("body"), comments=self.comments(), span=self.span())

    def b_OptionBody(self):
        f = self.fr
        neg = f.get("minus")

        def sp(role):
            x = mk("span", f.get(role))
            return x if neg is None else self.rng(mk("span", neg), x)

        if f.get("ident") is not None:
            v = self.variant("OptionValue", "Ident", negative=I(int(neg is not None)), ident=self.identv(f.get("ident")), span=sp("ident"))
        elif f.get("int") is not None:
            v = self.variant("OptionValue", "Int", self.ast("Int", negative=I(int(neg is not None)),
                                                            value=self.payload(f.get("int"), "IntLiteral"), span=sp("int")))
        elif f.get("float") is not None:
            x = field(self.payload(f.get("float"), "FloatLiteral"), 0, 0)
            v = self.variant("OptionValue", "Float", self.ast("Float", value=x if neg is None else mk("neg", x), span=sp("float")))
        elif f.get("string") is not None:
            v = self.variant("OptionValue", "String", f.get("string"))
        else:
            v = self.variant("OptionValue", "Aggregate", f.get("text"), self.rng(mk("span", f.get("lb")), mk("span", f.get("rb"))))
        return self.ast("OptionBody", name=self.lst("name"), value=v)

    def b_NamePart(self):
        f = self.fr
        if f.get("ident") is not None:
            return self.variant("OptionNamePart", "Ident", self.identv(f.get("ident")))
        return self.variant("OptionNamePart", "Extension", f.get("name"), self.span())

    def b_TypeName(self):
        return self.ast("TypeName", leading_dot=self.optspan("dot"), name=self.fr.get("name"))

    def b_FullIdent(self):
        return self.ast("FullIdent", parts=self.lst("parts"))

    def b_Int(self):
        neg, i = self.fr.get("minus"), self.fr.get("int")
        return self.ast("Int", negative=I(int(neg is not None)), value=self.payload(i, "IntLiteral"), span=self.span())

    def b_String(self):
        return self.ast("String", value=self.lst("bytes"), span=self.span())

    def b_Utf8String(self):
        u = self.fr.get("s")
        ia = self.w.prog.adt_path[AST + "String"]["variants"][0]["fields"]
        names = [f[0] for f in ia]
        return tup(mk("utf8", field(u, 0, names.index("value"))), field(u, 0, names.index("span")))

    def b_Text(self):
        return ANY

    # ---- comparison -------------------------------------------------------------------------------------
    def diff(self, what, props=("P01", "P02")):
        self.diffs.append((what, props))
        return False

    def match(self, a, e, path=""):
        k = e.k
        if e is ANY or a is e:
            return True
        if k == "list":
            pend, vid, cnt = self.fr.list(e.a[0])
            if a.k == "V":
                if a.a[0] is vid and not pend:
                    return True
                if vid is None and not pend and not cnt and not a.a[1]:
                    return True
            elif a.k == "A" and a.a[0] == "vec" and vid is None and len(a.a[2]) == len(pend):
                if all(self.match(x, y, path) for x, y in zip(a.a[2], pend)):
                    return True
            elif vid is None and len(pend) == 1 and self.match(a, pend[0]):
                return True
            return self.diff("%s: the %s are %s, not the parsed elements in order%s" % (
                path, e.a[0], show(a)[:80], " (missing %s)" % show(pend)[:80] if pend else ""))
        if k == "extent":
            ex = asts.Extent(self.w.prog, asts.full_fns(self.w.prog))
            r = ex.whole(self.eng, self.st, a, e.a[1], e.a[0])
            return r is not False or self.diff("%s: the span is %s instead of the extent of the %s" % (path, show(a)[:120], e.a[0]), ("P01", "P03"))
        if k == "cmt":
            return True if a is e.a[0] else self.diff("%s: the comment is %s instead of the construct's own" % (path, show(a)[:80]), ("P04",))
        if k == "strtok":
            p = self.payload(e.a[0], "StringLiteral")
            return a is p or self.diff("%s: %s instead of the string's bytes" % (path, show(a)[:80]))
        if k == "utf8":
            return (any(x is e.a[0] for x in subs(a)) and a.k != "A") or self.diff("%s: %s" % (path, show(a)[:80]))
        if k == "filespan":
            return self.filespan(a) or self.diff("%s: the file's span is %s" % (path, show(a)[:120]), ("P01", "P03"))
        if k == "A" and e.a[0] == RANGE:
            s, t = self.nrange(a)
            return (self.same(s, self.nstart(e.a[2][0].a[0])) and self.same(t, self.nend(e.a[2][1].a[0]))) or self.diff(
                "%s: the span is %s instead of %s" % (path, show(a)[:160], show(e)[:160]), ("P01", "P03"))
        if k == "A":
            if a.k != "A" or a.a[0] != e.a[0] or a.a[1] != e.a[1] or len(a.a[2]) != len(e.a[2]):
                # a copy of a symbolic value may be taken apart and put together again
                return self.diff("%s: %s instead of %s" % (path, show(a)[:100], show(e)[:100]))
            names = self.fieldnames(e)
            good = True
            for i, (x, y) in enumerate(zip(a.a[2], e.a[2])):
                good = self.match(x, y, (path + "." if path else "") + names(i)) and good
            return good
        if k in ("u", "f", "tok", "span", "call", "nosyntax", "neg") and self.rebuilt(a, e):
            return True
        return self.diff("%s: %s instead of %s" % (path, show(a)[:100], show(e)[:100]))

    def rebuilt(self, a, e):
        """a structural copy of a symbolic value"""
        if a is e:
            return True
        if a.k == "A" and a.a[0] == RANGE and len(a.a[2]) == 2:
            return self.nrange(a) == (self.nstart(e), self.nend(e))
        if a.k == "A" and a.a[2]:
            return all(x is field(e, a.a[1], i) or self.rebuilt(x, field(e, a.a[1], i)) for i, x in enumerate(a.a[2]))
        return False

    def fieldnames(self, e):
        a = self.w.prog.adt_path.get(e.a[0])
        if a and e.a[1] < len(a["variants"]):
            fs = a["variants"][e.a[1]]["fields"]
            nm = short(e.a[0])
            return lambda i: nm + "." + fs[i][0] if i < len(fs) else str(i)
        return lambda i: str(i)

    def nrange(self, a):
        if a.k == "A" and len(a.a[2]) == 2:
            s, t = a.a[2]
            return (self.nstart(s.a[0]) if s.k == "f" and s.a[2] == 0 else s, self.nend(t.a[0]) if t.k == "f" and t.a[2] == 1 else t)
        return self.nstart(a), self.nend(a)

    def same(self, a, b):
        return a is b

    def nstart(self, x):
        """canonical term for the start of a span"""
        if x.k == "A" and len(x.a[2]) == 2:
            s = x.a[2][0]
            return self.nstart(s.a[0]) if s.k in ("f", "startof") else s
        if x.k == "ustart":
            return x
        return mk("S", x)

    def nend(self, x):
        if x.k == "A" and len(x.a[2]) == 2:
            s = x.a[2][1]
            return self.nend(s.a[0]) if s.k == "f" and s.a[2] == 1 or s.k == "endof" else s
        return mk("E", x)

    def filespan(self, a):
        fr = self.fr
        if fr.last is None:
            return True                  # an empty file
        s, e = self.nrange(a)
        return (s is mk("S", fr.first) or self.edge(s, fr.first, "S")) and (e is mk("E", fr.last) or self.edge(e, fr.last, "E"))

    def edge(self, x, at, k):
        """x is the start (end) of the span that the first (last) construct of the file has in the tree"""
        if x.k != k or x.a[0].k != "f":
            return False
        o = x.a[0]
        u = base(o.a[0])
        if k == "E":
            if at.k != "uend" or at.a[0] is not o.a[0]:
                return False
        else:
            # the first construct starts with the first token
            if self.fr.get("_first") is not o.a[0] or at is not self.fr.first:
                return False
        names = [f[0] for f in self.w.prog.adt_path[AST + u.a[0]]["variants"][0]["fields"]] if u.a[0] != "Syntax" else ["", "span", ""]
        return u.k == "u" and o.a[2] < len(names) and names[o.a[2]] == "span"


def base(t):
    while t.k == "old":
        t = t.a[0]
    return t


def analyse(prog):
    """analyses every construct; a function that does not parse a construct on its own is analysed as part of its callers"""
    t0 = time.time()
    allow(240)
    w = analyse_with(prog, frozenset())
    if not w.viol or w.cut:
        return w
    bad = {t for t in w.badkeys if t in w.units and w.units[t] != "File"}
    callees = {}
    for a, bs in w.calls.items():
        for b in bs:
            callees.setdefault(b, set()).add(a)
    tries = [frozenset(bad)] if bad else []
    tries += [frozenset([k]) for k in sorted(bad)] if len(bad) > 1 else []
    one = sorted(b for b, cs in callees.items() if len(cs) == 1 and (cs & w.badkeys or b in w.badkeys) and b not in bad and w.units.get(b) != "File")
    tries += [frozenset([k]) for k in one]
    for t in tries[:14]:
        allow(400 - (time.time() - t0))
        w2 = analyse_with(prog, t, True)
        if late():
            break
        if not w2.viol:
            return w2
    return w


def analyse_with(prog, inline, fast=False):
    """fast: only whether there is a violation matters"""
    w = World(prog)
    w.cut = False
    w.inline = set(inline)
    w.predn = {k for k in w.preds}
    import comments
    w.resets = comments.resets(w)
    c = comments.analyse(w, lambda key, what, props=("P04",), b=None, where="": w.report(
        None, "comments-" + key, what, where or (b.key if b else ""), props=props))
    w.stats["obligations"] += c["obligations"]
    w.stats["steps"] += c["steps"]
    roots = [k for k, u in w.units.items() if u == "File"]
    if not w.peeks:
        w.report(None, "peek", "no function looks at the next token and leaves everything else alone", props=("P01", "P04", "P06"))
    if not roots:
        raise Unsupported("no parser entry")
    for k in roots:
        w.follow[("File", k, ())] = {"EOF"}
        w.want(("File", k, (), "none"))
    while w.queue:
        task = w.queue.pop()
        run_task(w, task)
        if fast and w.viol:
            return w
        if late():
            w.cut = True
            w.und.append("no time left for %d function(s) the parser calls" % len(w.queue))
            return w
    # rejections in a complete construct are right unless something around it goes on with that token
    fol = {t: {x for x in s if type(x) is str} for t, s in w.follow.items()}
    ch = True
    while ch:
        ch = False
        for t, s in w.follow.items():
            for x in s:
                if type(x) is tuple and not fol.get(x, set()) <= fol[t]:
                    fol[t] |= fol.get(x, set())
                    ch = True
    for task, c, where, pos, kind in w.rejects:
        if c in fol.get((task[0], task[1], task[2]), ()):
            w.report(task, "reject:%s:%s" % (c, pos), "%s %s is rejected (%s), although it may follow here" % (c, pos, kind), where)
    for c in w.cycles():
        w.report(None, "recursion", "%s call each other for every level of nesting in the source, without a limit" %
                 ", ".join(x.split("::")[-1] for x in c), props=("P07",))
    w.stats["functions"] = len(w.fns)
    return w


MAXSTATES = 100_000        # several times what a function of the parser needs


def run_task(w, task):
    c = PClient(w, task)
    eng = Eng(w.prog, c, max_steps=4_000_000)
    eng.max_states = MAXSTATES
    clock = CLOCK[0]
    if task[0] != "File":
        allow(60)
        CLOCK[0] = CLOCK[0] and clock and min(CLOCK[0], clock)
    try:
        try:
            outs = c.start(eng)
        except Budget as x:
            # the paths that were followed to their end are judged all the same
            w.und.append("%s in context %s is not followed to the end: %s" % (task[0], task[3], str(x)[:200]))
            outs = list(eng.out)
        CLOCK[0] = clock
        c.finish(eng, outs)
    except (Budget, Unsupported, KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError, AssertionError) as x:
        # a form of code the interpretation cannot follow: the function is undecided in this context
        w.und.append("%s in context %s cannot be followed: %s: %s" % (task[0], task[3], type(x).__name__, str(x)[:200]))
        outs = []
    finally:
        CLOCK[0] = clock
    for what, where in c.panics:
        w.report(task, "panic:" + what, "a panic can be reached: %s" % what, where, props=("P07",))
    w.fns |= eng.functions
    s = w.stats
    s["tasks"] += 1
    s["states"] += eng.nstates
    s["steps"] += eng.steps
    s["paths"] += len(outs)
    s["obligations"] += c.obl
    w.tasks[task] = len(outs)


if __name__ == "__main__":
    import sys, time, build, mir
    t0 = time.time()
    prog = mir.Program(build.ensure(("protox_parse",)))
    w = analyse(prog)
    print(w.stats, "%.1fs" % (time.time() - t0))
    print("peeks", w.peeks, w.collects)
    for v in list(w.viol.values())[:int(sys.argv[1]) if len(sys.argv) > 1 else 60]:
        print(v["key"], "|", v["what"][:300], "|", v["where"], "|", v["cond"][-200:])
    for t, nn in w.tasks.items():
        print(t[0], t[3], nn)
