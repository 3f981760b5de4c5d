"""Specification of the descriptor generator and its comparison with the abstract paths of the code.

Every unit (file, message body, field, enum, ...) is a generator function analysed by gen.py with symbolic AST input.
Here each of its paths is compared with what the descriptor of that AST node has to be.  Obligations are tagged with
the properties they belong to."""
import re
from ai import *
import models as M
import asts
import gen
from gen import AST, PT, NODE, CTX, OPTN, VEC, UOPT, Split, decide, Q

N31 = 2 ** 31 - 1
MAXF = 536870911
FDT = PT + "field_descriptor_proto::Type"
TYCODE = dict(Double=1, Float=2, Int64=3, Uint64=4, Int32=5, Fixed64=6, Fixed32=7, Bool=8, String=9, Group=10, Message=11,
              Bytes=12, Uint32=13, Enum=14, Sfixed32=15, Sfixed64=16, Sint32=17, Sint64=18)
NODE_T = P("node")
SYN = P("syntax")


NARROW = ("f32", "i64", "i32", "u32", "i16", "u16", "i8", "u8", "isize")


def flsign(x):
    """(is it negated?, what is below negations and casts)"""
    n = 0
    while x.k in ("neg", "fneg", "cast", "un"):
        n ^= x.k != "cast"
        x = x.a[-1]
    return n, x


def casts(x):
    out = []
    while x.k in ("neg", "fneg", "cast", "un"):
        if x.k == "cast":
            out.append(x.a[0])
        x = x.a[-1]
    return out


class Mismatch(Exception):
    def __init__(self, props, what, detail=""):
        self.props, self.what, self.detail = props, what, detail


class Bad(Exception):
    """the specification requires the input to be rejected"""


class Justified(Exception):
    """the diagnostic is about a rule that is broken there"""


class Undecided(Exception):
    pass


def fail(props, what, detail=""):
    raise Mismatch(props.split() if isinstance(props, str) else props, what, detail)


class Ast:
    """typed view of an AST term"""

    def __init__(self, sp, t, ty):
        self.sp, self.t, self.ty = sp, t, ty

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self.get(name)

    def get(self, name, variant=None):
        sch = self.sp.sch
        path = AST + self.ty
        vi, i = sch.fidx(path, name, variant)
        return Ast.wrap(self.sp, field(self.t, vi, i), sch.tystr(path, vi, i))

    @staticmethod
    def wrap(sp, t, tystr):
        m = re.fullmatch(r"protox_parse::ast::(\w+)", tystr)
        if m:
            return Ast(sp, t, m.group(1))
        m = re.fullmatch(r"std::option::Option<(.*)>", tystr)
        if m:
            return AOpt(sp, t, m.group(1))
        m = re.fullmatch(r"std::vec::Vec<(.*)>", tystr)
        if m:
            return AVec(sp, t, m.group(1))
        m = re.fullmatch(r"\((.*)\)", tystr)
        if m:
            return ATup(sp, t, [x.strip() for x in m.group(1).split(",")])
        return t

    def variant(self, q):
        return q.variant(self.t, AST + self.ty)


class AOpt:
    def __init__(self, sp, t, inner):
        self.sp, self.t, self.inner = sp, t, inner

    def get(self, q):
        p = q.opt(self.t)
        return None if p is None else Ast.wrap(self.sp, p, self.inner)


class AVec:
    def __init__(self, sp, t, inner):
        self.sp, self.t, self.inner = sp, t, inner

    def elem(self):
        return Ast.wrap(self.sp, mk("elem", self.t), self.inner)


class ATup:
    def __init__(self, sp, t, tys):
        self.sp, self.t, self.tys = sp, t, tys

    def __getitem__(self, i):
        return Ast.wrap(self.sp, field(self.t, 0, i), self.tys[i])


def raw(x):
    return x if type(x) is N else x.t


class Spec:
    def __init__(self, prog, done):
        """done: {(unit, key, rest): (eng, client)}"""
        self.prog, self.done = prog, done
        self.sch = gen.Schema(prog)
        self.viol = []
        self.undecided = []
        self.rejects = {}
        self.spotted = {}
        self.case_fns = set()
        self.stats = {}
        self.roles = {}          # vid -> (descriptor type, field)
        self.X = {}              # task -> suffix of the unit's location path relative to the path at entry
        self.linefns = set(gen.line_fns(prog)[0])
        self.ext = asts.Extent(prog, {M.norm_path(prog.bodies[k].path): t for k, t in asts.full_fns(prog).items()})

    # ---- small helpers ---------------------------------------------------------------------------
    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def desc(self, v, ty):
        """named fields of a descriptor value"""
        return self.sch.fields(v, PT + ty)

    def opt(self, q, v):
        if v.k == "A":
            return None if v.a[1] == 0 else v.a[2][0]
        return q.opt(v)

    def same(self, a, b):
        return self.norm(a) is self.norm(b)

    def norm(self, t):
        return self.canon(t)

    def canon(self, t):
        # `X.to_string()` of an identifier is its text
        if type(t) is N:
            if t.k == "disp" and t.a[1] == AST + "Ident":
                return field(self.canon(t.a[0]), 0, 0)
            if t.k == "cat" and len(t.a[0]) == 1:
                return self.canon(t.a[0][0])
            if t.k == "f" and t.a[0].k == "A":
                return self.canon(field(*t.a))
            if t.k in ("gen",):
                return t
        return t

    def want_some(self, q, v, exp, props, what):
        """v must be Some(exp)"""
        p = self.opt(q, v)
        if p is None:
            fail(props, what, "missing; expected %s" % show(exp))
        if not self.same(p, exp):
            fail(props, what, "is %s; expected %s" % (show(p), show(exp)))

    def want_none(self, q, v, props, what):
        p = self.opt(q, v)
        if p is not None:
            fail(props, what, "is %s; expected to be absent" % show(p))

    # ---- numbers ---------------------------------------------------------------------------------
    def spot(self, q, *spots):
        """is the diagnostic being explained at one of these places? (None: not known)"""
        r = False
        for k, t in spots:
            key = (q.span, k, t if type(t) is N else t.t)
            x = self.spotted.get(key, 0)
            if x == 0:
                try:
                    x = bool(self.extent_ok(q, q.span, t) if k == "node" else self.span_ok(q.span, None, t))
                except Undecided:
                    x = None
                if k == "span":
                    self.spotted[key] = x
            if x:
                return True
            if x is None:
                r = None
        return r

    def at(self, q, *spots):
        """rules about other places than that of the diagnostic need not be looked at"""
        return q.spots is None or self.spot(q, *spots) is not False

    def bad(self, q, *spots, kinds=None):
        """the input breaks a rule at one of these places: ("span", range) or ("node", syntax tree node); limits may follow"""
        if q.spots is None:
            raise Bad()
        lim = [x for x in spots if type(x) is not tuple]
        spots = [x for x in spots if type(x) is tuple]
        q.spots.append(spots)
        r = self.spot(q, *spots)
        if r:
            k = q.text.get("kind")
            if kinds is not None and k is not None and k.a[0] in ("map", "group", "repeated", "message", "enum", "required", "oneof") and k.a[0] not in kinds:
                raise Justified("it speaks of a %s field; the field is a %s field" % (k.a[0], " and ".join(sorted(kinds)) or "plain"))
            for n, y in zip(("min", "max"), lim):
                if y is not None and n in q.text and q.text[n] is not S(str(y)):
                    raise Justified("it gives %s as the %simum; it is %s" % (show(q.text[n]), n, y))
            raise Justified(None)
        if r is None:
            q.vague = Undecided("the place %s of a diagnostic" % show(q.span)[:80])

    def number(self, q, node, lo, hi, says=None):
        """(negative?, magnitude term) of an integer literal in lo..=hi; raises Bad outside"""
        v = raw(node.value)
        if not self.at(q, ("span", raw(node.span))):
            return None, v
        neg = q.boolean(raw(node.negative))
        if neg:
            l, h = max(0, -hi), -lo
        else:
            l, h = max(0, lo), hi
        if l > h or not q.within(v, ((l, h),), "u64"):
            self.bad(q, ("span", raw(node.span)), lo, says or hi)
        return neg, v

    def num_is(self, q, actual, neg, v, plus=0):
        c = q.eng.const_of(q.st, v, "u64")
        ca = q.eng.const_of(q.st, actual)
        if c is not None:
            x = (-c if neg else c) + plus
            if ca is not None:
                return ca == x
        a = actual
        off = 0
        while a.k == "add":
            off += a.a[1]
            a = a.a[0]
        while a.k == "cast":
            a = a.a[1]
        if neg and a.k == "neg":
            b = a.a[0]
            while b.k == "cast":
                b = b.a[1]
            return b is v and off == plus
        if not neg:
            return a is v and off == plus
        return False

    def want_number(self, q, actual, numv, props, what, plus=0):
        p = self.opt(q, actual)
        if p is None:
            fail(props, what, "missing")
        if isinstance(numv, int):
            if q.eng.const_of(q.st, p) != numv + plus:
                fail(props, what, "is %s; expected %d" % (show(p), numv + plus))
        elif not self.num_is(q, p, numv[0], numv[1], plus):
            fail(props, what, "is %s; expected %s%s%s" % (show(p), "-" if numv[0] else "", show(numv[1]), "+%d" % plus if plus else ""))

    # ---- locations -------------------------------------------------------------------------------
    def path_of(self, p):
        if p.k == "A" and p.a[0] == "vec":
            return tuple(p.a[2])
        if p.k == "V":
            return None
        return None

    def tok_path(self, tok):
        """location path of the unit a cut call generates"""
        _, unit, key, node, rest, path = ("gen",) + tok.a
        p = self.path_of(path)
        if p is None:
            raise Undecided("path of %s" % unit)
        # find the task with the same function (arguments may have been renamed since)
        for t, x in self.X.items():
            if t[0] == unit and t[1] == key and x is not None:
                sub = self.match_rest(t[2], rest)
                if sub is None:
                    continue
                suf = x
                for a, b in sub:
                    suf = tuple(subst(s, a, b) if a is not b else s for s in suf)
                return p + suf
        raise Undecided("no summary of %s" % unit)

    def match_rest(self, a, b):
        if a is None:
            return []
        if len(a) != len(b):
            return None
        out = []
        for x, y in zip(a, b):
            if x is y:
                continue
            if x.k in ("len", "last") and y.k in ("len", "last", "old"):
                z = y
                while z.k == "old":
                    z = z.a[0]
                if z.a[0] is not x.a[0]:
                    return None
                out.append((x, y))
            elif x.k == "pos" and y.k in ("len", "last"):
                out.append((x, y))
            elif x.k == "V" and y.k == "V" and x.a[0] is y.a[0]:
                continue
            else:
                return None
        return out

    def extent_ok(self, q, actual, node):
        """is the range the extent of the syntax tree node?"""
        r = self.ext.whole(q.eng, q.st, actual, node.t, node.ty)
        if r is None:
            raise Undecided("span %s" % show(actual)[:100])
        return r

    def span_ok(self, actual, node_t, span_t):
        """actual: argument of the span resolver.  node_t: AST node whose extent is meant; span_t: explicit span or None"""
        if type(span_t) is tuple:
            a, b = span_t
            if actual.k == "A" and "Range" in actual.a[0] and len(actual.a[2]) == 2:
                return actual.a[2][0] is field(a, 0, 0) and actual.a[2][1] is field(b, 0, 1)
            if a is b and actual is a:
                return True
            return False
        if span_t is not None and actual is span_t:
            return True
        if span_t is not None and actual.k == "A" and "Range" in actual.a[0] and len(actual.a[2]) == 2:
            lo, hi = actual.a[2]
            if lo is field(span_t, 0, 0) and hi is field(span_t, 0, 1):
                return True
            ends = {x.a[0] if x.k == "add" and type(x.a[1]) is int else x for x in (lo, hi)}
            if ends <= {field(span_t, 0, 0), field(span_t, 0, 1)}:
                return False
            if all(span_t in subs(x) or x is span_t for x in actual.a[2]):
                raise Undecided("span %s" % show(actual)[:100])
        return False

    def check_locs(self, q, locs, exp, props, what):
        """locs: set of recorded Location values; exp: list of (path tuple, span spec, comments Ast | None)
        span spec: ("span", term) or ("node", term)"""
        acts = []
        LOC = gen.LOC
        for l in locs:
            f = self.sch.fields(l, LOC)
            p = self.path_of(f["path"])
            if p is None:
                raise Undecided("location path")
            sp = f["span"]
            if sp.k == "call" and sp.a[0] in self.linefns:
                sp = sp.a[1][-1]
            elif sp.k in ("A", "V"):
                fail(props, what, "the span of path [%s] is %s" % (", ".join(show(x) for x in p), show(sp)[:100]))
            else:
                raise Undecided("span %s" % show(sp)[:100])
            acts.append([p, sp, f, False])
        for path, (kind, t), com in exp:
            nd = t
            t = raw(t) if kind != "join" else t
            hit = None
            near = None
            for a in acts:
                if a[3] or a[0] != tuple(path):
                    continue
                near = a
                okk = True if a[1] is None else self.extent_ok(q, a[1], nd) if kind == "node" else self.span_ok(a[1], None, t)
                if not okk:
                    continue
                if com is None:
                    cok = all(a[2][x].k == "A" and a[2][x].a[1] == 0 and not (a[2][x].a[2]) for x in
                              ("leading_comments", "trailing_comments")) and self.empty(a[2]["leading_detached_comments"])
                else:
                    cok = (a[2]["leading_comments"] is raw(com.leading_comment) and a[2]["trailing_comments"] is raw(com.trailing_comment)
                           and a[2]["leading_detached_comments"] is raw(com.leading_detached_comments))
                if cok:
                    hit = a
                    break
                near = a
            if hit is None:
                pp = "[%s]" % ", ".join(show(x) for x in path)
                if near is None:
                    fail(props, what, "no location is recorded for path %s" % pp)
                fail(props + (" P04" if com is not None else ""), what, "the location recorded for path %s has span %s and comments (%s); expected %s %s" % (
                    pp, show(near[1]) if near[1] is not None else "?", ", ".join(show(near[2][x])[:80] for x in (
                        "leading_comments", "trailing_comments", "leading_detached_comments")), show(t),
                    "with the comments of the declaration" if com is not None else "without comments"))
            hit[3] = True
        for a in acts:
            if not a[3]:
                # duplicates of an expected location are tolerated, anything else is not
                if any(tuple(p) == a[0] and a[1] is not None and (self.extent_ok(q, a[1], t) if k == "node" else self.span_ok(a[1], None, raw(t) if k == "span" else t))
                       and c is None for p, (k, t), c in exp):
                    continue
                fail(props, what, "an unexpected location is recorded: path [%s] span %s" % (", ".join(show(x) for x in a[0]), show(a[1]) if a[1] is not None else "?"))
        self.count("locations", len(exp))

    def empty(self, v):
        return v.k == "A" and v.a[0] == "vec" and not v.a[2] or v.k == "V" and not v.a[1] and v.a[0].k == "vid" and not any(
            v.a[0] is p[1] for e, cl in self.done.values() for ev in cl.events if ev[0] == "item" for p in ev[1][1])

    # ---- options ---------------------------------------------------------------------------------
    def want_options(self, q, v, ty, unit, node, path, props, what, noderest=None):
        """v: Option<XOptions>; must hold the options generated from `node` (AST term) at `path`"""
        p = self.opt(q, v)
        node_t = raw(node)
        toks = [t for f in q.facts for t in subs(f) if t.k == "gen" and t.a[0] == unit and self.same_opts(t.a[2], node_t)]
        if p is not None:
            fs = self.desc(p, ty)
            u = fs.pop("uninterpreted_option")
            for k, x in fs.items():
                if not (x.k == "A" and x.a[1] == 0 and not x.a[2]):
                    fail(props, what, "sets option field %s to %s" % (k, show(x)))
            if not (u.k == "f" and u.a[0].k == "gen"):
                raise Undecided("%s: options value %s" % (what, show(u)[:80]))
            tok = u.a[0]
            if tok.a[0] != unit or not self.same_opts(tok.a[2], node_t):
                fail(props, what, "are generated from %s; expected %s" % (show(tok.a[2]), show(node_t)))
        else:
            if not toks:
                # options may be empty on this path
                if not self.opts_empty(q, node_t, unit):
                    fail(props, what, "are dropped")
                return
            tok = toks[0]
            if self.opt(q, tok) is not None:
                fail(props, what, "are dropped although options were generated")
            return              # nothing was generated: the path of the call is irrelevant
        tp = self.tok_path(tok)
        if tp != tuple(path):
            fail("P03", what, "are located at path [%s]; expected [%s]" % (", ".join(map(show, tp)), ", ".join(map(show, path))))

    def same_opts(self, a, b):
        return a is b

    def opts_empty(self, q, t, unit):
        if unit == "optlist":
            return q.opt(t) is None
        return q.within(mk("len", t), ((0, 0),), "usize")

    # ---- reports ---------------------------------------------------------------------------------
    def report(self, unit, task, props, what, detail, facts, where):
        key = "%s: %s" % (unit, what)
        props = tuple(props)
        if "P02" in props and unit in ("option", "value", "optlist", "options", "tokstr", "take"):
            props += ("P13",)
        cond = "; ".join(sorted(fact_str(t, f, self.prog) for t, f in facts.items() if interesting(t))[:8])
        self.viol.append(dict(props=tuple(props), unit=unit, fn=task[1], what=what, detail=detail, cond=cond, where=where, key=key))

    # ---- running the comparison ------------------------------------------------------------------
    def run(self):
        for task in self.done:
            self.X[task] = self.infer_x(task)
        self.collect_roles()
        self.scopes = {}
        order = ["file", "message", "body", "enum", "service"]
        tasks = sorted(self.done, key=lambda t: (order.index(t[0]) if t[0] in order else 99))
        for task in tasks:
            u = getattr(self, "U_" + task[0], None)
            if u is None:
                continue
            self.task = task
            self.cur = self.done[task]
            try:
                u(task, *self.done[task])
            except Undecided as x:
                self.und(task, x)
            except gen.CANNOT as x:
                self.und(task, "%s: %s" % (type(x).__name__, x))
        for t, x in getattr(self.prog, "gen_failed", {}).items():
            self.und(t, x)
        return self

    def samples(self):
        return ["%s: %d paths of %s%s" % (t[0], len(e.out), t[1], " with arguments %s" % ", ".join(map(show, t[2])) if t[2] else "")
                for t, (e, cl) in self.done.items()]

    def und(self, task, x):
        m = "%s (%s): %s" % (task[0], task[1].split("::")[-1], x)
        if m not in self.undecided:
            self.undecided.append(m)

    def check(self, task, facts, errs, reject, value, where, extra=()):
        """compares one path: reject(q) raises Bad when the input must be rejected, value(q) raises Mismatch"""
        e, cl = self.done[task]

        def fn(q):
            q.extra = extra
            try:
                reject(q)
            except Bad:
                return "bad"
            if errs:
                return None
            try:
                value(q)
            except Bad:
                return "bad"
            except Mismatch as m:
                return m
            return None
        try:
            for r, f in decide(e, facts, fn):
                self.count("obligations")
                if errs:
                    if r != "bad":
                        self.report(task[0], task, ["P05", "P02"] + self.reject_props(task[0]), "rejects valid input",
                                    "an error is reported for input that must be accepted", f, where)
                elif r == "bad":
                    self.report(task[0], task, ["P02"] + self.reject_props(task[0]), "accepts invalid input",
                                "no error is reported for input that must be rejected", f, where)
                elif r is not None:
                    self.report(task[0], task, r.props, r.what, r.detail, f, where)
        except Undecided as u:
            self.und(task, u)

    def outs(self, task, reject, value):
        """value(q, v, locs, pushes)"""
        e, cl = self.done[task]
        self.rejects.setdefault(task, []).append((None, reject))
        where = self.prog.bodies[task[1]].path
        for st, v in e.out:
            self.count("paths")
            errs = bool(st.cl.get("err"))
            self.check(task, st.facts, errs, reject, lambda q: value(q, v, st.cl.get("locs", frozenset()), st.cl.get("pushes", frozenset())),
                       where, (v, st.cl.get("pushes", frozenset())))

    def diagnostics(self):
        """every diagnostic is about a rule the input breaks, at the place where it breaks it"""
        vs = self.prog.adt_path[gen.PEK]["variants"]
        for task, rules in self.rejects.items():
            e, cl = self.done[task]
            for kind, pay, facts, where, trace in cl.events:
                if kind != "error":
                    continue
                x, stack = pay
                v = vs[x.a[1]]
                names = [f[0] for f in v["fields"]]
                if "span" not in names:
                    continue
                span = x.a[2][names.index("span")]
                text = {n: y for n, y in zip(names, x.a[2]) if n in ("min", "max", "kind") and y.k == "s"}

                def fn(q):
                    q.spots, q.span, q.text, q.vague = [], span, text, None
                    try:
                        for coll, r in rules:
                            if coll is None or coll in stack:
                                r(q)
                    except Justified as j:
                        return j.args[0]
                    if q.vague is not None:
                        raise q.vague
                    if not q.spots:
                        return "it points at %s, where nothing is wrong" % show(span)[:80]
                    return "it points at %s; expected %s" % (show(span)[:80], " or ".join(sorted({show(t if k == "span" else t.t)[:60] for sp in q.spots for k, t in sp})))
                try:
                    for r, f in decide(e, facts, fn):
                        self.count("diagnostics")
                        if r is not None:
                            self.report(task[0], task, ["P30"], "diagnostic %s" % v["name"], r, f, where)
                except Undecided as u:
                    self.und(task, u)
                except gen.CANNOT as u:
                    self.und(task, "%s: %s" % (type(u).__name__, u))

    def items(self, task, handlers):
        """handlers: {collection term: (reject(q), value(q, pushes, locs), name, props)}"""
        e, cl = self.done[task]
        for coll, h in handlers.items():
            self.rejects.setdefault(task, []).append((coll, h[0]))
        groups = {}
        for kind, pay, facts, where, trace in cl.events:
            if kind == "item":
                el, pushes, locs, er, site = pay
                groups.setdefault((el.a[0], site), []).append((el, pushes, locs, er, facts, where))
        seen = set()
        for (coll, site), evs in groups.items():
            h = handlers.get(coll)
            if h is None:
                continue
            if not any(self.relevant(p) for _, pushes, locs, er, _, _ in evs for p in pushes) and not any(l for _, _, l, _, _, _ in evs) \
                    and not any(x[3] for x in evs):
                if h[3] == "pure":
                    pass
                else:
                    continue
            seen.add(coll)
            for el, pushes, locs, er, facts, where in evs:
                self.count("items")
                self.check(task, facts, er, h[0], lambda q: h[1](q, pushes, locs), where, (pushes, locs))
        for coll, h in handlers.items():
            if coll not in seen and h[3] != "pure":
                if any(coll in subs(x) for ev in cl.events if ev[0] != "cut" for x in _nodes(ev[1])) or True:
                    self.report(task[0], task, ("P02", "P03"), "%s are not processed" % h[2], "no loop handles %s" % show(coll), {}, self.prog.bodies[task[1]].path)

    def relevant(self, p):
        how, vid, e, ix, coll = p
        if how == "push" and e.k == "A" and e.a[0].endswith("OneofDescriptorProto") and all(
                x.k == "A" and x.a[1] == 0 and not x.a[2] for x in e.a[2]):
            return False
        return True

    def reject_props(self, unit):
        return {"field": ["P08", "P09", "P20"], "mrange": ["P08", "P21"], "erange": ["P08", "P21"], "enrange": ["P08", "P21"],
                "value": ["P08"], "default": ["P10"], "option": ["P02"]}.get(unit, [])

    # ---- roles and contexts ----------------------------------------------------------------------
    ROOTDESC = {"file": "FileDescriptorProto", "body": "DescriptorProto", "message": "DescriptorProto", "enum": "EnumDescriptorProto",
                "service": "ServiceDescriptorProto", "option": "UninterpretedOption"}

    def collect_roles(self):
        for task, (e, cl) in self.done.items():
            d = self.ROOTDESC.get(task[0])
            if not d:
                continue
            for st, v in e.out:
                if task[0] == "file":
                    if v.k == "A" and v.a[0] == RES and v.a[1] == 0:
                        v = v.a[2][0]
                    else:
                        continue
                if v.k != "A":
                    continue
                for n, x in self.desc(v, d).items():
                    if x.k == "V":
                        r = self.roles.setdefault(x.a[0], (task[0], n))
                        if r != (task[0], n):
                            self.report(task[0], task, ("P02",), "list used twice", "the same list is used for %s and %s" % (r[1], n), {}, "")

    def role(self, vid):
        return self.roles.get(vid, (None, None))[1]

    def infer_x(self, task):
        unit = task[0]
        key = {"field": ("Field", "number"), "value": ("EnumValue", "number"), "enum": ("Enum", "name"), "service": ("Service", "name"),
               "method": ("Method", "name"), "message": ("Message", "name"), "mrange": ("ReservedRange", "start"),
               "erange": ("ReservedRange", "start"), "enrange": ("ReservedRange", "start")}.get(unit)
        if key is None:
            return ()
        n = Ast(self, NODE_T, key[0]).get(key[1])
        want = raw(n.span)
        e, cl = self.done[task]
        cands = {}
        for kind, pay, facts, where, trace in cl.events:
            if kind == "loc":
                f = self.sch.fields(pay, gen.LOC)
                sp = f["span"]
                if sp.k == "call" and sp.a[1] and sp.a[1][-1] is want:
                    p = self.path_of(f["path"])
                    if p and p[0] is P("BASE") and len(p) >= 2:
                        cands[p[1:-1]] = cands.get(p[1:-1], 0) + 1
        if not cands:
            return ()
        if unit in ("enum", "service", "method", "message", "mrange", "erange", "enrange"):
            return min(cands, key=len)
        return max(cands, key=lambda c: cands[c])

    def base(self, task):
        if task[0] == "file":
            return ()
        return (P("BASE"),) + tuple(self.X[task])

    def token(self, v):
        """(token, overridden field names) when the value is generated by another unit"""
        if v.k == "gen":
            return v, ()
        if v.k == "A":
            toks = [x.a[0] for x in v.a[2] if x.k == "f" and x.a[0].k == "gen"]
            if not toks:
                return None, ()
            tok = max(set(toks), key=toks.count)
            names = [f[0] for f in self.prog.adt_path[v.a[0]]["variants"][0]["fields"]]
            over = tuple(n for i, (n, x) in enumerate(zip(names, v.a[2])) if x is not field(tok, 0, i))
            if len(over) * 2 > len(names):
                return None, ()
            return tok, over
        return None, ()

    def delegated(self, q, v, unit, node, path, what, over=()):
        """v must be the descriptor generated for AST node `node` at location path `path`; returns the token"""
        tok, ov = self.token(v)
        if tok is None:
            raise Undecided("%s: value %s" % (what, show(v)[:100]))
        if tok.a[0] != unit or tok.a[2] is not raw(node):
            fail("P02", what, "is generated from %s; expected %s" % (show(tok.a[2]), show(raw(node))))
        for o in ov:
            if o not in over:
                fail("P02", what, "field %s is replaced by %s" % (o, show(self.sch.fields(v, v.a[0])[o])))
        tp = self.tok_path(tok)
        if tp != tuple(path):
            fail("P03", what, "is located at path [%s]; expected [%s]" % (", ".join(map(show, tp)), ", ".join(map(show, path))))
        return tok

    def one_push(self, pushes, role, what, n=1):
        ps = [p for p in pushes if self.role(p[1]) == role]
        if len(ps) != n:
            fail("P02", what, "%d values are added to %s; expected %d" % (len(ps), role, n))
        return ps[0] if ps else None

    def only_roles(self, pushes, roles, what):
        for p in pushes:
            r = self.role(p[1])
            if r not in roles:
                fail("P02", what, "a value is added to %s" % (r or "a list that is not part of the result"))

    def task_of(self, tok):
        for t in self.done:
            if t[0] == tok.a[0] and t[1] == tok.a[1] and self.match_rest(t[2], tok.a[3]) is not None:
                return t
        return None

    def has_tok(self, q, unit, node):
        n = raw(node)

        def look(x):
            if type(x) is N:
                if x.k == "gen" and x.a[0] == unit and x.a[2] is n:
                    return True
                return any(y.k == "gen" and y.a[0] == unit and y.a[2] is n for y in subs(x))
            if type(x) in (tuple, frozenset, list):
                return any(look(y) for y in x)
            return False
        return look(tuple(q.facts)) or look(q.extra)


def _nodes(x):
    if type(x) is N:
        return [x]
    if type(x) in (tuple, frozenset):
        return [y for z in x for y in _nodes(z)]
    return []


def interesting(t):
    return t.k in ("discr", "p", "f", "streq", "take", "len", "pred")


def fact_str(t, f, prog):
    if t.k == "discr":
        a = prog.adt_path.get(t.a[1])
        if a and f[0] != "S":
            vs = {int(v["discr"]): v["name"] for v in a["variants"]}
            names = [vs[x] for l, h in f for x in range(l, h + 1) if x in vs]
            return "%s is %s" % (show(t.a[0]), "|".join(names[:6]))
    if f and f[0] == "S":
        return "%s %s %s" % (show(t), "==" if f[1] is not None else "not in", f[1] if f[1] is not None else sorted(f[2]))
    return "%s in %s" % (show(t), ", ".join("%s..%s" % x if x[0] != x[1] else str(x[0]) for x in f)[:80])


# ---- units -----------------------------------------------------------------------------------------
NOREJ = lambda q: None


def unit(cls):
    for n, x in vars(cls).items():
        if not n.startswith("__"):
            setattr(Spec, n, x)
    return cls


@unit
class Units:
    # ---- file ------------------------------------------------------------------------------------
    def U_file(self, task, e, cl):
        b = self.prog.bodies[task[1]]
        f = Ast(self, NODE_T, "File")
        X = ()
        T = b.crate.types
        strs = [P(b.names[i]) for i in range(1, b.args + 1) if T[b.locals[i]]["s"] == "&str"]
        for kind, pay, facts, where, trace in cl.events:
            if kind == "ctx":
                if pay[0] is not raw(f.syntax):
                    self.report("file", task, ("P09", "P02", "P10"), "syntax of the file", "declarations are generated with syntax %s" % show(pay[0]), {}, where)
            if kind in ("rev", "insert", "sort"):
                pass

        def value(q, v, locs, pushes):
            erl = [t for t in q.facts if t.k == "len" and t.a[0].k == "vid" and str(t.a[0].a[0]).endswith("ParseErrorKind")]
            if not (v.k == "A" and v.a[0] == RES):
                raise Undecided("result %s" % show(v)[:80])
            lens = [q.eng.rng(q.st, t) for t in erl]
            if v.a[1] == 1:
                if not any(l[0][0] >= 1 for l in lens):
                    fail("P05", "result", "an error is returned without any reported diagnostic")
                return
            if not any(l == ((0, 0),) for l in lens):
                fail("P05", "result", "a descriptor is returned although diagnostics may have been reported")
            d = self.desc(v.a[2][0], "FileDescriptorProto")
            n = self.opt(q, d["name"])
            if n is None or n not in strs:
                fail("P02", "name", "is %s; expected the given file name" % show(d["name"]))
            pk = f.package.get(q)
            exp = []
            if pk is None:
                self.want_none(q, d["package"], "P02", "package")
            else:
                self.want_disp(q, d["package"], pk.name, "P02", "package")
                exp.append(((I(2),), ("span", pk.span), pk.comments))
            exp.append(((), ("span", f.span), None))
            sx = f.syntax_span.get(q)
            if sx is not None:
                exp.append(((I(12),), ("span", sx[0]), sx[1]))
            s = f.syntax.variant(q)
            if s == "Proto2":
                self.want_none(q, d["syntax"], "P02 P09", "syntax")
            else:
                p = self.opt(q, d["syntax"])
                if p is None or not (p.k == "s" and p.a[0] == s.lower() or p.k == "disp" and p.a[0] is raw(f.syntax)):
                    fail("P02 P09", "syntax", "is %s; expected %s" % (show(d["syntax"]), s.lower()))
            self.want_options(q, d["options"], "FileOptions", "options", f.options, (I(8),), "P02", "options")
            self.lists(d, ("dependency", "public_dependency", "weak_dependency", "message_type", "enum_type", "service", "extension"))
            sci = self.opt(q, d["source_code_info"])
            if sci is None:
                fail("P03", "source_code_info", "is missing")
            lv = self.desc(sci, "SourceCodeInfo")["location"]
            if not (lv.k == "V" and str(lv.a[0].a[0]).endswith("source_code_info::Location")):
                if not (lv.k == "A" and lv.a[0] == "vec"):
                    raise Undecided("locations %s" % show(lv)[:60])
            self.check_locs(q, locs, exp, "P03", "file locations")
            if pushes:
                self.only_roles(pushes, (), "file")
        self.outs(task, NOREJ, value)

        imp = f.imports.elem()

        def import_v(q, pushes, locs):
            self.only_roles(pushes, ("dependency", "public_dependency", "weak_dependency"), "import")
            dp = self.one_push(pushes, "dependency", "import")
            if not self.same(dp[2], raw(imp.value)):
                fail("P02", "dependency", "is %s" % show(dp[2]))
            ix = dp[3]
            exp = [((I(3), ix), ("span", imp.span), imp.comments)]
            k = imp.kind.get(q)
            kind = k[0].variant(q) if k is not None else None
            for nm, role, tag in (("Public", "public_dependency", 10), ("Weak", "weak_dependency", 11)):
                p = self.one_push(pushes, role, "import", 1 if kind == nm else 0)
                if kind == nm:
                    if p[2] is not ix:
                        fail("P02", role, "records index %s; expected the index of the import" % show(p[2]))
                    exp.append(((I(tag), p[3]), ("span", k[1]), None))
            self.check_locs(q, locs, exp, "P03", "import locations")

        it = f.items.elem()

        def item_v(q, pushes, locs):
            v = it.variant(q)
            n = it.get("0", v)
            if v == "Extend":
                return self.extend_v(q, pushes, locs, n, X, 7)
            role, tag, un = {"Message": ("message_type", 4, "message"), "Enum": ("enum_type", 5, "enum"), "Service": ("service", 6, "service")}[v]
            self.only_roles(pushes, (role,), v.lower())
            p = self.one_push(pushes, role, v.lower())
            self.delegated(q, p[2], un, n, X + (I(tag), p[3]), v.lower())
            self.check_locs(q, locs, [], "P03", "%s locations" % v.lower())
        self.items(task, {raw(f.imports): (NOREJ, import_v, "imports", ""), raw(f.items): (NOREJ, item_v, "file items", ""),
                          **self.extend_fields(it.get("0", "Extend"), X, 7, "message_type", 4)})
        self.orders(task, cl)

    def orders(self, task, cl):
        for kind, pay, facts, where, trace in cl.events:
            if kind in ("rev", "insert", "sort", "swap"):
                txt = show(pay) if type(pay) is N else " ".join(map(show, _nodes(pay)))
                vs = [x for x in _nodes(pay)]
                if any(s.k == "V" and "source_code_info::Location" in str(s.a[0].a[0]) for x in vs for s in subs(x) | {x}):
                    if "unstable" in str(pay) or "dedup" in str(pay) or "reverse" in str(pay):
                        self.report(task[0], task, ("P03",), "order", "locations with the same path do not keep their source order, or are lost", {}, where)
                    continue
                self.report(task[0], task, ("P02",), "order", "elements are reordered (%s) on %s" % (kind, txt[:80]), {}, where)

    def want_disp(self, q, v, node, props, what):
        p = self.opt(q, v)
        if p is None:
            fail(props, what, "is missing")
        if p.k == "disp" and p.a[0] is raw(node):
            return
        if self.same(p, raw(node)) or (p.k in ("cat", "disp") and raw(node) in subs(p)):
            raise Undecided("%s rendered as %s" % (what, show(p)[:60])) if p.k == "cat" else Undecided(what)
        fail(props, what, "is %s; expected the text of %s" % (show(p), show(raw(node))))

    def lists(self, d, names):
        for n in names:
            x = d[n]
            if x.k == "V" or x.k == "A" and x.a[0] == "vec" and not x.a[2]:
                continue
            fail("P02", n, "is %s; expected the list built from the source" % show(x)[:120])

    # ---- extend ----------------------------------------------------------------------------------
    def extend_v(self, q, pushes, locs, ext, X, tag):
        self.only_roles(pushes, (), "extend")
        self.check_locs(q, locs, [(X + (I(tag),), ("span", ext.span), ext.comments)], "P03", "extend locations")

    def extend_fields(self, ext, X, tag, mrole, mtag):
        fe = ext.fields.elem()

        def v(q, pushes, locs):
            self.only_roles(pushes, ("extension",), "extension field")
            p = self.one_push(pushes, "extension", "extension field")
            tok = self.delegated(q, p[2], "field", fe, X + (I(tag), p[3]), "extension field", ("extendee",))
            d = self.desc(p[2], "FieldDescriptorProto")
            self.want_disp(q, d["extendee"], ext.extendee, "P02", "extendee")
            self.scope(tok, "extend", mrole, mtag)
            self.check_locs(q, locs, [(X + (I(tag), p[3], I(2)), ("node", ext.extendee), None)], "P03", "extension field locations")
        return {raw(ext.fields): (NOREJ, v, "extension fields", "")}

    def scope(self, tok, scope, mrole, mtag):
        t = self.task_of(tok)
        if t is None:
            raise Undecided("field task")
        old = self.scopes.setdefault(t, (scope, mrole, mtag))
        if old != (scope, mrole, mtag):
            self.report("field", t, ("P09", "P20", "P02"), "scope", "fields of %s are generated like fields of %s" % (scope, old[0]), {}, "")

    # ---- message ---------------------------------------------------------------------------------
    def U_message(self, task, e, cl):
        m = Ast(self, NODE_T, "Message")
        X = self.base(task)

        def value(q, v, locs, pushes):
            d = self.desc(v, "DescriptorProto")
            self.want_some(q, d["name"], raw(m.name.value), "P02", "message name")
            self.delegated(q, v, "body", m.body, X, "message", ("name",))
            self.check_locs(q, locs, [(X, ("span", m.span), m.comments), (X + (I(1),), ("span", m.name.span), None)], "P03", "message locations")
        self.outs(task, NOREJ, value)

    def ms_found(self, q, opts):
        """True / False: the message_set_wire_format option is found and true on this path"""
        o = opts.elem()
        if not any(raw(o) in subs(t) for t in q.facts):
            return False
        if not self.has_name(q, o.body, "message_set_wire_format"):
            return False
        return self.is_true(q, o.body.value)

    def has_name(self, q, body, name):
        nm = body.name
        if not q.within(mk("len", raw(nm)), ((1, 1),), "usize"):
            return False
        part = self.at0(nm)
        for pt in part:
            d = mk("discr", pt, AST + "OptionNamePart")
            if d in q.facts or True:
                a = Ast(self, pt, "OptionNamePart")
                if a.variant(q) != "Ident":
                    return False
                return q.streq(raw(a.get("0", "Ident").value), name)
        return False

    def at0(self, v):
        t = raw(v)
        return [mk("at", t, I(0))]

    def is_true(self, q, val):
        if val.variant(q) != "Ident":
            return False
        if q.boolean(raw(val.get("negative", "Ident"))):
            return False
        return q.streq(raw(val.get("ident", "Ident").value), "true")

    def U_body(self, task, e, cl):
        m = Ast(self, NODE_T, "MessageBody")
        X = self.base(task)

        def value(q, v, locs, pushes):
            d = self.desc(v, "DescriptorProto")
            self.lists(d, ("field", "extension", "nested_type", "enum_type", "oneof_decl", "extension_range", "reserved_range", "reserved_name"))
            self.want_options(q, d["options"], "MessageOptions", "options", m.options, X + (I(7),), "P02", "message options")
            self.check_locs(q, locs, [], "P03", "message body locations")
            self.only_roles(pushes, (), "message body")
        self.outs(task, NOREJ, value)

        it = m.items.elem()
        ctrs = set()

        def item_r(q):
            if it.variant(q) == "Oneof":
                o = it.get("0", "Oneof")
                if q.within(mk("len", raw(o.fields)), ((0, 0),), "usize"):
                    self.bad(q, ("span", raw(o.span)), ("span", raw(o.name.span)))

        def item_v(q, pushes, locs):
            v = it.variant(q)
            n = it.get("0", v)
            if v == "Extend":
                return self.extend_v(q, pushes, locs, n, X, 6)
            if v == "Oneof":
                self.only_roles(pushes, ("oneof_decl",), "oneof")
                p = self.one_push(pushes, "oneof_decl", "oneof")
                ix = p[3]
                if p[0] == "store":
                    b = ix
                    while b.k == "old":
                        b = b.a[0]
                    if b.k == "ctr":
                        ctrs.add(b)
                    elif b.k == "i" or b.k == "add":
                        fail("P20 P02", "oneof index", "is %s" % show(ix))
                else:
                    fail("P20", "oneof order", "a oneof is appended after synthetic oneofs")
                d = self.desc(p[2], "OneofDescriptorProto")
                self.want_some(q, d["name"], raw(n.name.value), "P02 P20", "oneof name")
                self.want_options(q, d["options"], "OneofOptions", "options", n.options, X + (I(8), ix, I(2)), "P02 P20", "oneof options")
                self.check_locs(q, locs, [(X + (I(8), ix), ("span", n.span), n.comments), (X + (I(8), ix, I(1)), ("span", n.name.span), None)],
                                "P03", "oneof locations")
                return
            role, tag, un = {"Field": ("field", 2, "field"), "Enum": ("enum_type", 4, "enum"), "Message": ("nested_type", 3, "message")}[v]
            self.only_roles(pushes, (role,), v.lower())
            p = self.one_push(pushes, role, v.lower())
            tok = self.delegated(q, p[2], un, n, X + (I(tag), p[3]), v.lower())
            if v == "Field":
                self.scope(tok, "message", "nested_type", 3)
            self.check_locs(q, locs, [], "P03", "%s locations" % v.lower())

        on = it.get("0", "Oneof")
        fe = on.fields.elem()

        def oneof_field(q, pushes, locs):
            self.only_roles(pushes, ("field",), "oneof field")
            p = self.one_push(pushes, "field", "oneof field")
            tok = self.delegated(q, p[2], "field", fe, X + (I(2), p[3]), "oneof field", ("oneof_index",))
            d = self.desc(p[2], "FieldDescriptorProto")
            oi = self.opt(q, d["oneof_index"])
            if oi is None:
                fail("P20 P02", "oneof_index", "is missing for a oneof field")
            b = oi
            while b.k == "old":
                b = b.a[0]
            if b.k == "ctr":
                ctrs.add(b)
            elif b.k not in ("pos",):
                fail("P20 P02", "oneof_index", "is %s; expected the index of the oneof" % show(oi))
            self.scope(tok, "oneof", "nested_type", 3)
            self.check_locs(q, locs, [], "P03", "oneof field locations")

        rs = m.reserved.elem()

        def ms_check(q, tok):
            ms = self.ms_of_rest(tok)
            if ms is None:
                raise Undecided("message set flag")
            want = self.ms_found(q, m.options)
            if ms != want:
                fail("P21", "message_set", "ranges of a message %s message_set_wire_format are generated %s it" % ("with" if want else "without", "with" if ms else "without"))

        xs = m.extensions.elem()

        def ext_range(q, pushes, locs):
            self.only_roles(pushes, ("extension_range",), "extension range")
            p = self.one_push(pushes, "extension_range", "extension range")
            tok = self.delegated(q, p[2], "erange", xs.ranges.elem(), X + (I(5), p[3]), "extension range")
            ol = [x for x in tok.a[3] if x.k == "f"]
            if raw(xs.options) not in ol:
                fail("P02 P21", "extension range options", "are %s; expected those of the declaration" % ", ".join(map(show, ol)))
            ms_check(q, tok)
            self.check_locs(q, locs, [], "P03", "extension range locations")

        def ext_v(q, pushes, locs):
            self.only_roles(pushes, (), "extensions")
            self.check_locs(q, locs, [(X + (I(5),), ("span", xs.span), xs.comments)], "P03", "extensions locations")

        opt = m.options.elem()

        def skipped(q, pushes, locs):
            if q.eng.rng and self.entails_name(q, opt.body, "message_set_wire_format"):
                fail("P21", "message_set", "a message_set_wire_format option is skipped")

        h = {raw(m.items): (item_r, item_v, "message items", ""), raw(on.fields): (NOREJ, oneof_field, "oneof fields", ""),
             raw(m.extensions): (NOREJ, ext_v, "extensions", ""), raw(xs.ranges): (NOREJ, ext_range, "extension ranges", ""),
             raw(m.options): (NOREJ, skipped, "options", "pure")}
        h.update(self.extend_fields(it.get("0", "Extend"), X, 6, "nested_type", 3))
        h.update(self.reserved(m, X, 9, 10, "mrange", ms_check))
        self.items(task, h)
        self.orders(task, cl)
        self.oneof_counter(task, cl, it, ctrs)

    def ms_of_rest(self, tok):
        for x in tok.a[3]:
            if x.k == "i" and x.a[0] in (0, 1):
                return bool(x.a[0])
            if x.k == "i" and x.a[0] in (N31 - 1, N31):
                return True
            if x.k == "i" and x.a[0] in (MAXF, MAXF + 1):
                return False
        return None

    def entails_name(self, q, body, name):
        try:
            st = State()
            return self.has_name(q, body, name)
        except Split:
            return False

    def oneof_counter(self, task, cl, it, ctrs):
        if not ctrs:
            return
        if len(ctrs) > 1:
            self.report(task[0], task, ("P20",), "oneof index", "oneof declarations and oneof fields use different counters", {}, "")
        e = self.done[task][0]
        for kind, pay, facts, where, trace in cl.events:
            if kind == "widen" and pay[0] in ctrs:
                c, v = pay
                q = Q(e, facts)
                d = mk("discr", raw(it), AST + "MessageItem")
                r = e.rng(q.st, d)
                on = self.sch.variant(AST + "MessageItem", "Oneof")
                isone = r == ((on, on),)
                no = not rs_and(r, ((on, on),))
                if v.k == "i":
                    if v.a[0] != 0:
                        self.report(task[0], task, ("P20",), "oneof index", "counting of oneofs starts at %d" % v.a[0], {}, where)
                elif v is c:
                    if isone:
                        self.report(task[0], task, ("P20", "P02"), "oneof index", "is not advanced after a oneof", facts, where)
                elif v.k == "add" and v.a[0] is c and v.a[1] == 1:
                    if no:
                        self.report(task[0], task, ("P20", "P02"), "oneof index", "is advanced by an item that is not a oneof", facts, where)
                elif v.k == "add":
                    self.report(task[0], task, ("P20", "P02"), "oneof index", "advances by %s" % show(v), facts, where)
            if kind == "filter":
                if isinstance(pay[1], N) and pay[1] is raw(it):
                    q = Q(e, facts)
                    d = mk("discr", raw(it), AST + "MessageItem")
                    r = e.rng(q.st, d)
                    on = self.sch.variant(AST + "MessageItem", "Oneof")
                    okk = r == ((on, on),) if pay[0] else not rs_and(r, ((on, on),))
                    if not okk:
                        self.report(task[0], task, ("P20",), "oneof count", "the number of reserved oneof slots counts other items", facts, where)
            if kind == "resize" and self.role(pay[0]) == "oneof_decl":
                n = pay[1]
                okk = n.k == "i" and n.a[0] == 0 or n.k in ("count", "ctr", "old")
                if not okk:
                    self.report(task[0], task, ("P20",), "oneof count", "slots for %s oneofs are reserved" % show(n), facts, where)

    def reserved(self, m, X, rtag, ntag, unit_, ms_check=None):
        rs = m.reserved.elem()
        rg, nm = rs.kind.get("0", "Ranges"), rs.kind.get("0", "Names")

        def rv(q, pushes, locs):
            self.only_roles(pushes, (), "reserved")
            tag = rtag if rs.kind.variant(q) == "Ranges" else ntag
            self.check_locs(q, locs, [(X + (I(tag),), ("span", rs.span), rs.comments)], "P03", "reserved locations")

        def range_v(q, pushes, locs):
            self.only_roles(pushes, ("reserved_range",), "reserved range")
            p = self.one_push(pushes, "reserved_range", "reserved range")
            tok = self.delegated(q, p[2], unit_, rg.elem(), X + (I(rtag), p[3]), "reserved range")
            if ms_check:
                ms_check(q, tok)
            self.check_locs(q, locs, [], "P03", "reserved range locations")

        def name_v(q, pushes, locs):
            self.only_roles(pushes, ("reserved_name",), "reserved name")
            p = self.one_push(pushes, "reserved_name", "reserved name")
            if not self.same(p[2], raw(nm.elem().value)):
                fail("P02 P15", "reserved name", "is %s" % show(p[2]))
            self.check_locs(q, locs, [(X + (I(ntag), p[3]), ("span", nm.elem().span), None)], "P03", "reserved name locations")
        return {raw(m.reserved): (NOREJ, rv, "reserved", ""), raw(rg): (NOREJ, range_v, "reserved ranges", ""),
                raw(nm): (NOREJ, name_v, "reserved names", "")}

    # ---- field -----------------------------------------------------------------------------------
    MAPKEY = ("Int32", "Int64", "Uint32", "Uint64", "Sint32", "Sint64", "Fixed32", "Fixed64", "Sfixed32", "Sfixed64", "Bool", "String")

    def U_field(self, task, e, cl):
        f = Ast(self, NODE_T, "Field")
        X = self.base(task)
        sc = self.scopes.get(task)
        if sc is None:
            raise Undecided("scope of this context")
        scope, mrole, mtag = sc
        syntax = Ast(self, SYN, "Syntax")
        opts = raw(f.options)
        default = AOpt(self, mk("take", opts, S("default")), AST + "OptionBody")
        json = AOpt(self, mk("take", opts, S("json_name")), AST + "OptionBody")

        def label(q):
            l = f.label.get(q)
            return (None, None) if l is None else (l[0].variant(q), l[1])

        def reject(q):
            kind = f.kind.variant(q)
            sx = syntax.variant(q)
            self.number(q, f.number, 1, MAXF)
            lab, labspan = label(q)
            here = ("span", raw(f.span))
            ls = ("span", raw(labspan)) if labspan is not None else here
            if kind == "Map":
                if scope != "message" or lab is not None:
                    self.bad(q, *([here, ls] if scope != "message" else [ls]), kinds={"map"})
                ks = ("span", raw(f.kind.get("key_ty_span", "Map")))
                if self.at(q, ks):
                    k = f.kind.get("key_ty", "Map")
                    if k.variant(q) not in self.MAPKEY:
                        self.bad(q, ks)
            else:
                if scope == "extend" and lab == "Required":
                    self.bad(q, ls)
                if scope == "oneof" and lab is not None:
                    self.bad(q, ls)
                if scope != "oneof" and lab is None and sx == "Proto2":
                    self.bad(q, here, ("span", raw(f.name.span)))
                if lab == "Required" and sx == "Proto3":
                    self.bad(q, ls)
            if kind == "Group" and sx != "Proto2":
                self.bad(q, here)
            dv = default.get(q)
            if dv is not None and self.at(q, ("node", dv), ("node", dv.value)) and (kind in ("Map", "Group") or lab == "Repeated" or sx != "Proto2"):
                self.bad(q, ("node", dv), ("node", dv.value), kinds={x for x in (kind.lower(), (lab or "").lower()) if x in ("map", "group", "repeated")})
            if dv is not None and kind == "Normal" and f.kind.get("ty", "Normal").variant(q) != "Named" and not self.has_tok(q, "default", dv.value):
                self.r_default(q, dv.value, f.kind.get("ty", "Normal").variant(q))
            j = json.get(q)
            if j is not None and self.at(q, ("node", j), ("node", j.value), ("span", raw(j.value.get("0", "String").span))):
                if j.value.variant(q) != "String":
                    self.bad(q, ("node", j.value), ("node", j))
                elif not q.truth(mk("pred", "utf8", raw(j.value.get("0", "String").value))):
                    self.bad(q, ("node", j.value), ("span", raw(j.value.get("0", "String").span)), ("node", j))

        def value(q, v, locs, pushes):
            d = self.desc(v, "FieldDescriptorProto")
            kind = f.kind.variant(q)
            sx = syntax.variant(q)
            lab, labspan = label(q)
            name = raw(f.name.value)
            neg, mag = self.number(q, f.number, 1, MAXF)
            self.want_number(q, d["number"], (neg, mag), "P02 P08", "number")
            exp = [(X + (I(1),), ("span", f.name.span), None), (X + (I(3),), ("span", f.number.span), None)]
            low = mk("sfn", "to_ascii_lowercase", name)
            self.want_some(q, d["name"], low if kind == "Group" else name, "P02" + (" P20" if kind == "Group" else ""), "field name")
            # label
            want = {"Optional": 1, "Required": 2, "Repeated": 3, None: 1}[lab] if kind != "Map" else 3
            l = self.opt(q, d["label"])
            if l is None or q.eng.const_of(q.st, l) != want:
                fail("P02 P09" + (" P20" if kind == "Map" else ""), "label", "is %s; expected %d" % (show(d["label"]), want))
            if lab is not None and kind != "Map":
                exp.append((X + (I(4),), ("span", labspan), None))
            self.want_none(q, d["extendee"], "P02", "extendee")
            # synthetic oneofs
            roles = []
            if lab == "Optional" and sx != "Proto2":
                p = self.opt(q, d["proto3_optional"])
                if p is None or q.eng.const_of(q.st, p) != 1:
                    fail("P02 P20", "proto3_optional", "is %s; expected true" % show(d["proto3_optional"]))
                if scope == "message":
                    ps = [x for x in pushes if self.role(x[1]) == "oneof_decl"]
                    if len(ps) != 1:
                        fail("P20", "synthetic oneof", "%d oneofs are added for an optional proto3 field" % len(ps))
                    od = self.desc(ps[0][2], "OneofDescriptorProto")
                    under = q.truth(self.starts_(q, name, "_"))
                    self.want_some(q, od["name"], mk("cat", (S("X" if under else "_"), name)), "P20", "synthetic oneof name")
                    self.want_none(q, od["options"], "P20", "synthetic oneof options")
                    oi = self.opt(q, d["oneof_index"])
                    if oi is not ps[0][3]:
                        fail("P20 P02", "oneof_index", "is %s; expected the index of the synthetic oneof" % show(d["oneof_index"]))
                    roles.append("oneof_decl")
                else:
                    self.want_none(q, d["oneof_index"], "P20 P02", "oneof_index")
            else:
                p = self.opt(q, d["proto3_optional"])
                if p is not None:
                    fail("P02 P20", "proto3_optional", "is %s; expected to be absent" % show(p))
                self.want_none(q, d["oneof_index"], "P20 P02", "oneof_index")
            # type
            dv = default.get(q)
            if kind == "Normal":
                ty = f.kind.get("ty", "Normal")
                exp.append((X, ("span", f.span), f.comments))
                if ty.variant(q) == "Named":
                    self.want_none(q, d["type"], "P02 P11", "type of a named field")
                    self.want_disp(q, d["type_name"], ty.get("0", "Named"), "P02", "type_name")
                    exp.append((X + (I(6),), ("node", ty.get("0", "Named")), None))
                else:
                    self.want_type(q, d["type"], ty, "P02 P11", "type")
                    self.want_none(q, d["type_name"], "P02", "type_name")
                    exp.append((X + (I(5),), ("span", f.kind.get("ty_span", "Normal")), None))
                if dv is None:
                    self.want_none(q, d["default_value"], "P02 P10", "default_value")
                else:
                    exp.append((X + (I(7),), ("node", dv.value), None))
                    dd = d["default_value"]
                    if ty.variant(q) == "Named":
                        p = self.opt(q, dd)
                        if p is None:
                            fail("P10 P02", "default_value", "is dropped")
                        if not (p.k == "gen" and p.a[0] == "tokstr" and p.a[2] is raw(dv.value)):
                            if p.k == "sfn" and p.a[1].k == "gen" and p.a[1].a[0] == "tokstr" and alters(p):
                                fail("P10 P02", "default_value", "is the text of the default option changed by %s" % p.a[0])
                            if raw(dv.value) in subs(p):
                                raise Undecided("default text %s" % show(p)[:80])
                            fail("P10 P02", "default_value", "is %s; expected the text of the default option" % show(p))
                    elif dd.k == "gen":
                        if dd.a[0] != "default" or dd.a[2] is not raw(dv.value):
                            fail("P10 P02", "default_value", "is converted from %s" % show(dd.a[2]))
                        if not any(self.is_type_of(x, ty) for x in dd.a[3]):
                            fail("P10 P02", "default_value", "is converted for type %s" % ", ".join(show(x) for x in dd.a[3] if x.k not in ("NODE", "CTX")))
                    elif self.opt(q, dd) is not None:
                        p = self.opt(q, dd)
                        if not (p.k == "f" and p.a[0].k == "gen" and p.a[0].a[0] == "default" and p.a[0].a[2] is raw(dv.value)):
                            self.v_default(q, dd, dv.value, ty.variant(q))
                    else:
                        toks = [t for ff in q.facts for t in subs(ff) if t.k == "gen" and t.a[0] == "default" and t.a[2] is raw(dv.value)]
                        if not (toks and self.opt(q, toks[0]) is None):
                            fail("P10 P02", "default_value", "is dropped")
            else:
                self.want_none(q, d["default_value"], "P02 P10", "default_value")
                roles.append(mrole)
                ps = [x for x in pushes if self.role(x[1]) == mrole]
                if len(ps) != 1:
                    fail("P20 P02", "nested message", "%d messages are added to %s for a %s field" % (len(ps), mrole, kind.lower()))
                p = ps[0]
                t = self.opt(q, d["type"])
                want = 10 if kind == "Group" else 11
                if t is None or q.eng.const_of(q.st, t) != want:
                    fail("P20 P02", "type", "is %s; expected %d" % (show(d["type"]), want))
                md = self.desc(p[2], "DescriptorProto")
                if kind == "Group":
                    self.want_some(q, d["type_name"], name, "P20 P02", "type_name")
                    self.want_some(q, md["name"], name, "P20 P02", "group message name")
                    M_ = X[:-2] + (I(mtag), p[3])
                    self.delegated(q, p[2], "body", f.kind.get("body", "Group"), M_, "group", ("name",))
                    exp += [(X, ("span", f.span), None), (X + (I(5),), ("span", f.kind.get("ty_span", "Group")), None),
                            (X + (I(6),), ("span", f.name.span), None), (M_, ("span", f.span), f.comments),
                            (M_ + (I(1),), ("span", f.name.span), None)]
                else:
                    ent = self.opt(q, d["type_name"])
                    r = self.entry_name(ent, name)
                    if r is False:
                        fail("P20 P02", "type_name", "is %s; expected the map entry name" % show(d["type_name"]))
                    if r is None:
                        self.undecided.append("map entry name %s" % show(ent)[:100])
                    self.want_some(q, md["name"], ent, "P20", "map entry name")
                    self.map_entry(q, md, f.kind)
                    exp += [(X, ("span", f.span), f.comments), (X + (I(6),), ("span", f.kind.get("ty_span", "Map")), None)]
            self.only_roles_field(pushes, roles)
            # json name
            j = json.get(q)
            if j is None:
                self.want_none(q, d["json_name"], "P02", "json_name")
            else:
                p = self.opt(q, d["json_name"])
                src = raw(j.value.get("0", "String").value)
                if p is None or not (p.k == "utf8" and p.a[0] is src):
                    fail("P02", "json_name", "is %s; expected the value of the json_name option" % show(d["json_name"]))
                exp += [(X + (I(10),), ("node", j), None), (X + (I(10),), ("node", j.value), None)]
            rest = mk("rest", opts, frozenset((S("default"), S("json_name"))))
            self.want_options(q, d["options"], "FieldOptions", "optlist", rest, X + (I(8),), "P02", "field options")
            self.check_locs(q, locs, exp, "P03", "field locations")
        self.outs(task, reject, value)

    def only_roles_field(self, pushes, roles):
        for p in pushes:
            r = self.role(p[1])
            if r not in roles:
                fail("P20 P02", "field", "a value is added to %s" % (r or "a list that is not part of the result"))

    def starts_(self, q, name, ch):
        """the condition that a name begins with ch"""
        want, other = mk("pred", "starts_with", name, S(ch)), False
        for t, v in q.facts.items():
            if name not in subs(t) or t is name:
                continue
            if t.k == "pred" and len(t.a) == 3 and t.a[1] is name and "start" in str(t.a[0]):
                p = t.a[2].a[0] if t.a[2].k == "s" else chr(t.a[2].a[0]) if t.a[2].k == "i" else None
                if p == ch:
                    return t
                if p and p.startswith(ch):
                    if v == ((1, 1),):
                        return I(1)
                elif p:
                    if v == ((1, 1),):
                        return I(0)
                else:
                    other = True
            elif t.k == "at" and t.a[1] is I(0) and v[0] != "S":
                if v == ((ord(ch), ord(ch)),):
                    return I(1)
                if not rs_and(v, ((ord(ch), ord(ch)),)):
                    return I(0)
            elif t.k == "len":
                if v == ((0, 0),):
                    return I(0)
            elif t.k not in ("discr",):
                other = True
        if other and want not in q.facts:
            raise Undecided("what a name begins with")
        return want

    def entry_name(self, t, name):
        """is it the name in pascal case followed by "Entry"?"""
        if t is None or t is name or t.k == "s":
            return False
        if t.k == "cat":
            pre, suf = t.a[0][0], t.a[0][1:]
            if len(suf) == 1 and suf[0] is S("Entry") and pre.k == "call" and pre.a[0] in gen.name_fns(self.prog) and pre.a[1] == (name,):
                self.case_fns.add(gen.name_fns(self.prog)[pre.a[0]])
                return True
            if t.a[0][-1].k == "s" and not t.a[0][-1].a[0].endswith("Entry") or pre is name:
                return False
            if pre.k == "call" and pre.a[0] in gen.name_fns(self.prog) and pre.a[1] != (name,):
                return False
        if t.k == "call" and t.a[0] in gen.name_fns(self.prog) or t.k == "sfn":
            return False
        return None

    def is_type_of(self, x, ty):
        return x.k == "gen" and x.a[0] == "tycode" and x.a[2] is raw(ty)

    def want_type(self, q, v, ty, props, what):
        """v: Option<i32> holding the type code of scalar type `ty`"""
        p = self.opt(q, v)
        if p is not None and p.k == "discr" and p.a[0].k == "f" and self.is_type_of(p.a[0].a[0], ty):
            return
        if p is None:
            toks = [t for ff in q.facts for t in subs(ff) if self.is_type_of(t, ty)]
            if toks and self.opt(q, toks[0]) is None:
                return
            if ty.variant(q) == "Named":
                return
            fail(props, what, "is missing")
        want = TYCODE.get(ty.variant(q))
        c = q.eng.const_of(q.st, p)
        if c is None and any(x.k == "gen" and x.a[0] == "tycode" for x in subs(p)):
            fail(props, what, "is the type of %s" % show(p))
        if c != want:
            fail(props, what, "is %s; expected %s" % (show(p), want))

    def map_entry(self, q, md, kind):
        fs = md["field"]
        if not (fs.k == "A" and len(fs.a[2]) == 2):
            fail("P20 P02", "map entry", "does not have exactly two fields: %s" % show(fs)[:100])
        for i, (nm, num, ty) in enumerate((("key", 1, kind.get("key_ty", "Map")), ("value", 2, kind.get("value_ty", "Map")))):
            d = self.desc(fs.a[2][i], "FieldDescriptorProto")
            self.want_some(q, d["name"], S(nm), "P20", "map entry field name")
            self.want_some(q, d["json_name"], S(nm), "P20", "map entry json name")
            for k, want in (("number", num), ("label", 1)):
                p = self.opt(q, d[k])
                if p is None or q.eng.const_of(q.st, p) != want:
                    fail("P20", "map entry %s %s" % (nm, k), "is %s; expected %d" % (show(d[k]), want))
            self.want_type(q, d["type"], ty, "P20 P11 P02", "map entry %s type" % nm)
            tn = d["type_name"]
            if nm == "key" and not (tn.k == "gen" and tn.a[0] == "tyname" and tn.a[2] is raw(ty)):
                self.want_none(q, tn, "P20", "map entry key type_name")
            elif tn.k == "gen":
                if tn.a[0] != "tyname" or tn.a[2] is not raw(ty):
                    fail("P20 P02", "map entry %s type_name" % nm, "is %s" % show(tn))
            else:
                p = self.opt(q, tn)
                toks = [t for ff in q.facts for t in subs(ff) if t.k == "gen" and t.a[0] == "tyname" and t.a[2] is raw(ty)]
                if toks:
                    pass
                elif ty.variant(q) == "Named":
                    self.want_disp(q, tn, ty.get("0", "Named"), "P20 P02", "map entry %s type_name" % nm)
                else:
                    self.want_none(q, tn, "P20 P02", "map entry %s type_name" % nm)
            for k in ("extendee", "default_value", "oneof_index", "options", "proto3_optional"):
                self.want_none(q, d[k], "P20", "map entry %s %s" % (nm, k))
        o = self.opt(q, md["options"])
        if o is None:
            fail("P20", "map entry options", "are missing")
        for k, x in self.desc(o, "MessageOptions").items():
            if k == "map_entry":
                p = self.opt(q, x)
                if p is None or q.eng.const_of(q.st, p) != 1:
                    fail("P20", "map_entry", "is %s" % show(x))
            elif not (self.empty(x) or x.k == "A" and x.a[0] == OPT and x.a[1] == 0):
                fail("P20", "map entry option %s" % k, "is %s" % show(x))
        for k, x in md.items():
            if k not in ("name", "field", "options") and not self.empty(x):
                fail("P20", "map entry %s" % k, "is %s" % show(x))

    # ---- ranges ----------------------------------------------------------------------------------
    def range_spec(self, task, lo, hi, plus, top, fields, optnode=None):
        r = Ast(self, NODE_T, "ReservedRange")
        X = self.base(task)

        def reject(q):
            self.number(q, r.start, lo, hi)
            if r.end.variant(q) == "Int":
                self.number(q, r.end.get("0", "Int"), lo, hi)

        def value(q, v, locs, pushes):
            d = self.desc(v, fields)
            s = self.number(q, r.start, lo, hi)
            self.want_number(q, d["start"], s, "P21 P02 P08", "range start")
            k = r.end.variant(q)
            sspan = raw(r.start.span)
            espan = sspan
            if k == "None":
                self.want_number(q, d["end"], s, "P21 P02", "range end", plus)
            elif k == "Int":
                en = r.end.get("0", "Int")
                self.want_number(q, d["end"], self.number(q, en, lo, hi), "P21 P02 P08", "range end", plus)
                espan = raw(en.span)
            else:
                t = top()
                if t is None:
                    raise Undecided("message set flag")
                self.want_number(q, d["end"], t, "P21 P02", "range end (max)", plus)
                espan = raw(r.end.get("0", "Max"))
            exp = [(X, ("node", r), None), (X + (I(1),), ("span", sspan), None), (X + (I(2),), ("span", espan), None)]
            if "options" in d:
                self.want_options(q, d["options"], "ExtensionRangeOptions", "optlist", optnode, X + (I(3),), "P02 P21", "extension range options")
            self.check_locs(q, locs, exp, "P03", "range locations")
        self.outs(task, reject, value)

    def msg_top(self, task):
        def top():
            ms = self.ms_of_rest(mk("gen", task[0], task[1], NODE_T, task[2] or (), UNDEF))
            return None if ms is None else (N31 - 1 if ms else MAXF)
        return top

    def U_mrange(self, task, e, cl):
        self.range_spec(task, 1, MAXF, 1, self.msg_top(task), "descriptor_proto::ReservedRange")

    def U_erange(self, task, e, cl):
        ol = [x for x in task[2] if x.k == "f"]
        self.range_spec(task, 1, MAXF, 1, self.msg_top(task), "descriptor_proto::ExtensionRange", ol[0] if ol else UNDEF)

    def U_enrange(self, task, e, cl):
        self.range_spec(task, -2 ** 31, N31, 0, lambda: N31, "enum_descriptor_proto::EnumReservedRange")

    # ---- enum, service ---------------------------------------------------------------------------
    def U_enum(self, task, e, cl):
        n = Ast(self, NODE_T, "Enum")
        X = self.base(task)

        def value(q, v, locs, pushes):
            d = self.desc(v, "EnumDescriptorProto")
            self.want_some(q, d["name"], raw(n.name.value), "P02", "enum name")
            self.lists(d, ("value", "reserved_range", "reserved_name"))
            self.want_options(q, d["options"], "EnumOptions", "options", n.options, X + (I(3),), "P02", "enum options")
            self.only_roles(pushes, (), "enum")
            self.check_locs(q, locs, [(X, ("span", n.span), n.comments), (X + (I(1),), ("span", n.name.span), None)], "P03", "enum locations")
        self.outs(task, NOREJ, value)
        ve = n.values.elem()

        def val(q, pushes, locs):
            self.only_roles(pushes, ("value",), "enum value")
            p = self.one_push(pushes, "value", "enum value")
            self.delegated(q, p[2], "value", ve, X + (I(2), p[3]), "enum value")
            self.check_locs(q, locs, [], "P03", "enum value locations")
        h = {raw(n.values): (NOREJ, val, "enum values", "")}
        h.update(self.reserved(n, X, 4, 5, "enrange"))
        self.items(task, h)
        self.orders(task, cl)

    def U_value(self, task, e, cl):
        n = Ast(self, NODE_T, "EnumValue")
        X = self.base(task)

        def reject(q):
            self.number(q, n.number, -2 ** 31, N31)

        def value(q, v, locs, pushes):
            d = self.desc(v, "EnumValueDescriptorProto")
            self.want_some(q, d["name"], raw(n.name.value), "P02", "enum value name")
            self.want_number(q, d["number"], self.number(q, n.number, -2 ** 31, N31), "P02 P08", "enum value number")
            self.want_options(q, d["options"], "EnumValueOptions", "optlist", n.options, X + (I(3),), "P02", "enum value options")
            self.check_locs(q, locs, [(X, ("span", n.span), n.comments), (X + (I(1),), ("span", n.name.span), None),
                                      (X + (I(2),), ("span", n.number.span), None)], "P03", "enum value locations")
        self.outs(task, reject, value)

    def U_service(self, task, e, cl):
        n = Ast(self, NODE_T, "Service")
        X = self.base(task)

        def value(q, v, locs, pushes):
            d = self.desc(v, "ServiceDescriptorProto")
            self.want_some(q, d["name"], raw(n.name.value), "P02", "service name")
            self.lists(d, ("method",))
            self.want_options(q, d["options"], "ServiceOptions", "options", n.options, X + (I(3),), "P02", "service options")
            self.check_locs(q, locs, [(X, ("span", n.span), n.comments), (X + (I(1),), ("span", n.name.span), None)], "P03", "service locations")
        self.outs(task, NOREJ, value)
        me = n.methods.elem()

        def val(q, pushes, locs):
            self.only_roles(pushes, ("method",), "method")
            p = self.one_push(pushes, "method", "method")
            self.delegated(q, p[2], "method", me, X + (I(2), p[3]), "method")
            self.check_locs(q, locs, [], "P03", "method locations")
        self.items(task, {raw(n.methods): (NOREJ, val, "methods", "")})
        self.orders(task, cl)

    def U_method(self, task, e, cl):
        n = Ast(self, NODE_T, "Method")
        X = self.base(task)

        def value(q, v, locs, pushes):
            d = self.desc(v, "MethodDescriptorProto")
            self.want_some(q, d["name"], raw(n.name.value), "P02", "method name")
            self.want_disp(q, d["input_type"], n.input_ty, "P02", "input_type")
            self.want_disp(q, d["output_type"], n.output_ty, "P02", "output_type")
            exp = [(X, ("span", n.span), n.comments), (X + (I(1),), ("span", n.name.span), None),
                   (X + (I(2),), ("node", n.input_ty), None), (X + (I(3),), ("node", n.output_ty), None)]
            for k, tag in (("client_streaming", 5), ("server_streaming", 6)):
                s = n.get(k).get(q)
                if s is None:
                    p = self.opt(q, d[k])
                    if p is not None and q.eng.const_of(q.st, p) != 0:
                        fail("P02", k, "is %s although the method is not streaming" % show(p))
                else:
                    p = self.opt(q, d[k])
                    if p is None or q.eng.const_of(q.st, p) != 1:
                        fail("P02", k, "is %s although the method is streaming" % show(d[k]))
                    exp.append((X + (I(tag),), ("span", s), None))
            self.want_options(q, d["options"], "MethodOptions", "options", n.options, X + (I(4),), "P02", "method options")
            self.check_locs(q, locs, exp, "P03", "method locations")
        self.outs(task, NOREJ, value)

    # ---- options ---------------------------------------------------------------------------------
    def done_list(self, q, v, coll, what):
        """Option<Vec<UninterpretedOption>> holding one element per element of `coll`"""
        p = self.opt(q, v)
        empty = q.within(mk("len", coll), ((0, 0),), "usize")
        if p is None:
            if not empty:
                fail("P02", what, "are dropped")
            return
        if empty:
            fail("P02", what, "an empty list is recorded")
        els = p.a[1] if p.k == "V" else p.a[2] if p.k == "A" and p.a[0] == "vec" else None
        if els is None:
            raise Undecided(what)
        for x in els:
            if not (x.k == "done" and x.a[0] is mk("elem", coll)):
                fail("P02", what, "contains %s" % show(x)[:100])

    def U_options(self, task, e, cl):
        X = self.base(task)
        n = AVec(self, NODE_T, AST + "Option")
        self.optlist_(task, e, cl, X, n, lambda o: o.body, True, lambda q: raw(n), lambda q: [])

    def U_optlist(self, task, e, cl):
        X = self.base(task)
        n = AOpt(self, NODE_T, AST + "OptionList")
        inner = Ast(self, field(NODE_T, 1, 0), "OptionList")

        def coll(q):
            return raw(inner.options) if q.opt(NODE_T) is not None else None
        self.optlist_(task, e, cl, X, inner.options, lambda o: o, False, coll,
                      lambda q: [(X, ("span", inner.span), None)] if q.opt(NODE_T) is not None else [])

    def optlist_(self, task, e, cl, X, lst, body, statement, coll, exp):
        def value(q, v, locs, pushes):
            c = coll(q)
            if c is None:
                self.want_none(q, v, "P02", "options")
            else:
                self.done_list(q, v, c, "options")
            self.check_locs(q, locs, exp(q), "P03", "option list locations")
        self.outs(task, NOREJ, value)
        o = lst.elem()

        def val(q, pushes, locs):
            ps = [p for p in pushes if "UninterpretedOption" in str(p[1].a[0])]
            if len(ps) != 1 or len(pushes) != 1:
                fail("P02", "option", "%d values are added for one option" % len(pushes))
            self.delegated(q, ps[0][2], "option", body(o), X, "option")
            P_ = X + (I(999), ps[0][3])
            if statement:
                ex = [(X, ("span", o.span), None), (P_, ("span", o.span), o.comments)]
            else:
                ex = [(P_, ("node", o), None)]
            self.check_locs(q, locs, ex, "P03", "option locations")
        self.items(task, {raw(lst): (NOREJ, val, "options", "")})
        self.orders(task, cl)

    UOF = {"Ident": "identifier_value", "Float": "double_value", "String": "string_value", "Aggregate": "aggregate_value"}

    def U_option(self, task, e, cl):
        n = Ast(self, NODE_T, "OptionBody")
        val = n.value

        def reject(q):
            k = val.variant(q)
            if k == "Ident" and q.boolean(raw(val.get("negative", "Ident"))):
                self.bad(q, ("node", val), ("span", raw(val.get("ident", "Ident").span)))
            if k == "Int":
                i = val.get("0", "Int")
                if q.boolean(raw(i.negative)):
                    self.number(q, i, -2 ** 63, 0, 2 ** 64 - 1)

        def value(q, v, locs, pushes):
            d = self.desc(v, "UninterpretedOption")
            k = val.variant(q)
            nm = d.pop("name")
            els = nm.a[1] if nm.k == "V" else nm.a[2] if nm.k == "A" and nm.a[0] == "vec" else None
            if els is None:
                raise Undecided("option name")
            for x in els:
                if not (x.k == "done" and x.a[0] is mk("elem", raw(n.name))):
                    fail("P02", "option name", "contains %s" % show(x)[:100])
            if not els and not q.within(mk("len", raw(n.name)), ((0, 0),), "usize"):
                fail("P02", "option name", "is dropped")
            exp = {}
            if k == "Ident":
                exp["identifier_value"] = raw(val.get("ident", "Ident").value)
            elif k == "Int":
                i = val.get("0", "Int")
                neg = q.boolean(raw(i.negative))
                exp["negative_int_value" if neg else "positive_int_value"] = (neg, raw(i.value))
            elif k == "Aggregate":
                exp["aggregate_value"] = val.get("0", k)
            else:
                exp[self.UOF[k]] = raw(val.get("0", k).value)
            for f, x in d.items():
                if f in exp:
                    w = exp[f]
                    if isinstance(w, tuple):
                        self.want_number(q, x, w, "P02 P08", "option %s" % f)
                    else:
                        self.want_some(q, x, raw(w), "P02", "option %s" % f)
                else:
                    self.want_none(q, x, "P02", "option %s" % f)
            self.check_locs(q, locs, [], "P03", "option locations")
        self.outs(task, reject, value)
        pt = n.name.elem()

        def part(q, pushes, locs):
            if len(pushes) != 1:
                fail("P02", "option name part", "%d parts are added" % len(pushes))
            p = next(iter(pushes))
            d = self.desc(p[2], "uninterpreted_option::NamePart")
            if pt.variant(q) == "Ident":
                okk = self.same(d["name_part"], raw(pt.get("0", "Ident").value)) and q.eng.const_of(q.st, d["is_extension"]) == 0
            else:
                x = d["name_part"]
                okk = x.k == "disp" and x.a[0] is raw(pt.get("0", "Extension")) and q.eng.const_of(q.st, d["is_extension"]) == 1
            if not okk:
                fail("P02", "option name part", "is (%s, %s)" % (show(d["name_part"]), show(d["is_extension"])))
        self.items(task, {raw(n.name): (NOREJ, part, "option name parts", "")})

    # ---- extracting an option --------------------------------------------------------------------
    def U_take(self, task, e, cl):
        name = [x for x in task[2] if x.k == "s"]
        if not name:
            raise Undecided("option name")
        name = name[0].a[0]
        inner = Ast(self, field(NODE_T, 1, 0), "OptionList")
        o = inner.options.elem()

        def value(q, v, locs, pushes):
            p = self.opt(q, v)
            left = q.st_heap
            if p is None:
                if q.opt(NODE_T) is not None and any(raw(o) in subs(t) for t in q.facts) and self.entails_name(q, o, name):
                    fail("P02 P10", "option %s" % name, "is not found although it is present")
                if left is not None and left is not NODE_T and not self.unchanged(left, inner):
                    fail("P02", "remaining options", "become %s" % show(left)[:100])
                return
            if p is not raw(o):
                fail("P02 P10", "option %s" % name, "yields %s" % show(p)[:100])
            if not self.has_name(q, o, name):
                fail("P02 P10", "option %s" % name, "an option with a different name is taken")
            want = mk("without", raw(inner.options), raw(o))
            if left is not None and want not in subs(left) and left is not want:
                fail("P02 P10", "remaining options", "become %s; expected the others to be kept" % show(left)[:120])
        for st, v in e.out:
            self.count("paths")
            left = st.heap.get(("H", "node"))

            def val(q, v=v, left=left):
                q.st_heap = left
                value(q, v, (), ())
            self.check(task, st.facts, bool(st.cl.get("err")), NOREJ, val, self.prog.bodies[task[1]].path)

        def skipped(q, pushes, locs):
            if self.entails_name(q, o, name):
                fail("P02 P10", "option %s" % name, "is skipped")
        self.items(task, {raw(inner.options): (NOREJ, skipped, "options", "pure")})

    def unchanged(self, left, inner):
        if left.k == "A" and left.a[0] == OPT:
            if left.a[1] == 0:
                return True
            x = left.a[2][0]
            return x is raw(inner) or x.k == "A" and all(y is field(raw(inner), 0, i) for i, y in enumerate(x.a[2]))
        return False

    # ---- scalar types ----------------------------------------------------------------------------
    def U_tycode(self, task, e, cl):
        n = Ast(self, NODE_T, "Ty")

        def value(q, v, locs, pushes):
            k = n.variant(q)
            p = self.opt(q, v)
            if k == "Named":
                if p is not None:
                    fail("P11 P02", "type of a named field", "is %s" % show(p))
                return
            if p is None:
                fail("P11 P02", "type %s" % k, "has no type code")
            name = q.variant(p, FDT)
            if name != k:
                fail("P11 P02", "type %s" % k, "is mapped to %s" % name)
        self.outs(task, NOREJ, value)

    def U_tyname(self, task, e, cl):
        n = Ast(self, NODE_T, "Ty")

        def value(q, v, locs, pushes):
            if n.variant(q) == "Named":
                self.want_disp(q, v, n.get("0", "Named"), "P02 P20", "type name")
            else:
                self.want_none(q, v, "P02 P20", "type name of a scalar")
        self.outs(task, NOREJ, value)

    # ---- defaults --------------------------------------------------------------------------------
    INTS = {"Int32": (-2 ** 31, N31), "Sint32": (-2 ** 31, N31), "Sfixed32": (-2 ** 31, N31), "Uint32": (0, 2 ** 32 - 1), "Fixed32": (0, 2 ** 32 - 1),
            "Int64": (-2 ** 63, 2 ** 63 - 1), "Sint64": (-2 ** 63, 2 ** 63 - 1), "Sfixed64": (-2 ** 63, 2 ** 63 - 1), "Uint64": (0, 2 ** 64 - 1), "Fixed64": (0, 2 ** 64 - 1)}

    def r_default(self, q, val, ty):
        k = val.variant(q)
        here = ("node", val)
        if ty in ("Double", "Float"):
            if k in ("String", "Aggregate"):
                self.bad(q, here)
            if k == "Ident":
                s = raw(val.get("ident", "Ident").value)
                if not (q.streq(s, "nan") or q.streq(s, "inf")):
                    self.bad(q, here)
        elif ty in self.INTS:
            if k != "Int":
                return self.bad(q, here)
            if self.INTS[ty][0] == 0 and q.boolean(raw(val.get("0", "Int").negative)):
                return self.bad(q, here, ("span", raw(val.get("0", "Int").span)), *self.INTS[ty])
            self.number(q, val.get("0", "Int"), *self.INTS[ty])
        elif ty == "Bool":
            if k != "Ident" or q.boolean(raw(val.get("negative", "Ident"))):
                return self.bad(q, here)
            s = raw(val.get("ident", "Ident").value)
            if not (q.streq(s, "true") or q.streq(s, "false")):
                self.bad(q, here)
        elif ty == "String":
            if k != "String":
                return self.bad(q, here)
            if not q.truth(mk("pred", "utf8", raw(val.get("0", "String").value))):
                self.bad(q, here, ("span", raw(val.get("0", "String").span)))
        elif ty == "Bytes":
            if k != "String":
                self.bad(q, here)
        else:
            raise Undecided("default of type %s" % ty)

    def v_default(self, q, v, val, ty):
        pr = "P10 P02"
        p = self.opt(q, v)
        k = val.variant(q)
        if p is None:
            fail(pr, "default of %s" % ty, "is dropped")
        if ty in ("Double", "Float"):
            self.float_default(q, p, val, k, pr, ty)
        elif ty in self.INTS:
            i = val.get("0", "Int")
            neg, mag = self.number(q, i, *self.INTS[ty])
            c = q.eng.const_of(q.st, mag, "u64")
            if c is not None:
                want = str(-c if neg else c)
                if p.k == "s" and p.a[0] == want:
                    return
            if p.k == "disp" and self.num_is(q, p.a[0], neg, mag):
                return
            if p.k == "disp" and p.a[0] is raw(i):
                return
            fail(pr, "default of %s" % ty, "is %s; expected the decimal text of %s%s" % (show(p), "-" if neg else "", show(mag)))
        elif ty == "Bool":
            s = raw(val.get("ident", "Ident").value)
            want = "true" if q.streq(s, "true") else "false"
            if not (p.k == "s" and p.a[0] == want or p is s):
                fail(pr, "default of %s" % ty, "is %s; expected %s" % (show(p), want))
        elif ty == "String":
            src = raw(val.get("0", "String").value)
            if not (p.k == "utf8" and p.a[0] is src):
                fail(pr, "default of %s" % ty, "is %s; expected the string" % show(p))
        elif ty == "Bytes":
            st = raw(val.get("0", "String"))
            if not (p.k == "disp" and p.a[0] is st):
                fail(pr, "default of %s" % ty, "is %s; expected the escaped string" % show(p))

    def float_default(self, q, p, val, k, pr, ty):
        """the text of a number, in lower case where it is inf or nan"""
        what = "default of %s" % ty
        case = None
        while p.k == "sfn":
            case = "lower" if "lower" in str(p.a[0]) else "upper" if "upper" in str(p.a[0]) else "?"
            p = p.a[1]
        if k == "Ident":
            s = raw(val.get("ident", "Ident").value)
            neg = q.boolean(raw(val.get("negative", "Ident")))
            nan = q.streq(s, "nan")
            if p.k == "disp" and p.a[1] in ("f64", "f32"):
                sign, x = flsign(p.a[0])
                if x.k != "fl":
                    raise Undecided("float default %s" % show(p)[:80])
                t = {"inf": "inf", "nan": "NaN"}.get(str(x.a[0]).lower().lstrip("-"), str(x.a[0]))
                sign ^= str(x.a[0]).startswith("-")
                p = S("-" + t if sign and t != "NaN" else t)
            if p.k == "s":
                t = p.a[0].lower() if case == "lower" else p.a[0].upper() if case == "upper" else p.a[0]
                if t not in (("nan", "-nan") if nan and neg else ("nan",) if nan else ("-inf",) if neg else ("inf",)):
                    fail(pr, what, "is %r" % t)
                return
            raise Undecided("float default %s" % show(p)[:80])
        src = raw(val.get("0", k).value)
        if p.k == "fmt" and "prec" in str(p.a[1]) and src in subs(p):
            fail(pr, what, "is %s, which drops digits" % show(p))
        if src not in subs(p):
            if p.k in ("s", "disp", "fmt"):
                fail(pr, what, "is %s; expected the text of the literal" % show(p))
            raise Undecided("float default %s" % show(p)[:80])
        if p.k == "cat" and len(p.a[0]) == 2 and p.a[0][0] is S("-"):
            pre, p = 1, p.a[0][1]
        else:
            pre = 0
        if p.k not in ("disp", "fmt"):
            raise Undecided("float default %s" % show(p)[:80])
        x = p.a[0] if p.k == "disp" else p.a[2]
        sign, y = flsign(x)
        neg = q.boolean(raw(val.get("0", k).negative)) if k == "Int" else False
        if y is not src:
            bad = [c for c in casts(x) if c in NARROW and not (c == "f32" and ty == "Float")]
            if bad:
                fail(pr, what, "is converted by way of %s" % ", ".join(bad))
            raise Undecided("float default %s" % show(p)[:80])
        bad = [c for c in casts(x) if c in NARROW and not (c == "f32" and ty == "Float")]
        if bad:
            fail(pr, what, "is converted by way of %s" % ", ".join(bad))
        if neg != bool(sign ^ pre):
            fail(pr, what, "the sign is wrong: %s" % show(p))

    def U_default(self, task, e, cl):
        val = Ast(self, NODE_T, "OptionValue")
        toks = [x for x in (task[2] or ()) if x.k == "gen" and x.a[0] == "tycode"]
        if len(toks) != 1:
            raise Undecided("type argument of the default conversion")
        tok = toks[0]

        def ty(q):
            p = q.opt(tok)
            if p is None:
                return None
            return q.variant(p, FDT)

        def reject(q):
            t = ty(q)
            if t in (None, "Message", "Group", "Enum"):
                return
            self.r_default(q, val, t)

        def value(q, v, locs, pushes):
            t = ty(q)
            if t in (None, "Message", "Group", "Enum"):
                return
            self.v_default(q, v, val, t)
        self.outs(task, reject, value)


def alters(p, free=False):
    """does this string function change the text of some literal (identifier, signed number, quoted string)? or of some text?"""
    nm, pats = p.a[0], p.a[2:]
    if "case" in nm:
        return True
    if free and nm in ("trim", "trim_start", "trim_end") and not pats:
        return True
    if not pats or not all(x.k in ("s", "i") for x in pats):
        return False
    txt = [x.a[0] if x.k == "s" else chr(x.a[0]) for x in pats]
    if free:
        return nm == "replace" and len(txt) > 1 and txt[0] != txt[1] and txt[0] != "" or nm.startswith("trim") and txt[0] != ""
    if nm == "replace":
        return len(txt) > 1 and txt[0] != txt[1] and len(txt[0]) == 1 and (txt[0].isalnum() or txt[0] in "_.-")
    return nm.startswith("trim") and (len(txt[0]) == 1 and (txt[0].isalnum() or txt[0] in "_" or txt[0] in '"' or txt[0] == "-" and "end" not in nm))


def analyse(prog):
    allow(260)
    done = gen.close_tasks(prog)
    sp = Spec(prog, done)
    sp.run()
    sp.cut = late()
    if sp.cut:
        sp.undecided.append("no time left to follow every path of the generator")
    return sp


if __name__ == "__main__":
    import build, mir, sys, time
    t = time.time()
    prog = mir.Program(build.ensure(("protox_parse",)))
    t1 = time.time()
    done = gen.close_tasks(prog)
    t2 = time.time()
    sp = Spec(prog, done).run()
    print("load %.1f analyse %.1f compare %.1f" % (t1 - t, t2 - t1, time.time() - t2), sp.stats)
    seen = {}
    for v in sp.viol:
        seen.setdefault(v["key"], []).append(v)
    for k, vs in seen.items():
        print("VIOL", len(vs), k, vs[0]["props"], "|", vs[0]["detail"][:400], "|", vs[0]["cond"][:500], vs[0]["where"][:80])
    for u in sp.undecided:
        print("UNDECIDED", u[:300])
