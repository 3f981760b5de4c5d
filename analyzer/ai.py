"""Disjunctive abstract interpretation of MIR.

Abstract values are hash-consed terms: constants, aggregates, mutable references, abstract vectors and
provenance terms (parameter / field-of / call-result / element-of).  A branch on a provenance term splits
the abstract state and records the implied fact (integer range set, string in/not-in).  States meet at
control-flow joins, where they are compared after dropping dead locals and dead facts; a state equal to one
already seen is not explored again, so loops are analysed to a fixpoint.  No solver, no execution: the
domain is finite (collections are sets of element terms, counters are symbolic positions).
"""
import os
import re, sys, time

sys.setrecursionlimit(20000)


class N:
    __slots__ = ("k", "a", "_s", "d")

    def __repr__(self):
        return show(self)


_tab = {}


def _depth(x):
    if type(x) is N:
        return x.d
    if type(x) is tuple or type(x) is frozenset:
        m = 0
        for y in x:
            d = _depth(y)
            if d > m:
                m = d
        return m
    return 0


def mk(k, *a):
    key = (k, a)
    n = _tab.get(key)
    if n is None:
        n = N()
        n.k, n.a, n._s = k, a, None
        n.d = 1 + _depth(a)
        _tab[key] = n
    return n


def I(n):
    return mk("i", n)


def S(s):
    return mk("s", s)


def A(adt, variant, fields):
    return mk("A", adt, variant, tuple(fields))


OPT, RES, CF, COW = "std::option::Option", "std::result::Result", "std::ops::ControlFlow", "std::borrow::Cow"
UNIT = A("tuple", 0, ())
NONE = A(OPT, 0, ())
UNDEF = mk("undef")
TRUE, FALSE = I(1), I(0)


def some(x):
    return A(OPT, 1, (x,))


def ok(x):
    return A(RES, 0, (x,))


def err(x):
    return A(RES, 1, (x,))


def tup(*xs):
    return A("tuple", 0, xs)


def P(name):
    return mk("p", name)


ATOMIC = {"i", "s", "y", "fl", "A", "R", "V", "fn", "it"}


def field(v, variant, i):
    if v.k == "A":
        if i < len(v.a[2]):
            return v.a[2][i]
        return UNDEF
    if v.k == "R":
        return v      # internals of Box / smart pointers
    return mk("f", v, variant or 0, i)


def short(p):
    return p.split("<")[0].split("::")[-1]


def show(n, depth=0):
    if type(n) is tuple:
        return "(" + ", ".join(show(x, depth) for x in n) + ")"
    if type(n) is frozenset:
        return "{" + ", ".join(sorted(show(x, depth) for x in n)) + "}"
    if type(n) is not N:
        return str(n)
    if depth > 12:
        return "…"
    d = depth + 1
    k, a = n.k, n.a
    if k == "i":
        return str(a[0])
    if k == "s":
        return repr(a[0])
    if k == "p":
        return "$" + str(a[0])
    if k == "f":
        return "%s.%s%s" % (show(a[0], d), ("@%s." % a[1] if a[1] else ""), a[2])
    if k == "A":
        if a[0] == OPT:
            return "None" if a[1] == 0 else "Some(%s)" % show(a[2][0], d)
        if a[0] == RES:
            return ("Ok" if a[1] == 0 else "Err") + "(%s)" % ", ".join(show(x, d) for x in a[2])
        return "%s@%s(%s)" % (short(a[0]) if not a[0].startswith("closure") else a[0], a[1], ", ".join(show(x, d) for x in a[2]))
    if k == "V":
        return "V%s" % show(a[1], d)
    if k == "R":
        return "&mut %s%s" % (a[0], "".join(".%s" % (p[2] if len(p) == 3 else show(p[1], d)) for p in a[1]))
    if k == "fn":
        return "fn:" + short(a[0])
    if k == "call":
        return "%s(%s)" % (short(a[0]), ", ".join(show(x, d) for x in a[1]))
    return "%s(%s)" % (k, ", ".join(show(x, d) for x in a))


def subs(n):
    """symbolic subterms (frozenset of nodes)"""
    s = n._s
    if s is None:
        acc = set()

        def go(x):
            t = type(x)
            if t is N:
                acc.update(subs(x))
            elif t is tuple or t is frozenset:
                for y in x:
                    go(y)

        for x in n.a:
            go(x)
        if n.k not in ("i", "s", "y", "fl", "A", "fn"):
            acc.add(n)
        s = n._s = frozenset(acc)
    return s


_substmemo = {}


def subst(n, old, new):
    if n is old:
        return new
    if n.k == "old" or old not in subs(n):
        return n
    key = (n, old, new)
    r = _substmemo.get(key)
    if r is None:
        def go(x):
            t = type(x)
            if t is N:
                return subst(x, old, new)
            if t is tuple:
                return tuple(go(y) for y in x)
            if t is frozenset:
                return frozenset(go(y) for y in x)
            return x

        r = mk(n.k, *[go(x) for x in n.a])
        _substmemo[key] = r
    return r


# ---- integer range sets --------------------------------------------------------------------------
INF = 1 << 130
FULL = ((-INF, INF),)


def rs_and(a, b):
    out = []
    for l1, h1 in a:
        for l2, h2 in b:
            l, h = max(l1, l2), min(h1, h2)
            if l <= h:
                out.append((l, h))
    return tuple(sorted(out))


def rs_not(a):
    out, cur = [], -INF
    for l, h in sorted(a):
        if cur < l:
            out.append((cur, l - 1))
        cur = max(cur, h + 1)
    if cur <= INF:
        out.append((cur, INF))
    return tuple(out)


def rs_or(a, b):
    return rs_not(rs_and(rs_not(a), rs_not(b)))


def rs_shift(a, c):
    return tuple((l if l <= -INF else l + c, h if h >= INF else h + c) for l, h in a)


TYRANGE = {"bool": (0, 1), "char": (0, 0x10ffff)}
for _b in (8, 16, 32, 64, 128):
    TYRANGE["u%d" % _b] = (0, 2 ** _b - 1)
    TYRANGE["i%d" % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
TYRANGE["usize"] = TYRANGE["u64"]
TYRANGE["isize"] = TYRANGE["i64"]


WATCHED = ("H", "parser")


class Budget(Exception):
    pass


START = time.time()
TOTAL = 660             # seconds a check may spend following paths; a check is given 900
CLOCK = [None]          # when the running analysis has to stop


def allow(seconds):
    """the analysis that starts now follows paths for at most this long; what it has not followed then is undecided"""
    now = time.time()
    if os.environ.get("AI_UNLIMITED"):
        CLOCK[0] = None
    else:
        CLOCK[0] = min(now + seconds, max(now + 15, START + TOTAL))


def late():
    return CLOCK[0] is not None and time.time() > CLOCK[0]


class Unsupported(Exception):
    pass


class Frame:
    __slots__ = ("body", "blk", "locals", "dest", "ret", "cont", "line")

    def __init__(self, body, locs, dest, ret, cont):
        self.body, self.locals, self.dest, self.ret, self.cont = body, locs, dest, ret, cont
        self.blk = 0
        self.line = None

    def copy(self):
        f = Frame(self.body, list(self.locals), self.dest, self.ret, self.cont)
        f.blk = self.blk
        f.line = self.line
        return f


class State:
    __slots__ = ("frames", "heap", "facts", "cl", "trace", "pend")

    def __init__(self):
        self.frames, self.heap, self.facts, self.cl, self.trace = [], {}, {}, {}, None
        self.pend = None

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.cl = dict(self.cl)
        s.trace = self.trace
        s.pend = self.pend
        return s

    def note(self, *x):
        self.trace = (self.trace, x)

    def where(self):
        for f in reversed(self.frames):
            if f.body.local:
                return "%s (%s:%s)" % (short_fn(f.body), (f.body.span or ["?"])[0], f.line)
        return "?"

    def stack(self):
        return [short_fn(f.body) for f in self.frames]


def short_fn(body):
    p = re.sub(r"::<[^<>]*>", "", body.path)
    return p.split("::", 1)[-1] if "::" in p else p


def path_str(trace, limit=40):
    out = []
    while trace is not None and len(out) < limit:
        out.append(" ".join(str(x) for x in trace[1]))
        trace = trace[0]
    return out[::-1]


class Client:
    """hooks; every hook may be overridden"""
    opaque = ()

    def call(self, eng, st, fn, args, site):
        return None

    def push(self, eng, st, loc, old, elem):
        return False

    def assert_(self, eng, st, kind, ops, decided):
        """a compiler-inserted check (overflow, bounds, division); `decided`: does it hold on this path?"""
        self.asserts = getattr(self, "asserts", 0) + 1
        if decided:
            return
        if decided is None and kind == "index":
            flat = [y for x in ops for y in (x if type(x) is list else [x])]
            ix = [x for x in flat if x.k == "pos"]
            if ix:
                return          # the position of an element of that very list
            self.unproved = getattr(self, "unproved", []) + [(kind, st.where())]
            return
        self.panic(eng, st, kind)

    def panic(self, eng, st, what):
        self.__dict__.setdefault("panics", []).append((what, st.where()))

    def minlen(self, eng, st, coll):
        return 0

    def sticky(self, term):
        return False

    def keep_fact(self, eng, st, term, livesubs):
        return None

    def clkey(self, st):
        return tuple(sorted((k, v) for k, v in st.cl.items()))

    def heap_key(self, name):
        return True

    def elem(self, eng, st, coll, e):
        pass

    def returned(self, eng, st, body, val):
        return None

    def renamed(self, eng, st, old, new):
        pass

    def next(self, eng, st, itn):
        return None

    def vstore(self, eng, st, v, ix, nv):
        return False

    def length(self, eng, st, v):
        """the length of a list whose elements stand for something else, or None"""
        return None

    def place(self, eng, st, v, ix):
        """the position of ix among the elements of the list v"""
        return eng.const_of(st, ix)

    def lastelem(self, st, v):
        """the element added last to the list v, if it is known; NONE: it is of no interest"""
        return None

    def pushed(self, eng, st, vid, elem, ref):
        pass

    def tracks(self, elemty):
        """are the elements added to a list of this element type followed one by one?"""
        return False

    def item_done(self, eng, st, coll, e):
        pass

    def collected(self, eng, st, x, itn):
        """an element is added to a collection made by `collect`"""

    def exhausted(self, eng, st, coll):
        pass

    def display(self, eng, st, v, ty):
        return None

    def newvec(self, eng, st, elemty):
        return False

    def lenfacts(self, vid):
        return True

    def event(self, eng, st, *a):
        pass

    def widen(self, eng, st, body, local, old, new):
        pass

    def head(self, eng, st):
        pass

    def first(self, eng, st, coll):
        """the first element of a collection: None or [(state, element or None)]"""
        return None

    def nonempty(self, v):
        return False

    def changed(self, eng, st, old, new):
        pass


WRAPPERS = ("std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::mem::maybe_dangling::MaybeDangling",
            "core::mem::maybe_dangling::MaybeDangling")


BOXES = ("std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "core::ptr::unique::Unique")


def boxed(v, ty):
    """is v the content of a box rather than the box's own representation?"""
    return v.k == "A" and ty.startswith(BOXES) and not v.a[0].startswith(BOXES)


class Eng:
    def __init__(self, prog, client=None, models=None, max_steps=3_000_000, consts=None):
        import models as M
        self.prog = prog
        self.client = client or Client()
        self.max_steps = max_steps
        self.steps = 0
        self.consts = consts if consts is not None else {}
        self.models = M
        self.visited = set()
        self.out = []
        self.nstates = 0
        self.fnnodes = {}
        self.opaque_seen = {}
        self.functions = set()
        self.max_depth_term = 60
        self.maxlen = 2 ** 31 - 2        # lengths and indices: source texts are limited (P17)
        self.callstack_limit = 60
        self._cellc = 0

    # ---- entry ---------------------------------------------------------------------------------
    def run(self, body, args, heap=None, facts=None, cl=None):
        body.prep()
        st = State()
        locs = [None] * len(body.locals)
        for i, a in enumerate(args):
            locs[i + 1] = a
        st.frames.append(Frame(body, locs, None, None, None))
        st.heap = dict(heap or {})
        st.facts = dict(facts or {})
        st.cl = dict(cl or {})
        self.functions.add(body.key)
        self.out = []
        self.work = [st]
        while self.work:
            s = self.work.pop()
            try:
                self.step(s)
            except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError, AssertionError) as x:
                if os.environ.get("AI_DEBUG"):
                    raise
                raise Unsupported("%s: %s in %s" % (type(x).__name__, x, s.where() if s.frames else "?"))
        return self.out

    # ---- states --------------------------------------------------------------------------------
    def key(self, st, extra=None):
        roots = []
        fk = []
        livevals = []
        nf = len(st.frames)
        need = [None] * nf
        for d, fr in enumerate(st.frames):
            lv = fr.body.live[fr.blk if d == nf - 1 else fr.ret2] if False else None
        # live locals per frame
        lives = []
        for d in range(nf):
            fr = st.frames[d]
            if d == nf - 1 and extra is None:
                ls = set(fr.body.live.get(fr.blk, ()))
            else:
                # suspended: the block to return to is stored in the callee frame (or pend)
                nxt = st.frames[d + 1] if d + 1 < nf else None
                rb, dst = (nxt.ret, nxt.dest) if nxt is not None else (st.pend[1], st.pend[0])
                ls = set(fr.body.live.get(rb, ())) if rb is not None else set()
                if dst is not None and not dst[1] and dst[0] in ls and (nxt is None or True):
                    ls.discard(dst[0])
            lives.append(ls)
        todo = []
        seen_roots = set()

        def visit(v):
            if v is None:
                return
            for t in subs(v):
                if t.k == "R":
                    r = t.a[0]
                    if r not in seen_roots:
                        seen_roots.add(r)
                        if r[0] == "L":
                            if r[1] < nf and r[2] not in lives[r[1]] and r[2] < len(st.frames[r[1]].locals):
                                lives[r[1]].add(r[2])
                                visit(st.frames[r[1]].locals[r[2]])
                        else:
                            hv = st.heap.get(r)
                            if hv is not None:
                                visit(hv)

        for d in range(nf):
            fr = st.frames[d]
            for l in list(lives[d]):
                visit(fr.locals[l])
            if fr.cont is not None:
                for x in _flat(fr.cont):
                    visit(x)
        if extra is not None:
            for x in _flat(extra):
                visit(x)
        live = set()
        for d in range(nf):
            fr = st.frames[d]
            vals = []
            for l in sorted(lives[d]):
                v = fr.locals[l]
                vals.append((l, v))
                if v is not None:
                    live |= subs(v)
            fk.append((fr.body.key, fr.blk if d == nf - 1 and extra is None else -1,
                       fr.dest and (fr.dest[0], repr(fr.dest[1])) if False else None, fr.ret, fr.cont, tuple(vals)))
        hk = []
        ck = self.client
        for r, v in st.heap.items():
            if r in seen_roots or ck.heap_key(r):
                hk.append((r, v))
                live |= subs(v)
        for d in range(nf):
            if st.frames[d].cont is not None:
                for x in _flat(st.frames[d].cont):
                    live |= subs(x)
        if extra is not None:
            for x in _flat(extra):
                live |= subs(x)
        fx = []
        dead = None
        for t, f in st.facts.items():
            kf = ck.keep_fact(self, st, t, live)
            if kf is None:
                kf = t in live or ck.sticky(t) or fact_live(t, live)
            if kf:
                fx.append((t, f))
            else:
                dead = dead or []
                dead.append(t)
        if dead:
            for t in dead:
                del st.facts[t]
        fx.sort(key=lambda x: id(x[0]))
        hk.sort(key=lambda x: repr(x[0]))
        return (tuple(fk), tuple(hk), tuple(fx), ck.clkey(st), extra)

    def seen(self, st, extra=None):
        k = self.key(st, extra)
        if k in self.visited:
            return True
        self.visited.add(k)
        self.nstates += 1
        if len(self.visited) > self.max_states:
            raise Budget("more than %d abstract states (at %s)" % (self.max_states, st.where()))
        if not self.nstates & 127 and late():
            raise Budget("no time left (at %s)" % st.where())
        return False

    max_states = 400_000

    # ---- memory --------------------------------------------------------------------------------
    def load_root(self, st, root):
        if root[0] == "L":
            return st.frames[root[1]].locals[root[2]]
        if root[0] == "S":
            return st.heap.get(root, root[1])
        return st.heap.get(root)

    def set_root(self, st, root, v):
        if root[0] == "L":
            st.frames[root[1]].locals[root[2]] = v
        else:
            if root == WATCHED:
                self.client.changed(self, st, st.heap.get(root), v)
            st.heap[root] = v

    def load(self, st, root, path):
        v = self.load_root(st, root)
        for p in path:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if v is None:
            v = UNDEF
        if p[0] == "ix":
            return self.index(st, v, p[1])
        if v.k == "R":
            # a path through a box held by reference
            v = self.load(st, v.a[0], v.a[1])
        if p[0].startswith(WRAPPERS) or boxed(v, p[0]):
            return v
        return field(v, p[1], p[2])

    def index(self, st, v, ix):
        if v.k == "A" and v.a[0] in ("array", "vec"):
            c = self.client.place(self, st, v, ix)
            if c is not None and 0 <= c < len(v.a[2]):
                return v.a[2][c]
        if v.k == "y":
            c = self.const_of(st, ix)
            if c is not None and 0 <= c < len(v.a[0]):
                return I(v.a[0][c])
        if v.k == "V" and ix.k == "fromend" and ix.a[0].k == "i" and ix.a[0].a[0] == 1:
            e = self.client.lastelem(st, v)
            if e not in (None, NONE):
                return e
        if v.k == "V" and len(v.a[1]) == 1:
            return next(iter(v.a[1]))
        if ix.k == "add" and ix.a[0].k == "len" and ix.a[0].a[0] is v and ix.a[1] < 0:
            ix = mk("fromend", I(-ix.a[1]))
        if ix.k == "pos" and ix.a[0] is v:
            return self.models.elem_of(v)
        return mk("at", v, ix)

    def nfields(self, tystr, variant):
        a = self.prog.adts.get(tystr)
        if a is not None:
            vs = a["variants"]
            return len(vs[variant]["fields"]) if variant < len(vs) else 0
        t = self.prog.tykind.get(tystr)
        if t and t["k"] == "tuple":
            return len(t["args"])
        return None

    def adt_of(self, tystr):
        a = self.prog.adts.get(tystr)
        return a["path"] if a else "tuple"

    def expand(self, st, v, tystr, variant, upto):
        if v is not None and v.k == "A":
            return v
        n = self.nfields(tystr, variant)
        if n is None:
            n = upto + 1
        n = max(n, upto + 1)
        if v is None or v.k == "undef":
            return A(self.adt_of(tystr), variant, [UNDEF] * n)
        return A(self.adt_of(tystr), variant, [field(v, variant, j) for j in range(n)])

    def upd(self, st, v, path, i, new, site=None):
        if i == len(path):
            return new
        p = path[i]
        if p[0] == "ix":
            if v is None:
                v = UNDEF
            if v.k == "A" and v.a[0] in ("array", "vec"):
                c = self.client.place(self, st, v, p[1])
                if c is not None and 0 <= c < len(v.a[2]):
                    fs = list(v.a[2])
                    fs[c] = self.upd(st, fs[c], path, i + 1, new)
                    return A(v.a[0], 0, fs)
            if v.k == "V":
                old = None
                if p[1].k == "fromend" and p[1].a[0].k == "i" and p[1].a[0].a[0] == 1:
                    old = self.client.lastelem(st, v)
                nv = self.upd(st, old if old not in (None, NONE) else mk("at", v, p[1]), path, i + 1, new)
                if self.client.vstore(self, st, v, p[1], nv):
                    return v
                return mk("V", v.a[0], v.a[1] | {nv})
            nv = self.upd(st, mk("at", v, p[1]), path, i + 1, new)
            return mk("V", mk("vid", "upd", v), frozenset([mk("elems", v), nv]))
        if p[0].startswith(WRAPPERS):
            return self.upd(st, v, path, i + 1, new)
        v = self.expand(st, v, p[0], p[1] or 0, p[2])
        fs = list(v.a[2])
        while len(fs) <= p[2]:
            fs.append(UNDEF)
        fs[p[2]] = self.upd(st, fs[p[2]], path, i + 1, new)
        return A(v.a[0], v.a[1] if p[1] is None else p[1], fs)

    def store(self, st, root, path, val):
        if not path:
            self.set_root(st, root, val)
            return
        v = self.load_root(st, root)
        # a path element below a reference held inside (box) continues there
        cur, i = v, 0
        self.set_root(st, root, self.upd(st, v, path, 0, val))

    def ty_s(self, fr, tid):
        return fr.body.crate.types[tid]["s"]

    def place_loc(self, st, place):
        """-> ('loc', root, path, tystr)"""
        fr = st.frames[-1]
        T = fr.body.crate.types
        root = ("L", len(st.frames) - 1, place[0])
        path = []
        tid = fr.body.locals[place[0]]
        var = None
        for p in place[1]:
            if p == "*":
                v = self.load(st, root, path)
                t = T[tid]
                if v is None:
                    v = UNDEF
                if v.k == "R":
                    root, path = v.a[0], list(v.a[1])
                elif t["k"] in ("ref", "ptr"):
                    if v.k not in ATOMIC:
                        root, path = ("S", v), []
                    # shared reference to a concrete snapshot: stay (reads only)
                if t["k"] in ("ref", "ptr"):
                    tid = t["inner"]
                elif t["k"] == "adt" and t["args"]:
                    tid = t["args"][0]
                var = None
            elif p[0] == "d":
                var = p[1]
            elif p[0] == "f":
                path.append((T[tid]["s"], var, p[1]))
                tid = p[2]
                var = None
            elif p[0] == "i":
                path.append(("ix", fr.locals[p[1]] or UNDEF))
                t = T[tid]
                tid = t.get("inner", t["args"][0] if t.get("args") else tid)
            elif p[0] == "c":
                ix = I(p[1]) if not p[3] else mk("fromend", I(p[1]))
                path.append(("ix", ix))
                t = T[tid]
                tid = t.get("inner", tid)
            elif p[0] == "s":
                path.append(("ix", mk("subslice", I(p[1]), I(p[2]), I(1 if p[3] else 0))))
            else:
                raise Unsupported("projection %r" % (p,))
        return root, tuple(path), T[tid]["s"]

    def read(self, st, place):
        fr = st.frames[-1]
        v = fr.locals[place[0]]
        if not place[1]:
            return v if v is not None else UNDEF
        T = fr.body.crate.types
        tid = fr.body.locals[place[0]]
        var = None
        for p in place[1]:
            if v is None:
                v = UNDEF
            if p == "*":
                if v.k == "R":
                    v = self.load(st, v.a[0], v.a[1])
                elif ("S", v) in st.heap:
                    v = st.heap[("S", v)]
                t = T[tid]
                if t["k"] in ("ref", "ptr"):
                    tid = t["inner"]
                elif t["k"] == "adt" and t["args"]:
                    tid = t["args"][0]
                var = None
            elif p[0] == "d":
                var = p[1]
            elif p[0] == "f":
                if v.k == "R" and T[tid]["k"] == "adt" and not T[tid]["path"].startswith(("std::boxed", "std::ptr", "core::ptr", "alloc::boxed")):
                    v = self.load(st, v.a[0], v.a[1])
                if not T[tid]["s"].startswith(WRAPPERS) and not boxed(v, T[tid]["s"]):
                    v = field(v, var, p[1])
                tid = p[2]
                var = None
            elif p[0] == "i":
                v = self.index(st, v, fr.locals[p[1]] or UNDEF)
                t = T[tid]
                tid = t.get("inner", t["args"][0] if t.get("args") else tid)
            elif p[0] == "c":
                if p[3]:
                    if v.k == "A" and v.a[0] in ("array", "vec"):
                        v = v.a[2][len(v.a[2]) - p[1]]
                    else:
                        v = mk("at", v, mk("fromend", I(p[1])))
                else:
                    v = self.index(st, v, I(p[1]))
                t = T[tid]
                tid = t.get("inner", tid)
            elif p[0] == "s":
                if v.k == "A" and v.a[0] in ("array", "vec"):
                    n = len(v.a[2])
                    v = A("array", 0, v.a[2][p[1]:(n - p[2] if p[3] else p[2])])
                else:
                    v = mk("slice", v, I(p[1]), I(-p[2] if p[3] else p[2]))
            else:
                raise Unsupported("projection %r" % (p,))
        return v if v is not None else UNDEF

    def deref(self, st, v):
        """value behind a reference (mutable refs are loaded, everything else is transparent)"""
        n = 0
        while v is not None and v.k == "R" and n < 10:
            v = self.load(st, v.a[0], v.a[1])
            n += 1
        if v is not None and ("S", v) in st.heap:
            v = st.heap[("S", v)]
        return v if v is not None else UNDEF

    # ---- facts ---------------------------------------------------------------------------------
    def rng(self, st, t, ty=None):
        if t.k == "i":
            return ((t.a[0], t.a[0]),)
        f = st.facts.get(t)
        base = self.base_rng(st, t, ty)
        if f is None or f[0] == "S":
            return base
        return rs_and(f, base)

    def base_rng(self, st, t, ty=None):
        k = t.k
        if k == "discr":
            a = self.prog.adt_path.get(t.a[1])
            if a:
                vals = sorted(int(v["discr"]) for v in a["variants"])
                return tuple((x, x) for x in vals)
        if k in BOOLK:
            return ((0, 1),)
        if k in ("len", "last", "pos", "ctr", "count") or k == "old" and t.a[0].k in ("len", "last", "pos", "ctr"):
            f = st.facts.get(t.a[0]) if k == "len" else None
            if f is not None and f[0] == "S":
                if f[1] is not None:
                    n = len(f[1].encode())
                    return ((n, n),)
                if "" in f[2]:
                    return ((1, self.maxlen),)
            return ((self.client.minlen(self, st, t.a[0]) if k == "len" else 0, self.maxlen),)
        if k == "add":
            r = rs_shift(self.rng(st, t.a[0], ty), t.a[1])
            if ty in TYRANGE:
                r = rs_and(r, (TYRANGE[ty],))
            return r
        if k == "cast":
            return (TYRANGE.get(t.a[0], FULL[0]),)
        if k == "neg":
            return tuple(sorted((-h, -l) for l, h in self.rng(st, t.a[0], ty if ty and ty[0] == "i" else None)))
        if ty in TYRANGE:
            return (TYRANGE[ty],)
        return FULL

    def narrow(self, st, t, rs, ty=None):
        """assume t in rs; returns False when infeasible"""
        if t.k == "i":
            return any(l <= t.a[0] <= h for l, h in rs)
        if t.k == "add":
            return self.narrow(st, t.a[0], rs_shift(rs, -t.a[1]), ty)
        if t.k == "neg":
            return self.narrow(st, t.a[0], tuple(sorted((-h, -l) for l, h in rs)), ty)
        cur = self.rng(st, t, ty)
        new = rs_and(cur, rs)
        if not new:
            return False
        if new != cur:
            st.facts[t] = new
            if t.k == "discr":
                return self.link_discr(st, t, new)
        return True

    def link_discr(self, st, t, new):
        return True

    def const_of(self, st, t, ty=None):
        if t.k == "i":
            return t.a[0]
        f = st.facts.get(t)
        if f is not None and f[0] != "S" and len(f) == 1 and f[0][0] == f[0][1]:
            return f[0][0]
        if t.k in ("discr", "add"):
            r = self.rng(st, t)
            if len(r) == 1 and r[0][0] == r[0][1]:
                return r[0][0]
        return None

    def str_fact(self, st, t):
        f = st.facts.get(t)
        if f is None or f[0] != "S":
            return (None, frozenset())
        return (f[1], f[2])

    def assume(self, st, b, truth):
        """assume boolean node b == truth"""
        k = b.k
        if k == "i":
            return bool(b.a[0]) == truth
        if k == "not":
            return self.assume(st, b.a[0], not truth)
        if k == "and":
            if truth:
                return self.assume(st, b.a[0], True) and self.assume(st, b.a[1], True)
            x, y = self.truth(st, b.a[0]), self.truth(st, b.a[1])
            if x is True and y is True:
                return False
            if x is True:
                return self.assume(st, b.a[1], False)
            if y is True:
                return self.assume(st, b.a[0], False)
        if k == "or":
            if not truth:
                return self.assume(st, b.a[0], False) and self.assume(st, b.a[1], False)
            x, y = self.truth(st, b.a[0]), self.truth(st, b.a[1])
            if x is False and y is False:
                return False
            if x is False:
                return self.assume(st, b.a[1], True)
            if y is False:
                return self.assume(st, b.a[0], True)
        if k == "eq":
            x, y, ty = b.a
            if y.k == "i":
                rs = ((y.a[0], y.a[0]),)
                return self.narrow(st, x, rs if truth else rs_not(rs), ty)
        if k == "lt":
            x, y, ty = b.a
            if y.k == "i":
                c = y.a[0]
                return self.narrow(st, x, ((-INF, c - 1),) if truth else ((c, INF),), ty)
            if x.k == "i":
                c = x.a[0]
                return self.narrow(st, y, ((c + 1, INF),) if truth else ((-INF, c),), ty)
        if k == "inset":
            x, rs, ty = b.a
            return self.narrow(st, x, rs if truth else rs_not(rs), ty)
        if k == "streq":
            x, lit = b.a
            pos, neg = self.str_fact(st, x)
            if truth:
                if pos is not None:
                    return pos == lit
                if lit in neg:
                    return False
                st.facts[x] = ("S", lit, frozenset())
            else:
                if pos is not None:
                    return pos != lit
                st.facts[x] = ("S", None, neg | {lit})
            return True
        cur = st.facts.get(b)
        v = ((1, 1),) if truth else ((0, 0),)
        if cur is not None:
            return bool(rs_and(cur, v))
        st.facts[b] = v
        return True

    def truth(self, st, b):
        k = b.k
        if k == "i":
            return bool(b.a[0])
        if k == "not":
            t = self.truth(st, b.a[0])
            return None if t is None else not t
        if k == "and":
            x, y = self.truth(st, b.a[0]), self.truth(st, b.a[1])
            if x is False or y is False:
                return False
            return True if x and y else None
        if k == "or":
            x, y = self.truth(st, b.a[0]), self.truth(st, b.a[1])
            if x or y:
                return True
            return False if x is False and y is False else None
        if k == "eq":
            x, y, ty = b.a
            rx, ry = self.rng(st, x, ty), self.rng(st, y, ty)
            if not rs_and(rx, ry):
                return False
            if len(rx) == 1 and rx == ry and rx[0][0] == rx[0][1]:
                return True
        if k == "lt":
            x, y, ty = b.a
            rx, ry = self.rng(st, x, ty), self.rng(st, y, ty)
            if rx and ry:
                if rx[-1][1] < ry[0][0]:
                    return True
                if rx[0][0] >= ry[-1][1]:
                    return False
        if k == "inset":
            x, rs, ty = b.a
            cur = self.rng(st, x, ty)
            if not rs_and(cur, rs):
                return False
            if not rs_and(cur, rs_not(rs)):
                return True
        if k == "streq":
            x, lit = b.a
            pos, neg = self.str_fact(st, x)
            if pos is not None:
                return pos == lit
            if lit in neg:
                return False
        f = st.facts.get(b)
        if f is not None and f[0] != "S" and len(f) == 1 and f[0][0] == f[0][1]:
            return bool(f[0][0])
        return None

    # ---- pure operations -----------------------------------------------------------------------
    def b_not(self, b):
        if b.k == "i":
            return I(1 - b.a[0])
        if b.k == "not":
            return b.a[0]
        return mk("not", b)

    def eq(self, st, x, y, ty=None):
        if x is y:
            return TRUE
        if x.k == "i" and y.k == "i":
            return I(int(x.a[0] == y.a[0]))
        if x.k == "s" and y.k == "s":
            return I(int(x.a[0] == y.a[0]))
        if x.k == "i" or (x.k == "s" and y.k != "s"):
            x, y = y, x
        if y.k == "s":
            return mk("streq", x, y.a[0])
        if y.k == "i":
            while x.k == "add":
                y = I(y.a[0] - x.a[1])
                x = x.a[0]
            b = mk("eq", x, y, ty)
            t = self.truth(st, b)
            return b if t is None else I(int(t))
        if y.k != "i" and show(x) > show(y):
            x, y = y, x
        return mk("eq", x, y, ty)

    def eqseq(self, st, x, y):
        """equality of two lists of numbers, or None"""
        if not (x.k == "A" and y.k == "A" and x.a[0] in ("vec", "array") and y.a[0] in ("vec", "array")):
            return None
        xs, ys = list(x.a[2]), list(y.a[2])
        if xs and ys and xs[0].k == "p" and xs[0] is ys[0]:     # the same beginning, of any length
            xs, ys = xs[1:], ys[1:]
        if any(e.k == "p" for e in xs + ys):
            return None
        if len(xs) != len(ys):
            return FALSE
        r = []
        for a, b in zip(xs, ys):
            if {a.k, b.k} == {"len", "last"} and a.a[0] is b.a[0]:
                return FALSE              # the position of the last element is below the length
            c = self.eq(st, a, b, "i32")
            if c is FALSE:
                return FALSE
            if c is not TRUE:
                r.append(c)
        return TRUE if not r else r[0] if len(r) == 1 else None

    def lt(self, st, x, y, ty=None):
        if x is y:
            return FALSE
        if x.k == "i" and y.k == "i":
            return I(int(x.a[0] < y.a[0]))
        if y.k == "i":
            while x.k == "add":
                y = I(y.a[0] - x.a[1])
                x = x.a[0]
        elif x.k == "i":
            while y.k == "add":
                x = I(x.a[0] - y.a[1])
                y = y.a[0]
        b = mk("lt", x, y, ty)
        t = self.truth(st, b)
        return b if t is None else I(int(t))

    def add(self, x, c):
        if x.k == "i":
            return I(x.a[0] + c)
        if x.k == "add":
            c += x.a[1]
            x = x.a[0]
        return x if c == 0 else mk("add", x, c)

    def binop(self, st, op, x, y, ty):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if ty == "()" or (x.k == "A" and x.a[0] == "tuple" and not x.a[2]):
                return I(1 if op in ("Eq", "Le", "Ge") else 0)
            if ty == "bool":
                cx, cy = self.const_of(st, x), self.const_of(st, y)
                if op in ("Eq", "Ne") and (cx is not None or cy is not None):
                    if cx is None:
                        x, cx, y, cy = y, cy, x, cx
                    r = y if cx else self.b_not(y)
                    return r if op == "Eq" else self.b_not(r)
            if op == "Eq":
                return self.eq(st, x, y, ty)
            if op == "Ne":
                return self.b_not(self.eq(st, x, y, ty))
            if op == "Lt":
                return self.lt(st, x, y, ty)
            if op == "Le":
                return self.b_not(self.lt(st, y, x, ty))
            if op == "Gt":
                return self.lt(st, y, x, ty)
            return self.b_not(self.lt(st, x, y, ty))
        if op in ("BitAnd", "BitOr", "BitXor") and ty == "bool":
            cx, cy = self.truth(st, x), self.truth(st, y)
            if op == "BitAnd":
                if cx is False or cy is False:
                    return FALSE
                return y if cx else x if cy else mk("and", x, y)
            if op == "BitOr":
                if cx or cy:
                    return TRUE
                return y if cx is False else x if cy is False else mk("or", x, y)
            if cx is not None:
                return self.b_not(y) if cx else y
            if cy is not None:
                return self.b_not(x) if cy else x
            return mk("xor", x, y)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        cx, cy = (x.a[0] if x.k == "i" else None), (y.a[0] if y.k == "i" else None)
        if cx is None and base not in ("Add", "Sub"):
            cx = self.const_of(st, x)
        if cy is None:
            cy = self.const_of(st, y)
        res = None
        if base == "Add":
            if cx is not None and cy is not None:
                res = I(cx + cy)
            elif cy is not None:
                res = self.add(x, cy)
            elif cx is not None:
                res = self.add(y, cx)
            else:
                res = mk("sum", *sorted((x, y), key=show))
        elif base == "Sub":
            if cx is not None and cy is not None:
                res = I(cx - cy)
            elif cy is not None:
                res = self.add(x, -cy)
            elif x.k == "sum" and y in x.a:
                res = x.a[0] if x.a[1] is y else x.a[1]
            else:
                res = mk("diff", x, y)
        elif base == "Mul":
            if cx is not None and cy is not None:
                res = I(cx * cy)
            elif 0 in (cx, cy):
                res = I(0)
            elif 1 in (cx, cy):
                res = y if cx == 1 else x
            else:
                res = mk("mul", x, y)
        elif base in ("Div", "Rem") and cx is not None and cy:
            q = abs(cx) // abs(cy) * (1 if (cx < 0) == (cy < 0) else -1)
            res = I(q) if base == "Div" else I(cx - q * cy)
        elif base in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr") and cx is not None and cy is not None:
            res = I({"BitAnd": cx & cy, "BitOr": cx | cy, "BitXor": cx ^ cy, "Shl": cx << min(cy, 200), "Shr": cx >> min(cy, 200)}[base])
        if res is None:
            res = mk("op", base, x, y)
        r = TYRANGE.get(ty)
        if op.endswith("WithOverflow"):
            ov = None
            if res.k == "i" and r:
                ov = I(int(not (r[0] <= res.a[0] <= r[1])))
                if ov.a[0]:
                    m = r[1] - r[0] + 1
                    res = I((res.a[0] - r[0]) % m + r[0])
            elif r and base in ("Add", "Sub") and (cx is not None or cy is not None) and not (base == "Sub" and cx is not None):
                c = cy if cy is not None else cx
                s = rs_shift(self.rng(st, x if cy is not None else y, ty), c if base == "Add" else -c)
                if s and s[0][0] >= r[0] and s[-1][1] <= r[1]:
                    ov = FALSE
            elif base == "Sub" and r and r[0] == 0 and self.truth(st, mk("lt", x, y, ty)) is False:
                ov = FALSE
            if ov is None:
                ov = mk("ovf", base, x, y, ty)
            return tup(res, ov)
        if res.k == "i" and r and not (r[0] <= res.a[0] <= r[1]):
            m = r[1] - r[0] + 1
            res = I((res.a[0] - r[0]) % m + r[0])
        return res

    def cast(self, st, kind, v, ty, fromty):
        if kind == "IntToInt":
            r = TYRANGE.get(ty)
            if v.k == "i" and r:
                m = r[1] - r[0] + 1
                return I((v.a[0] - r[0]) % m + r[0])
            if r:
                cur = self.rng(st, v, fromty)
                if cur and cur[0][0] >= r[0] and cur[-1][1] <= r[1]:
                    if ty.endswith("128") and fromty in TYRANGE:
                        self.narrow(st, v, (TYRANGE[fromty],))      # its bounds are the narrower type's
                    return v
            return mk("cast", ty, v)
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            return mk("cast", ty, v)
        return v

    # ---- operands ------------------------------------------------------------------------------
    def fn_node(self, callee):
        key = callee.get("key") or callee.get("rpath") or callee["path"]
        n = mk("fn", key + ("#" + callee["ik"] if callee.get("ik") not in (None, "item") else ""))
        self.fnnodes.setdefault(n, callee)
        return n

    def const(self, st, c, fr):
        ty = fr.body.crate.types[c["ty"]]
        if "int" in c and not c.get("scalar_adt"):
            return I(int(c["int"]))
        if "str" in c:
            return S(c["str"])
        if "bytes" in c:
            return mk("y", tuple(c["bytes"]))
        if "fn" in c:
            return self.fn_node(c["fn"])
        if "body" in c:
            return self.const_body(c["body"])
        if c.get("zst"):
            if ty["k"] == "tuple":
                return UNIT
            if ty["k"] == "fndef" and "callee" in ty:
                return self.fn_node(ty["callee"])
            if ty["k"] == "adt":
                return A(ty["path"], 0, ())
            if ty["k"] == "closure":
                return A("closure:" + str(ty.get("key") or ty["path"]), 0, ())
            return mk("zst", ty["s"])
        if "float" in c:
            return mk("fl", c["float"])
        if "scalar_adt" in c:
            a = self.prog.adts.get(ty["s"])
            if a:
                vs = [i for i, v in enumerate(a["variants"]) if str(v["discr"]) == str(c["int"])]
                if a["kind"] == "enum" or a["kind"] == "Enum":
                    if len(vs) == 1 and not a["variants"][vs[0]]["fields"]:
                        return A(a["path"], vs[0], ())
                elif len(a["variants"]) == 1 and len(a["variants"][0]["fields"]) == 1:
                    return A(a["path"], 0, (I(int(c["int"])),))
            return mk("const", ty["s"], str(c["int"]))
        if "static" in c:
            return mk("static", c["static"])
        if "fnptr" in c:
            return mk("const", "fnptr", str(c["fnptr"]))
        return mk("const", ty["s"], str(c.get("cpath") or c.get("opaque") or c.get("uneval")))

    def const_body(self, key):
        if key in self.consts:
            return self.consts[key]
        self.consts[key] = mk("const", "body", key)
        b = self.prog.bodies.get(key)
        if b is not None:
            e = Eng(self.prog, Client(), max_steps=20000, consts=self.consts)
            try:
                out = e.run(b, [])
                if len(out) == 1:
                    v = out[0][1]
                    if v is not None and not any(t.k == "R" for t in subs(v)):
                        self.consts[key] = norm_const(v)
            except (Budget, Unsupported):
                pass
        return self.consts[key]

    def operand(self, st, o):
        if o[0] in "cm":
            return self.read(st, o[1])
        return self.const(st, o[1], st.frames[-1])

    def op_ty(self, fr, o):
        T = fr.body.crate.types
        if o[0] == "k":
            return T[o[1]["ty"]]["s"]
        p = o[1]
        tid = fr.body.locals[p[0]]
        for x in p[1]:
            if x == "*":
                t = T[tid]
                tid = t["inner"] if t["k"] in ("ref", "ptr") else (t["args"][0] if t.get("args") else tid)
            elif x[0] == "f":
                tid = x[2]
            elif x[0] in "ic":
                t = T[tid]
                tid = t.get("inner", t["args"][0] if t.get("args") else tid)
        return T[tid]["s"]

    def discr(self, st, v, ty):
        v = self.deref(st, v)
        if v.k == "A":
            a = self.prog.adt_path.get(v.a[0])
            if a and v.a[1] < len(a["variants"]):
                return I(int(a["variants"][v.a[1]]["discr"]))
            return I(v.a[1])
        return mk("discr", v, ty)

    def adt_path_of_place(self, st, place):
        fr = st.frames[-1]
        T = fr.body.crate.types
        tid = fr.body.locals[place[0]]
        for x in place[1]:
            if x == "*":
                t = T[tid]
                tid = t["inner"] if t["k"] in ("ref", "ptr") else (t["args"][0] if t.get("args") else tid)
            elif x[0] == "f":
                tid = x[2]
            elif x[0] in "ic":
                t = T[tid]
                tid = t.get("inner", t["args"][0] if t.get("args") else tid)
        t = T[tid]
        return t.get("path", t["s"])

    def rvalue(self, st, r):
        k = r[0]
        fr = st.frames[-1]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref":
            if r[2]:
                root, path, ts = self.place_loc(st, r[1])
                v = self.load(st, root, path)
                return mk("R", root, path, ts)
            return self.read(st, r[1])
        if k == "discr":
            return self.discr(st, self.read(st, r[1]), self.adt_path_of_place(st, r[1]))
        if k == "agg":
            kind = r[1]
            vals = [self.operand(st, o) for o in r[2]]
            if kind[0] == "tuple":
                return A("tuple", 0, vals)
            if kind[0] == "array":
                return A("array", 0, vals)
            if kind[0] == "adt":
                t = fr.body.crate.types[kind[1]]
                return A(t["path"], kind[2], vals)
            if kind[0] == "closure":
                return A("closure:" + kind[1], 0, vals)
            return mk("agg", str(kind), tuple(vals))
        if k == "bin":
            ty = self.op_ty(fr, r[2])
            x, y = self.operand(st, r[2]), self.operand(st, r[3])
            return self.binop(st, r[1], self.deref(st, x) if x.k == "R" else x, self.deref(st, y) if y.k == "R" else y, ty)
        if k == "un":
            v = self.operand(st, r[2])
            if r[1] == "Not":
                if self.op_ty(fr, r[2]) == "bool":
                    return self.b_not(v)
                return mk("op", "Not", v)
            if r[1] == "Neg":
                if v.k == "i":
                    return I(-v.a[0])
                return mk("neg", v)
            if r[1] == "PtrMetadata":
                return self.length(st, self.deref(st, v))
            return mk("op", r[1], v)
        if k == "cast":
            v = self.operand(st, r[2])
            return self.cast(st, r[1], v, fr.body.crate.types[r[3]]["s"], self.op_ty(fr, r[2]))
        if k == "repeat":
            v = self.operand(st, r[1])
            n = r[2]
            try:
                n = int(n)
            except (TypeError, ValueError):
                n = None
            if n is not None and n <= 16:
                return A("array", 0, [v] * n)
            return mk("rep", v, str(r[2]))
        return mk("rv", str(r)[:80])

    def length(self, st, v):
        if v.k == "A" and v.a[0] in ("array", "vec"):
            return self.client.length(self, st, v) or I(len(v.a[2]))
        if v.k == "y":
            return I(len(v.a[0]))
        if v.k == "s":
            return I(len(v.a[0].encode()))
        if v.k == "V":
            return mk("len", v.a[0])
        if v.k == "slice" and v.a[1].k == "i" and v.a[2].k == "i" and v.a[2].a[0] <= 0:
            return self.add(self.length(st, v.a[0]), -v.a[1].a[0] + v.a[2].a[0])
        return mk("len", v)

    # ---- execution -----------------------------------------------------------------------------
    def step(self, st):
        """runs st until it branches, ends or is subsumed; successors go to self.work"""
        while True:
            fr = st.frames[-1]
            body = fr.body
            if fr.blk in body.joins:
                if fr.blk in body.loop_heads:
                    self.widen(st, fr)
                    self.client.head(self, st)
                if self.seen(st):
                    return
            blk = body.blocks[fr.blk]
            if blk is None:
                return
            self.steps += 1 + len(blk[0])
            if self.steps > self.max_steps:
                raise Budget("step budget exhausted at %s" % st.where())
            for s in blk[0]:
                if s[0] == "=":
                    fr.line = s[3]
                    v = self.rvalue(st, s[2])
                    if v.d > self.max_depth_term:
                        v = mk("deep", v.k)
                    if not s[1][1]:
                        fr.locals[s[1][0]] = v
                    else:
                        root, path, _ = self.place_loc(st, s[1])
                        self.store(st, root, path, v)
                elif s[0] == "sd":
                    raise Unsupported("set_discriminant")
            t = blk[1]
            k = t[0]
            if k == "goto":
                fr.blk = t[1]
                continue
            if k == "switch":
                fr.line = t[4] or fr.line
                if not self.switch(st, t):
                    return
                continue
            if k == "return":
                if not self.do_return(st):
                    return
                continue
            if k == "call":
                fr.line = t[5]
                if not self.do_call(st, t):
                    return
                continue
            if k == "assert":
                fr.line = t[6]
                c = self.operand(st, t[1])
                want = t[2] if isinstance(t[2], bool) else str(t[2]).lower() == "true"
                tr = self.truth(st, c)
                self.client.assert_(self, st, t[3], (c, want, [self.operand(st, o) for o in t[4]]), None if tr is None else tr == want)
                if tr is not None and tr != want:
                    return
                if tr is None and not self.assume(st, c, want):
                    return
                fr.blk = t[5]
                continue
            return

    def exact_counter(self, v):
        return False

    def widen(self, st, fr):
        for l in fr.body.counters.get(fr.blk, ()):
            v = fr.locals[l]
            if v is None or v.k in ("undef",) or self.exact_counter(v):
                continue
            c = mk("ctr", fr.body.key, l, len(st.frames))
            self.client.widen(self, st, fr.body, l, c, v)
            if v is c:
                continue
            for f in list(st.facts):
                if c in subs(f) and not self.client.sticky(f):
                    del st.facts[f]
            self.models.rename_in_state(self, st, c, mk("old", c))
            fr.locals[l] = c

    def switch(self, st, t):
        fr = st.frames[-1]
        v = self.operand(st, t[1])
        if v.k == "R":
            v = self.deref(st, v)
        ty = self.op_ty(fr, t[1])
        c = self.const_of(st, v, ty) if v.k not in BOOLK else (lambda z: None if z is None else int(z))(self.truth(st, v))
        if c is not None:
            for val, b in t[2]:
                if int(val) == c:
                    fr.blk = b
                    return True
            fr.blk = t[3]
            return fr.blk is not None
        outs = []
        groups = {}
        for val, b in t[2]:
            groups.setdefault(b, []).append(int(val))
        allv = sorted(int(x[0]) for x in t[2])
        ot = t[3]
        if ot is not None and (fr.body.blocks[ot] is None or (fr.body.blocks[ot][1][0] == "unreachable" and not fr.body.blocks[ot][0])):
            ot = None
        if ot is not None and v.k not in BOOLK and ot in groups:
            rs = rs_not(tuple((x, x) for x in allv if x not in groups[ot]))
            del groups[ot]
            other = rs
        else:
            other = rs_not(tuple((x, x) for x in allv))
        for b, vals in groups.items():
            s2 = st.clone()
            if v.k in BOOLK:
                okk = len(set(vals) & {0, 1}) == 2 or self.assume(s2, v, bool(vals[0]))
            else:
                okk = self.narrow(s2, v, tuple((x, x) for x in sorted(set(vals))), ty)
            if okk:
                s2.frames[-1].blk = b
                outs.append((s2, vals[0] if len(vals) == 1 else tuple(vals)))
        if ot is not None:
            s2 = st.clone()
            okk = True
            if v.k in BOOLK:
                left = {0, 1} - set(allv)
                if ot in {b for b, _ in ()}:
                    pass
                okk = bool(left) and self.assume(s2, v, bool(left.pop()))
            else:
                okk = self.narrow(s2, v, other, ty)
            if okk:
                s2.frames[-1].blk = ot
                outs.append((s2, "else"))
        loc = fr.body.local
        for s2, val in outs:
            if loc:
                s2.trace = (st.trace, (short_fn(fr.body), fr.line, v, val))
        self.work.extend(s for s, _ in reversed(outs))
        return False

    def goto_ret(self, st, dest, ret, val):
        """delivers a call result in the (now top) frame"""
        if ret is None:
            return False
        fr = st.frames[-1]
        if val is not None and val.d > self.max_depth_term:
            val = mk("deep", val.k)
        if not dest[1]:
            fr.locals[dest[0]] = val
        else:
            root, path, _ = self.place_loc(st, dest)
            self.store(st, root, path, val)
        fr.blk = ret
        return True

    def do_return(self, st):
        fr = st.frames[-1]
        val = fr.locals[0]
        if val is None:
            val = UNIT
        r = self.client.returned(self, st, fr.body, val)
        if r is not None:
            if r is False:
                return False
            val = r
        if len(st.frames) == 1:
            self.out.append((st, val))
            return False
        st.frames.pop()
        if fr.cont is not None:
            st.pend = (fr.dest, fr.ret)
            return self.resume(st, fr.cont, val)
        return self.goto_ret(st, fr.dest, fr.ret, val)

    def resume(self, st, cont, val):
        """continues a library model after a callback; st.pend = (dest, ret)"""
        res = getattr(self.models, "k_" + cont[0])(self, st, cont, val)
        return self.deliver(st, res)

    def deliver(self, st, res):
        """res: list of (state, value) | state-with-pushed-frame marker"""
        live = []
        for x in res:
            if x is None:
                continue
            s2, v = x
            if v is PUSHED:
                live.append(s2)
            else:
                dest, ret = s2.pend
                s2.pend = None
                if self.goto_ret(s2, dest, ret, v):
                    live.append(s2)
        if len(live) == 1 and live[0] is st:
            return True
        self.work.extend(reversed(live))
        return False

    def do_call(self, st, t):
        fr = st.frames[-1]
        f = self.operand(st, t[1])
        args = [self.operand(st, o) for o in t[2]]
        st.pend = (t[3], t[4])
        res = self.call(st, f, args, t)
        if res is None:
            return False
        return self.deliver(st, res)

    def call(self, st, f, args, site):
        """-> list of (state, value|PUSHED)"""
        callee = self.fnnodes.get(f)
        if callee is None:
            f2 = self.deref(st, f)
            return self.call_value(st, f2, args, None)
        r = self.client.call(self, st, callee, args, site)
        if r is not None:
            return r
        r = self.models.dispatch(self, st, callee, args, site)
        if r is not None:
            return r
        b = self.prog.bodies.get(callee.get("key"))
        if b is not None and callee["ik"] in ("item", "ClosureOnce") and not (callee.get("trait") and False):
            return self.enter(st, b, args, callee)
        if callee["ik"] == "ClosureOnce":
            return self.call_value(st, args[0], self.models.untuple(args[1]), None)
        return self.opaque(st, callee, args, site)

    def is_panic(self, callee):
        p = callee.get("rpath", callee["path"])
        return p.startswith(("core::panicking", "std::rt::begin_panic", "std::rt::panic")) or p in (
            "std::option::expect_failed", "std::option::unwrap_failed", "core::option::expect_failed",
            "core::option::unwrap_failed") or "unwrap_failed" in p or "expect_failed" in p

    def enter(self, st, b, args, callee=None, cont=None, pend=None):
        if len(st.frames) > self.callstack_limit:
            raise Unsupported("call depth at %s: %s" % (st.where(), st.stack()[-6:]))
        depth = sum(1 for fr in st.frames if fr.body is b)
        if depth >= 1:
            r = self.recursion(st, b, args, depth)
            if r is not None:
                return r
        b.prep()
        self.functions.add(b.key)
        kind = b.raw.get("kind")
        if kind == "Closure" and len(args) == 2 and args[1].k == "A" and args[1].a[0] == "tuple" and not (
                cont is not None and cont[0] == "_direct"):
            args = [args[0]] + list(args[1].a[2])
        locs = [None] * len(b.locals)
        for i, a in enumerate(args):
            if i + 1 < len(locs):
                locs[i + 1] = a
        if b.raw.get("spread") is not None and kind != "Closure":
            sp = b.raw["spread"]
            if sp and sp < len(locs) and len(args) >= sp and not (locs[sp].k == "A" and locs[sp].a[0] == "tuple"):
                locs[sp] = A("tuple", 0, args[sp - 1:])
        # a by-value `self` closure expected by reference
        dest, ret = st.pend
        st.pend = None
        st.frames.append(Frame(b, locs, dest, ret, cont))
        return [(st, PUSHED)]

    def recursion(self, st, b, args, depth):
        if depth > 6:
            raise Unsupported("recursion of %s" % b.key)
        return None

    def call_value(self, st, f, args, cont):
        """calls a closure / fn value with an untupled argument list"""
        f2 = self.deref(st, f)
        if f2.k == "A" and f2.a[0].startswith("closure:"):
            b = self.prog.bodies.get(f2.a[0][8:])
            if b is not None:
                self_arg = f
                s0 = b.crate.types[b.locals[1]]
                if s0["k"] == "ref" and s0.get("mut") and f.k != "R":
                    cell = ("H", "clos%d" % len(st.frames))
                    st.heap[cell] = f2
                    self_arg = mk("R", cell, (), "closure")
                elif s0["k"] != "ref":
                    self_arg = f2
                b.prep()
                self.functions.add(b.key)
                if len(st.frames) > self.callstack_limit:
                    raise Unsupported("call depth")
                locs = [None] * len(b.locals)
                locs[1] = self_arg
                for i, a in enumerate(args):
                    if i + 2 < len(locs):
                        locs[i + 2] = a
                dest, ret = st.pend
                st.pend = None
                st.frames.append(Frame(b, locs, dest, ret, cont))
                return [(st, PUSHED)]
        if f2.k == "fn":
            callee = self.fnnodes[f2]
            r = self.client.call(self, st, callee, args, None)
            if r is None:
                r = self.models.dispatch(self, st, callee, args, None)
            if r is None:
                b = self.prog.bodies.get(callee.get("key"))
                if b is not None and callee["ik"] == "item":
                    return self.enter(st, b, args, callee, cont)
                if callee.get("ctor"):
                    r = [(st, self.ctor(callee, args))]
                else:
                    r = self.opaque(st, callee, args)
            if cont is None:
                return r
            out = []
            for s2, v in r:
                if v is PUSHED:
                    raise Unsupported("callback into model with continuation")
                out += getattr(self.models, "k_" + cont[0])(self, s2, cont, v)
            return out
        v = mk("call", "apply", tuple([f2] + [self.deref(st, a) for a in args]))
        if cont is None:
            return [(st, v)]
        return getattr(self.models, "k_" + cont[0])(self, st, cont, v)

    def ctor(self, callee, args):
        c = callee["ctor"]
        return A(c[0], c[1], args)

    def opaque(self, st, callee, args, site=None):
        name = callee.get("key") or callee.get("rpath") or callee["path"]
        if self.is_panic(callee):
            self.client.panic(self, st, name)
            return []
        nm = callee.get("rpath") or callee["path"]
        self.opaque_seen[nm] = self.opaque_seen.get(nm, 0) + 1
        vals = tuple(self.deref(st, a) for a in args)
        v = mk("call", nm, vals)
        tys = [self.op_ty(st.frames[-1], o) for o in site[2]] if site is not None and len(site[2]) == len(args) else []
        for i, a in enumerate(args):
            if a.k == "R":
                if tys and tys[i].startswith("&") and not re.match(r"&('\w+ )?mut ", tys[i]):
                    continue        # a shared reference: the callee cannot change what it points to
                old = self.load(st, a.a[0], a.a[1])
                self.store(st, a.a[0], a.a[1], mk("havoc", nm, i))
        return [(st, v)]


def norm_const(v):
    """constant Vec::new() / String::new() bodies in the abstract form"""
    if v.k == "A":
        if v.a[0] in ("std::vec::Vec", "alloc::vec::Vec"):
            return A("vec", 0, ())
        if v.a[0] in ("std::string::String", "alloc::string::String"):
            return S("")
        return A(v.a[0], v.a[1], [norm_const(x) for x in v.a[2]])
    return v


PUSHED = object()
BOOLK = {"eq", "lt", "not", "and", "or", "xor", "streq", "ovf", "pred", "inset"}


def fact_live(t, live):
    if t.k in BOOLK or t.k in ("discr", "len", "call"):
        ss = [x for x in _direct(t)]
        return bool(ss) and all(x in live or x.k in ("i", "s") or fact_live(x, live) for x in ss)
    return False


def _direct(t):
    out = []

    def go(x):
        if type(x) is N:
            out.append(x)
        elif type(x) in (tuple, frozenset):
            for y in x:
                go(y)

    for x in t.a:
        go(x)
    return [x for x in out if x.k not in ("i", "s", "y", "fl")]


def _flat(x):
    if type(x) is N:
        yield x
    elif type(x) in (tuple, list, frozenset):
        for y in x:
            yield from _flat(y)
