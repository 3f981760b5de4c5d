"""The recogniser that `#[derive(Logos)]` generates, read off the compiler's MIR and compared with a reference language.

A generated lexer is a set of functions that look at the bytes ahead (`read`, `read_at`, `test`), advance (`bump_unchecked`) and call
each other, until one of them calls a callback or sets the token.  They are interpreted over *sets* of bytes: a state is (function,
what is known of the bytes ahead, the reference automaton's state for the bytes passed so far); a test partitions the set of possible
bytes.  The result is the finite product of the two automata, explored to a fixpoint; every point where a token is set is compared with
the reference: same kind, and no longer match possible on what may follow.  Nothing is executed."""
import re

ALL = (1 << 256) - 1


def bset(*xs):
    m = 0
    for x in xs:
        if isinstance(x, str):
            for c in x:
                m |= 1 << ord(c)
        elif isinstance(x, tuple):
            for c in range(x[0], x[1] + 1):
                m |= 1 << c
        else:
            m |= 1 << x
    return m


def members(m):
    i = 0
    while m:
        if m & 1:
            yield i
        m >>= 1
        i += 1


def first(m, prefer=b"a0 "):
    for p in prefer:
        if m >> p & 1:
            return p
    return (m & -m).bit_length() - 1


# ---- reference languages: regular expressions as terms, compiled to a deterministic automaton ------------------------------------
class NFA:
    def __init__(self):
        self.eps, self.tr, self.n = {}, {}, 0

    def new(self):
        self.n += 1
        return self.n - 1

    def frag(self, r):
        """-> (start, end)"""
        a, b = self.new(), self.new()
        if isinstance(r, int):
            self.tr.setdefault(a, []).append((r, b))
        elif isinstance(r, str):
            cur = a
            for ch in r.encode():
                n = self.new()
                self.tr.setdefault(cur, []).append((1 << ch, n))
                cur = n
            self.eps.setdefault(cur, []).append(b)
        elif r[0] == "seq":
            cur = a
            for x in r[1:]:
                s, e = self.frag(x)
                self.eps.setdefault(cur, []).append(s)
                cur = e
            self.eps.setdefault(cur, []).append(b)
        elif r[0] == "alt":
            for x in r[1:]:
                s, e = self.frag(x)
                self.eps.setdefault(a, []).append(s)
                self.eps.setdefault(e, []).append(b)
        elif r[0] in ("star", "plus", "opt"):
            s, e = self.frag(r[1])
            self.eps.setdefault(a, []).append(s)
            self.eps.setdefault(e, []).append(b)
            if r[0] != "plus":
                self.eps.setdefault(a, []).append(b)
            if r[0] != "opt":
                self.eps.setdefault(e, []).append(s)
        return a, b

    def close(self, ss):
        todo, out = list(ss), set(ss)
        while todo:
            for y in self.eps.get(todo.pop(), ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)


def seq(*a):
    return ("seq",) + a


def alt(*a):
    return ("alt",) + a


def star(a):
    return ("star", a)


def plus(a):
    return ("plus", a)


def opt(a):
    return ("opt", a)


class DFA:
    """kinds: [(name, regular expression)]; earlier kinds win"""

    def __init__(self, kinds):
        nfa = NFA()
        s0 = nfa.new()
        self.kinds = [k for k, _ in kinds]
        fin = {}
        for i, (k, r) in enumerate(kinds):
            s, e = nfa.frag(r)
            nfa.eps.setdefault(s0, []).append(s)
            fin[e] = i
        start = nfa.close([s0])
        self.num, self.acc, self.trans = {start: 0}, [], []
        todo = [start]
        sets = [start]
        while todo:
            S = todo.pop(0)
            self.acc.append(min((fin[x] for x in S if x in fin), default=None))
            cuts = [m for x in S for m, _ in nfa.tr.get(x, ())]
            parts = [ALL]
            for c in cuts:
                parts = [p for q in parts for p in (q & c, q & ~c) if p]
            out = {}
            for p in parts:
                T = nfa.close([y for x in S for m, y in nfa.tr.get(x, ()) if m & p])
                if not T:
                    continue
                if T not in self.num:
                    self.num[T] = len(self.num)
                    todo.append(T)
                out[self.num[T]] = out.get(self.num[T], 0) | p
            self.trans.append([(m, t) for t, m in out.items()])

    def step(self, q, m):
        """[(subset of m, next state or None)]"""
        out = []
        for x, t in self.trans[q]:
            if x & m:
                out.append((x & m, t))
                m &= ~x
        if m:
            out.append((m, None))
        return out

    def kind(self, q):
        return None if q is None or self.acc[q] is None else self.kinds[self.acc[q]]

    def live(self, q):
        return q is not None and bool(self.trans[q])

    def kind_of(self, bs):
        q = 0
        for b in bs:
            q = next((t for m, t in self.trans[q] if m >> b & 1), None)
            if q is None:
                return None
        return self.kind(q)


# ---- well-formed UTF-8 --------------------------------------------------------------------------------------------------------------
CONT = bset((0x80, 0xbf))
U8 = {
    0: [(bset((0, 0x7f)), 0), (bset((0xc2, 0xdf)), 1), (bset(0xe0), 2), (bset((0xe1, 0xec), 0xee, 0xef), 3), (bset(0xed), 4),
        (bset(0xf0), 5), (bset((0xf1, 0xf3)), 6), (bset(0xf4), 7)],
    1: [(CONT, 0)],
    2: [(bset((0xa0, 0xbf)), 1)],
    3: [(CONT, 1)],
    4: [(bset((0x80, 0x9f)), 1)],
    5: [(bset((0x90, 0xbf)), 3)],
    6: [(CONT, 3)],
    7: [(bset((0x80, 0x8f)), 3)],
}


class Unsupp(Exception):
    pass


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i32": 32, "i64": 64, "isize": 64}


class St:
    """one path: window = byte sets ahead of the position; eof = number of bytes left, if known"""
    __slots__ = ("body", "blk", "locs", "win", "eof", "q", "u8", "hit", "text", "last")

    def copy(self):
        s = St()
        for a in self.__slots__:
            setattr(s, a, getattr(self, a))
        s.locs = dict(self.locs)
        return s

    def wkey(self):
        w = list(self.win)
        if self.eof is None:
            while w and w[-1] == ALL:
                w.pop()
        return tuple(w), self.eof


class Auto:
    """explores the automaton whose entry function is `entry` against the reference automaton `ref`"""

    def __init__(self, prog, entry, prefix, ref, on_token, limit=400_000):
        self.prog, self.entry, self.prefix, self.ref, self.on_token = prog, entry, prefix, ref, on_token
        self.seen, self.work, self.n, self.limit = set(), [], 0, limit
        self.functions, self.tests, self.tokens = set(), 0, 0
        self.sums, self.results = {}, None

    def run(self):
        s = St()
        s.body, s.blk, s.locs, s.win, s.eof, s.q, s.u8, s.hit, s.text, s.last = None, 0, {}, (), None, 0, 0, False, "", None
        self.start(s, self.entry)
        while self.work:
            self.n += 1
            if self.n > self.limit:
                raise Unsupp("more than %d steps" % self.limit)
            self.step(self.work.pop())

    def start(self, s, key):
        b = self.prog.bodies.get(key)
        if b is None:
            raise Unsupp("no body for %s" % key)
        b.prep()
        self.functions.add(key)
        s.body, s.blk, s.locs = b, 0, {}
        self.push(s)

    def push(self, s):
        w, e = s.wkey()
        s.win = w
        lv = s.body.live.get(s.blk, ())
        k = (s.body.key, s.blk, w, e, s.q, s.u8, s.hit, s.last, tuple(sorted((l, v) for l, v in s.locs.items() if l in lv)))
        if k in self.seen:
            return
        self.seen.add(k)
        self.work.append(s)

    # ---- what is ahead
    def limit_set(self, s, i):
        if s.eof is not None and i >= s.eof:
            return 0
        return s.win[i] if i < len(s.win) else ALL

    def with_set(self, s, i, m):
        s = s.copy()
        w = list(s.win)
        while len(w) <= i:
            w.append(ALL)
        w[i] = m
        s.win = tuple(w)
        return s

    def known_to_exist(self, s, n):
        """are there n bytes ahead?  True / False / None"""
        if s.eof is not None:
            return s.eof >= n
        return True if len(s.win) >= n else None

    def exists(self, s, n):
        s = s.copy()
        w = list(s.win)
        while len(w) < n:
            w.append(ALL)
        s.win = tuple(w)
        return s

    def bump(self, s, n):
        """-> states after passing n bytes"""
        outs = [s]
        for _ in range(n):
            nxt, dup = [], set()
            for x in outs:
                m = self.limit_set(x, 0)
                if not m and x.eof == 0:
                    raise Unsupp("advance past the end of the text in %s" % x.body.key)
                for um, u in U8[x.u8]:
                    if not um & m:
                        continue
                    for rm, q in (self.ref.step(x.q, um & m) if x.q is not None else [(um & m, None)]):
                        y = x.copy()
                        y.u8, y.q = u, q
                        y.hit = x.hit or (x.q is not None and x.u8 == 0 and self.ref.kind(x.q) is not None)
                        y.win = x.win[1:]
                        y.eof = None if x.eof is None else x.eof - 1
                        if (y.q, y.u8, y.hit) in dup:
                            continue
                        dup.add((y.q, y.u8, y.hit))
                        y.text = (x.text + chr(first(rm)))[-40:]
                        nxt.append(y)
            outs = nxt
        return outs

    # ---- values: ints, ("b", pos, table) = a function of the byte at pos, tuples
    def operand(self, s, o):
        if o[0] in "cm":
            return self.read(s, o[1])
        c = o[1]
        if "int" in c and not c.get("scalar_adt"):
            return int(c["int"])
        if "fn" in c:
            return ("fn", c["fn"].get("key") or c["fn"].get("rpath") or c["fn"]["path"])
        if "body" in c:
            return ("body", c["body"])
        if "static" in c:
            k = c["static"]
            return ("body", k if k in self.prog.bodies and not "const " + k in self.prog.bodies else "const " + k)
        if "scalar_adt" in c:
            return ("enum", int(c["int"]))
        if c.get("zst"):
            t = s.body.crate.types[c["ty"]]
            if t["k"] == "fndef" and "callee" in t:
                return ("fn", t["callee"].get("key") or t["callee"]["path"])
            return ("unit",)
        return ("?", str(c)[:60])

    def table(self, key):
        """the elements of a constant array: ints or enum discriminants"""
        import ai
        v = ai.Eng(self.prog, ai.Client(), max_steps=20000).const_body(key)
        if v.k == "y":
            return list(v.a[0])
        if v.k == "A" and v.a[0] in ("array", "vec"):
            out = []
            for x in v.a[2]:
                if x.k == "i":
                    out.append(x.a[0])
                elif x.k == "A" and not x.a[2]:
                    out.append(("enum", x.a[1]))
                else:
                    raise Unsupp("element of %s" % key)
            return out
        raise Unsupp("constant %s" % key)

    def read(self, s, p):
        v = s.locs.get(p[0])
        for x in p[1]:
            if v is None:
                raise Unsupp("uninitialised value in %s" % s.body.key)
            if x == "*":
                continue
            if x[0] == "d":
                continue
            if x[0] == "f":
                if type(v) is tuple and v[0] == "some":
                    v = v[1]
                elif type(v) is tuple and v[0] == "b":
                    i = x[1]
                    v = ("b", v[1], tuple(y[1] if type(y) is tuple and y[0] == "some" else y[1][i] if type(y) is tuple and y[0] == "tup"
                                          else None for y in v[2]))
                elif type(v) is tuple and v[0] == "tup":
                    v = v[1][x[1]]
                elif v == ("lex",):
                    return ("?", "lexer field")
                else:
                    raise Unsupp("field of %s" % (v,))
            elif x[0] in "ic":
                ix = s.locs.get(x[1]) if x[0] == "i" else x[1]
                if type(v) is tuple and v[0] == "chunk":
                    if type(ix) is not int:
                        raise Unsupp("computed index into the text")
                    v = ("b", v[1] + ix, tuple(range(256)))
                elif type(v) is tuple and v[0] == "body":
                    t = self.table(v[1])
                    if type(ix) is int:
                        v = t[ix]
                    elif ix[0] == "b":
                        v = ("b", ix[1], tuple(t[y] if type(y) is int and y < len(t) else None for y in ix[2]))
                    else:
                        raise Unsupp("index into a table")
                else:
                    raise Unsupp("index of %s" % (v,))
        return v

    def lift(self, f, *vs):
        """pointwise on functions of one byte"""
        pos = {v[1] for v in vs if type(v) is tuple and v[0] == "b"}
        if len(pos) > 1:
            raise Unsupp("a condition on two bytes")
        if not pos:
            return f(*vs)
        p = pos.pop()
        cols = [v[2] if type(v) is tuple and v[0] == "b" else [v] * 256 for v in vs]
        out = []
        for row in zip(*cols):
            if any(x is None for x in row):
                out.append(None)
            else:
                out.append(f(*row))
        return ("b", p, tuple(out))

    def rvalue(self, s, r):
        k = r[0]
        if k == "use":
            return self.operand(s, r[1])
        if k == "ref":
            if not r[1][1] or r[1][1] == ["*"]:
                v = s.locs.get(r[1][0])
                if v is None and r[1][0] == 1:
                    return ("lex",)
                return v
            return self.read(s, r[1])
        if k == "discr":
            v = self.read(s, r[1])

            def d(x):
                if type(x) is tuple and x[0] == "enum":
                    return x[1]
                if type(x) is tuple and x[0] == "some":
                    return 1
                if x == ("none",):
                    return 0
                if type(x) is int:
                    return x
                raise Unsupp("discriminant of %s" % (x,))

            return self.lift(d, v)
        if k == "cast":
            v = self.operand(s, r[2])
            bits = BITS.get(s.body.crate.types[r[3]]["s"])
            if type(v) is int or type(v) is tuple and v[0] == "b":
                return self.lift(lambda x: x if bits is None else x % (1 << bits), v)
            return v
        if k == "bin":
            f = {"Le": lambda a, b: int(a <= b), "Lt": lambda a, b: int(a < b), "Ge": lambda a, b: int(a >= b), "Gt": lambda a, b: int(a > b),
                 "Eq": lambda a, b: int(a == b), "Ne": lambda a, b: int(a != b), "BitAnd": lambda a, b: a & b,
                 "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b, "Shr": lambda a, b: a >> b,
                 "Shl": lambda a, b: (a << b) % (1 << 64), "Sub": lambda a, b: a - b, "Add": lambda a, b: a + b}.get(r[1])
            if f is None:
                raise Unsupp("operator %s" % r[1])
            return self.lift(f, self.operand(s, r[2]), self.operand(s, r[3]))
        if k == "un" and r[1] == "Not":
            return self.lift(lambda x: 1 - x, self.operand(s, r[2]))
        if k == "agg":
            kind = r[1]
            vs = [self.operand(s, o) for o in r[2]]
            if kind[0] == "adt":
                t = s.body.crate.types[kind[1]]
                return ("agg", t["path"], kind[2], tuple(vs))
            return ("tup", tuple(vs))
        raise Unsupp("%s in %s" % (k, s.body.key))

    # ---- steps
    def step(self, s):
        b = s.body
        blk = b.blocks[s.blk]
        if blk is None:
            return
        for x in blk[0]:
            if x[0] == "=":
                if x[1][1]:
                    raise Unsupp("store in %s" % b.key)
                s.locs[x[1][0]] = self.rvalue(s, x[2])
        t = blk[1]
        k = t[0]
        if k == "goto":
            s.blk = t[1]
            self.push(s)
        elif k == "switch":
            self.switch(s, t)
        elif k == "return":
            v = s.locs.get(0, ("unit",))
            if self.results is not None:
                self.results.append((self.limit_set(s, 0), v))
            else:
                self.on_token(self, s, s.last)
        elif k == "call":
            self.call(s, t)
        elif k == "assert":
            c = self.operand(s, t[1])
            want = t[2] if isinstance(t[2], bool) else str(t[2]).lower() == "true"
            bad = [y for y in (c[2] if type(c) is tuple and c[0] == "b" else [c]) if y is not None and bool(y) != want]
            if bad:
                raise Unsupp("check in %s" % b.key)
            s.blk = t[5]
            self.push(s)
        elif k in ("unreachable", "drop"):
            if k == "drop":
                s.blk = t[2]
                self.push(s)
        else:
            raise Unsupp("terminator %s in %s" % (k, b.key))

    def switch(self, s, t):
        v = self.operand(s, t[1])
        if type(v) is int:
            s.blk = next((b for val, b in t[2] if int(val) == v), t[3])
            if s.blk is not None:
                self.push(s)
            return
        if not (type(v) is tuple and v[0] == "b"):
            raise Unsupp("branch on %s in %s" % (v, s.body.key))
        self.tests += 1
        tgt = {int(val): b for val, b in t[2]}
        groups = {}
        cur = self.limit_set(s, v[1])
        for byte in members(cur):
            x = v[2][byte]
            if x is None:
                continue
            groups.setdefault(tgt.get(x, t[3]), [0])[0] |= 1 << byte
        for b, (m,) in groups.items():
            if b is None:
                continue
            y = self.with_set(s, v[1], m)
            y.blk = b
            self.push(y)

    def call(self, s, t):
        f = self.operand(s, t[1])
        args = [self.operand(s, o) for o in t[2]]
        dest, ret = t[3], t[4]
        if not (type(f) is tuple and f[0] == "fn"):
            raise Unsupp("indirect call in %s" % s.body.key)
        key = f[1]
        callee = t[1][1].get("fn") or {}
        nm = callee.get("method") or re.sub(r"::<.*", "", key).split("::")[-1]
        targs = callee.get("targs", [])

        def cont(s, v):
            if ret is None:
                return
            if dest[1]:
                raise Unsupp("store of a result in %s" % s.body.key)
            s.locs[dest[0]] = v
            s.blk = ret
            self.push(s)

        if "LexerInternal" in key:
            if nm in ("read", "read_at", "test"):
                off = args[1] if nm == "read_at" else 0
                m = re.match(r"&\[u8; (\d+)\]", targs[1])
                n = int(m.group(1)) if m else 1
                if targs[1] != "u8" and not m or type(off) is not int:
                    raise Unsupp("read of %s" % targs[1])
                k = self.known_to_exist(s, off + n)
                if k is not False:
                    y = self.exists(s, off + n)
                    val = ("chunk", off) if m else ("b", off, tuple(range(256)))
                    if nm == "test":
                        if m:
                            raise Unsupp("test of several bytes")
                        cont(y, ("b", off, self.summary(args[1][1])))
                    else:
                        cont(y, ("some", val))
                if k is not True:
                    if nm == "test":
                        no = 0
                    else:
                        no = ("none",)
                    if s.eof is not None or n > 9:
                        cont(s.copy(), no)
                    else:
                        for e in range(len(s.win), off + n):
                            y = s.copy()
                            y.eof = e
                            cont(y, no)
                return
            if nm == "bump_unchecked":
                for y in self.bump(s, args[1]):
                    cont(y, ("unit",))
                return
            if nm == "trivia":
                s.last = ("skip",)
                self.on_token(self, s, s.last)
                return
            if nm == "error":
                s.last = ("error",)
                cont(s, ("unit",))
                return
            if nm == "end":
                s.last = ("end",)
                cont(s, ("unit",))
                return
            if nm == "set":
                s.last = ("set", args[1])
                cont(s, ("unit",))
                return
            raise Unsupp("lexer operation %s" % nm)
        if "CallbackResult" in key:
            s.last = ("make", args[0], args[1], key)
            cont(s, ("unit",))
            return
        if "wrapping_sub" in key:
            bits = BITS.get(re.search(r"impl (\w+)>", key).group(1), 64)
            cont(s, self.lift(lambda a, b: (a - b) % (1 << bits), *args))
            return
        if "checked_shl" in key:
            bits = BITS.get(re.search(r"impl (\w+)>", key).group(1), 64)
            cont(s, self.lift(lambda a, b: ("none",) if b >= bits else ("some", (a << b) % (1 << bits)), *args))
            return
        if key.startswith(self.prefix) and key in self.prog.bodies:
            body = self.prog.bodies[key]
            ty0 = body.crate.types[body.locals[0]]["s"]
            if ty0 == "()":
                # the automaton's functions call each other last
                self.tail(s, ret)
                s.locs = {1: ("lex",)}
                s.body, s.blk = body, 0
                body.prep()
                self.functions.add(key)
                self.push(s)
                return
            if ty0 == "bool" and len(args) == 1 and args[0] != ("lex",):
                t = self.summary(key)
                cont(s, self.lift(lambda x: t[x], args[0]))
                return
        if args and args[0] == ("lex",):
            if key.startswith("logos::Lexer") and key.endswith("slice"):
                cont(s, ("slice",))
            else:
                cont(s, ("cb", key, tuple(args[1:])))
            return
        raise Unsupp("call of %s in %s" % (key, s.body.key))

    def tail(self, s, ret):
        """nothing happens after the call"""
        b, seen = s.body, set()
        while ret is not None and ret not in seen:
            seen.add(ret)
            bl = b.blocks[ret]
            if bl is None or any(x[0] == "=" and x[2][0] != "use" for x in bl[0]):
                raise Unsupp("code after a transition in %s" % b.key)
            if bl[1][0] == "return":
                return
            if bl[1][0] != "goto":
                raise Unsupp("code after a transition in %s" % b.key)
            ret = bl[1][1]

    def summary(self, key):
        """a predicate on one byte, as a table"""
        if key not in self.sums:
            b = self.prog.bodies.get(key)
            if b is None:
                raise Unsupp("no body for %s" % key)
            sub = Auto(self.prog, key, self.prefix, self.ref, None)
            sub.results = []
            b.prep()
            s = St()
            s.body, s.blk, s.locs, s.win, s.eof, s.q, s.u8, s.hit, s.text, s.last = b, 0, {1: ("b", 0, tuple(range(256)))}, (ALL,), None, 0, 0, False, "", None
            sub.push(s)
            while sub.work:
                sub.step(sub.work.pop())
            t = [None] * 256
            for m, v in sub.results:
                for x in members(m):
                    t[x] = v[2][x] if type(v) is tuple and v[0] == "b" else v
            self.functions.add(key)
            self.sums[key] = tuple(t)
        return self.sums[key]


def feasible(s, auto):
    """can what is known to follow be well-formed text?"""
    cur = {s.u8}
    for i in range(len(s.win) if s.eof is None else s.eof):
        m = auto.limit_set(s, i)
        cur = {u for c in cur for um, u in U8[c] if um & m}
        if not cur:
            return False
    return s.eof is None or 0 in cur


def longer(ref, s, auto, limit=4000):
    """a continuation of the text, compatible with what is known to follow, on which the reference matches more"""
    todo, seen = [(s.q, s.u8, 0, "")], set()
    known = max(len(s.win), s.eof or 0)
    while todo:
        q, u8, i, txt = todo.pop(0)
        if q is None or (q, u8, i) in seen:
            continue
        seen.add((q, u8, i))
        if i and u8 == 0 and ref.kind(q) is not None:
            return txt, ref.kind(q)
        if s.eof is not None and i >= s.eof:
            continue
        m = auto.limit_set(s, i)
        for um, u in U8[u8]:
            if um & m:
                for rm, t in ref.step(q, um & m):
                    if t is not None:
                        todo.append((t, u, i + 1 if i <= known else i, txt + chr(first(rm))))
        if len(seen) > limit:
            break
    return None
