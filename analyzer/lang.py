"""Regular languages over a small alphabet: complete DFAs with intersection, complement, concatenation, iteration and the lifting of a
language of elements to a language of the strings they are split from."""


class L:
    """a complete DFA: table[state][symbol], accepting set; state 0 is the start"""
    __slots__ = ("n", "t", "acc")

    def __init__(self, n, t, acc):
        self.n, self.t, self.acc = n, t, frozenset(acc)


class Alphabet:
    def __init__(self, chars):
        # every character named by a pattern, and one that stands for all others
        self.cs = sorted(set(chars)) + [None]
        self.k = len(self.cs)

    def ix(self, c):
        return self.cs.index(c) if c in self.cs else self.k - 1

    def det(self, start, step, acc, limit=20000):
        """a DFA from a transition function on hashable states"""
        ids, tab, work = {start: 0}, [], [start]
        accs = set()
        i = 0
        while i < len(work):
            s = work[i]
            if acc(s):
                accs.add(i)
            row = []
            for c in range(self.k):
                d = step(s, c)
                if d not in ids:
                    if len(ids) > limit:
                        raise OverflowError
                    ids[d] = len(work)
                    work.append(d)
                row.append(ids[d])
            tab.append(row)
            i += 1
        return self.minimise(L(len(work), tab, accs))

    def minimise(self, a):
        part = [int(i in a.acc) for i in range(a.n)]
        while True:
            sig = {}
            new = []
            for i in range(a.n):
                key = (part[i],) + tuple(part[d] for d in a.t[i])
                new.append(sig.setdefault(key, len(sig)))
            if len(sig) == len(set(part)):
                break
            part = new
        order, tab, acc = {part[0]: 0}, [], set()
        rep = {}
        for i in range(a.n):
            rep.setdefault(part[i], i)
        work = [part[0]]
        i = 0
        while i < len(work):
            p = work[i]
            r = rep[p]
            if r in a.acc:
                acc.add(i)
            row = []
            for d in a.t[r]:
                q = part[d]
                if q not in order:
                    order[q] = len(work)
                    work.append(q)
                row.append(order[q])
            tab.append(row)
            i += 1
        return L(len(work), tab, acc)

    # ---- constructors
    def all(self):
        return L(1, [[0] * self.k], {0})

    def none(self):
        return L(1, [[0] * self.k], ())

    def word(self, w):
        idx = [self.ix(c) for c in w]
        return self.det(0, lambda s, c: s + 1 if 0 <= s < len(idx) and idx[s] == c else -1, lambda s: s == len(idx))

    def starts(self, w):
        return self.cat(self.word(w), self.all())

    def ends(self, w):
        return self.cat(self.all(), self.word(w))

    def contains(self, w):
        return self.cat(self.all(), self.cat(self.word(w), self.all()))

    def chars(self, f):
        """the strings all of whose characters satisfy f"""
        ok = [f(c) for c in self.cs]
        return self.det(0, lambda s, c: s if s == 0 and ok[c] else 1, lambda s: s == 0)

    def length(self, rs):
        hi = max([a for a, b in rs] + [b for a, b in rs if b < 1000] + [0]) + 1
        if hi > 600:
            raise OverflowError
        return self.det(0, lambda s, c: min(s + 1, hi), lambda s: any(a <= s <= b or s == hi and b >= hi for a, b in rs))

    # ---- operations
    def op(self, a, b, f):
        return self.det((0, 0), lambda s, c: (a.t[s[0]][c], b.t[s[1]][c]), lambda s: f(s[0] in a.acc, s[1] in b.acc))

    def and_(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.op(r, x, lambda p, q: p and q)
        return r

    def or_(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.op(r, x, lambda p, q: p or q)
        return r

    def minus(self, a, b):
        return self.op(a, b, lambda p, q: p and not q)

    def not_(self, a):
        return L(a.n, a.t, frozenset(range(a.n)) - a.acc)

    def cat(self, a, b):
        def close(p, qs):
            return (p, qs | {0} if p in a.acc else qs)
        return self.det(close(0, frozenset()), lambda s, c: close(a.t[s[0]][c], frozenset(b.t[q][c] for q in s[1])),
                        lambda s: bool(s[1] & b.acc))

    def star(self, a):
        """zero or more of a"""
        def step(s, c):
            qs = frozenset(a.t[q][c] for q in s[1])
            return (False, qs | {0} if qs & a.acc else qs)
        return self.det((True, frozenset([0])), step, lambda s: s[0] or bool(s[1] & a.acc))

    def rev(self, a):
        prev = [[set() for _ in range(self.k)] for _ in range(a.n)]
        for i in range(a.n):
            for c in range(self.k):
                prev[a.t[i][c]][c].add(i)
        return self.det(frozenset(a.acc), lambda s, c: frozenset(x for q in s for x in prev[q][c]), lambda s: 0 in s)

    def empty(self, a):
        return not a.acc

    def example(self, a):
        """a shortest word, or None"""
        seen, work = {0: ""}, [0]
        for q in work:
            if q in a.acc:
                return seen[q]
            for c in range(self.k):
                d = a.t[q][c]
                if d not in seen:
                    seen[d] = seen[q] + (self.cs[c] or "x")
                    work.append(d)
        return None

    # ---- strings from their parts
    def free(self, c):
        """no c"""
        return self.chars(lambda x: x != c)

    def split_all(self, E, c):
        """every part between c is in E"""
        e = self.and_(E, self.free(c))
        return self.cat(e, self.star(self.cat(self.word(c), e)))

    def split_seq(self, heads, rest, c):
        """the first parts are in heads[i] (as far as there are that many), the others in rest"""
        r = self.split_all(rest, c)
        for h in reversed(heads):
            e = self.and_(h, self.free(c))
            r = self.or_(e, self.cat(e, self.cat(self.word(c), r)))
        return r

    def splitn_seq(self, heads, last, c):
        """the parts of splitn: the last one takes the rest of the string"""
        r = last
        for h in reversed(heads):
            e = self.and_(h, self.free(c))
            r = self.or_(e, self.cat(e, self.cat(self.word(c), r)))
        return r
