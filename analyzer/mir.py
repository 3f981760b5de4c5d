"""Program model: loads MIR dumps, simplifies control flow (drop scaffolding), computes joins and liveness."""
import json, os, re


class Body:
    __slots__ = ("key", "crate", "raw", "args", "blocks", "locals", "names", "path", "local", "poly", "span", "_live",
                 "_join", "_prep", "flags", "prog", "_loops", "_counters")

    def __init__(self, prog, crate, key, raw):
        self.prog, self.crate, self.key, self.raw = prog, crate, key, raw
        self.args = raw["args"]
        self.path = raw["path"]
        self.local = raw["local"]
        self.poly = raw.get("poly")
        self.span = raw.get("span")
        self.locals = [l[0] for l in raw["locals"]]
        self.names = [l[1] for l in raw["locals"]]
        self._prep = False
        self.blocks = None
        self._live = None
        self._join = None
        self._loops = None

    # ---- preparation -------------------------------------------------------------------------
    def prep(self):
        if self._prep:
            return self
        self._prep = True
        T = self.crate.types
        bl = self.raw["blocks"]
        blocks = []
        for b in bl:
            if b is None:
                blocks.append(None)
                continue
            stmts = [s for s in b[0] if s[0] not in ("dead", "intr")]
            blocks.append([stmts, b[1]])
        # candidate drop flags: unnamed bool locals only assigned constants
        n = len(self.locals)
        cand = {i for i in range(self.args + 1, n) if self.names[i] is None and T[self.locals[i]]["k"] == "bool"}
        used_other = set()

        def opl(o):
            return [o[1]] if o[0] in "cm" else []

        def rv_places(r):
            k = r[0]
            if k == "use":
                return opl(r[1])
            if k == "repeat":
                return opl(r[1])
            if k in ("ref", "discr", "addr"):
                return [r[1]]
            if k == "cast":
                return opl(r[2])
            if k == "bin":
                return opl(r[2]) + opl(r[3])
            if k == "un":
                return opl(r[2])
            if k == "agg":
                return [p for o in r[2] for p in opl(o)]
            return []

        self_rv = rv_places
        switches = {}
        discr_temps = {}
        uses = [0] * n
        for bi, b in enumerate(blocks):
            if b is None:
                continue
            for s in b[0]:
                if s[0] == "=":
                    l, pr = s[1]
                    if l in cand and not (not pr and s[2][0] == "use" and s[2][1][0] == "k" and "int" in s[2][1][1]):
                        cand.discard(l)
                    for p in rv_places(s[2]):
                        cand.discard(p[0])
                        uses[p[0]] += 1
                        for x in p[1]:
                            if isinstance(x, list) and x[0] == "i":
                                uses[x[1]] += 1
                                cand.discard(x[1])
            t = b[1]
            if t[0] == "switch":
                for p in opl(t[1]):
                    switches.setdefault(p[0], []).append(bi)
                    uses[p[0]] += 1
            elif t[0] == "call":
                for o in [t[1]] + t[2]:
                    for p in opl(o):
                        cand.discard(p[0])
                        uses[p[0]] += 1
                cand.discard(t[3][0])
            elif t[0] == "assert":
                for o in [t[1]] + t[4]:
                    for p in opl(o):
                        cand.discard(p[0])
                        uses[p[0]] += 1
        flags = set(cand)
        while True:
            res = self._resolve_all(blocks, flags, uses)
            bad = set()
            for f in flags:
                for bi in switches.get(f, ()):
                    t = blocks[bi][1]
                    tg = {res[x[1]] for x in t[2]} | ({res[t[3]]} if t[3] is not None else set())
                    tg = {x for x in tg if not self._dead_block(blocks, x)}
                    if len(tg) > 1:
                        bad.add(f)
            if not bad:
                break
            flags -= bad
        self.flags = flags
        out = []
        for bi, b in enumerate(blocks):
            if b is None:
                out.append(None)
                continue
            st = [s for s in b[0] if not (s[0] == "=" and not s[1][1] and s[1][0] in flags)]
            t = b[1]
            if t[0] == "goto":
                t = ["goto", res[t[1]]]
            elif t[0] == "drop":
                t = ["goto", res[t[2]]]
            elif t[0] == "switch":
                tg = [[v, res[x]] for v, x in t[2]]
                ot = res[t[3]] if t[3] is not None else None
                live = {x for _, x in tg if not self._dead_block(blocks, x)}
                if ot is not None and not self._dead_block(blocks, ot):
                    live.add(ot)
                if len(live) == 1 and (t[1][0] in "cm" and (t[1][1][0] in flags or uses[t[1][1][0]] <= 1)) and \
                        all(not self._dead_block(blocks, x) for _, x in tg) and (ot is None or not self._dead_block(blocks, ot)):
                    t = ["goto", next(iter(live))]
                else:
                    t = ["switch", t[1], tg, ot, t[4] if len(t) > 4 else None]
            elif t[0] == "call":
                t = list(t)
                if t[4] is not None:
                    t[4] = res[t[4]]
            elif t[0] == "assert":
                t = list(t)
                t[5] = res[t[5]]
                if t[3].startswith("other:"):
                    t = ["goto", t[5]]
            out.append([st, t])
        self.blocks = out
        # a discriminant temp whose only use was a removed switch
        return self

    @staticmethod
    def _dead_block(blocks, b):
        x = blocks[b]
        return x is None or (x[1][0] == "unreachable" and not x[0])

    def _resolve_all(self, blocks, flags, uses):
        memo = {}

        def pure(b):
            blk = blocks[b]
            if blk is None:
                return False
            t = blk[1]
            for s in blk[0]:
                if s[0] != "=":
                    return False
                l, pr = s[1]
                if pr:
                    return False
                if l in flags:
                    continue
                if s[2][0] == "discr" and t[0] == "switch" and t[1][0] in "cm" and t[1][1][0] == l and uses[l] == 1:
                    continue
                return False
            if t[0] == "goto" or t[0] == "drop":
                return True
            if t[0] == "switch":
                return t[1][0] in "cm" and (t[1][1][0] in flags or any(
                    s[2][0] == "discr" and s[1][0] == t[1][1][0] for s in blk[0]))
            return False

        def resolve(b, stack):
            if b in memo:
                return memo[b]
            if b in stack or not pure(b):
                return b
            st = stack | {b}
            t = blocks[b][1]
            if t[0] == "goto":
                r = resolve(t[1], st)
            elif t[0] == "drop":
                r = resolve(t[2], st)
            else:
                tg = {resolve(x[1], st) for x in t[2]}
                if t[3] is not None:
                    tg.add(resolve(t[3], st))
                tg = {x for x in tg if not self._dead_block(blocks, x)}
                r = next(iter(tg)) if len(tg) == 1 else b
            if not stack:
                memo[b] = r
            return r

        res = {}
        for b in range(len(blocks)):
            if blocks[b] is not None:
                res[b] = resolve(b, frozenset())
            else:
                res[b] = b
        return res

    # ---- graph ---------------------------------------------------------------------------------
    def succs(self, b):
        t = self.blocks[b][1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = [x[1] for x in t[2]]
            if t[3] is not None:
                r.append(t[3])
            return r
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        return []

    @property
    def joins(self):
        if self._join is None:
            self.prep()
            cnt = {0: 1}
            seen = {0}
            todo = [0]
            while todo:
                b = todo.pop()
                for s in set(self.succs(b)):
                    if self.blocks[s] is None:
                        continue
                    cnt[s] = cnt.get(s, 0) + 1
                    if s not in seen:
                        seen.add(s)
                        todo.append(s)
            self._join = {b for b, c in cnt.items() if c > 1}
        return self._join

    def reachable(self):
        self.prep()
        seen = {0}
        todo = [0]
        while todo:
            b = todo.pop()
            for s in self.succs(b):
                if self.blocks[s] is not None and s not in seen:
                    seen.add(s)
                    todo.append(s)
        return seen

    @property
    def loop_heads(self):
        """targets of back edges (DFS)"""
        if self._loops is None:
            self.prep()
            color, heads = {}, set()
            stack = [(0, iter(self.succs(0)))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if self.blocks[s] is None:
                        continue
                    c = color.get(s, 0)
                    if c == 1:
                        heads.add(s)
                    elif c == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    color[b] = 2
                    stack.pop()
            self._loops = heads
        return self._loops

    @property
    def counters(self):
        """loop head -> integer locals that are advanced by a constant inside that loop"""
        c = getattr(self, "_counters", None)
        if c is not None:
            return c
        out = {}
        self._counters = out
        if not self.loop_heads:
            return out
        T = self.crate.types
        rb = self.reachable()
        preds = {}
        for b in rb:
            for s in self.succs(b):
                preds.setdefault(s, set()).add(b)
        for h in self.loop_heads:
            # natural loop: blocks that reach h without leaving through h, and are reachable from h
            fwd, todo = {h}, [h]
            while todo:
                b = todo.pop()
                for s in self.succs(b):
                    if s in rb and s not in fwd:
                        fwd.add(s)
                        todo.append(s)
            loop, todo = {h}, [p for p in preds.get(h, ()) if p in fwd]
            while todo:
                b = todo.pop()
                if b in loop:
                    continue
                loop.add(b)
                todo += [p for p in preds.get(b, ()) if p in fwd and p not in loop]
            src, ok = {}, {}
            for b in loop:
                for s in self.blocks[b][0]:
                    if s[0] != "=" or s[1][1]:
                        continue
                    src.setdefault(s[1][0], []).append(s[2])
            cs = set()
            for l, rs in src.items():
                if T[self.locals[l]]["k"] != "int":
                    continue
                if any(self._derives(l, r, src, 0) for r in rs):
                    cs.add(l)
            if cs:
                out[h] = tuple(sorted(cs))
        return out

    def _derives(self, l, r, src, depth):
        """does rvalue r compute l +/- something (directly or through single-assignment temporaries)?"""
        if depth > 4:
            return False
        if r[0] == "bin" and r[1].startswith(("Add", "Sub", "Mul")):
            for o in (r[2], r[3]):
                if o[0] in "cm":
                    if o[1] == [l, []] or (o[1][0] == l and not o[1][1]):
                        return True
                    if any(x[0] == "use" and x[1][0] in "cm" and x[1][1][0] == l and not x[1][1][1] for x in src.get(o[1][0], ())):
                        return True
            return False
        if r[0] in ("use", "cast"):
            o = r[1] if r[0] == "use" else r[2]
            if o[0] in "cm" and o[1][0] != l:
                return any(self._derives(l, x, src, depth + 1) for x in src.get(o[1][0], ()))
        return False

    @property
    def live(self):
        """live[b] = set of locals whose value may be read before being overwritten, at the start of block b"""
        if self._live is not None:
            return self._live
        self.prep()
        gen, kill = {}, {}

        def opl(o, g, k):
            if o[0] in "cm":
                pl(o[1], g, k)

        def pl(p, g, k):
            if p[0] not in k:
                g.add(p[0])
            for x in p[1]:
                if isinstance(x, list) and x[0] == "i" and x[1] not in k:
                    g.add(x[1])

        def dest(p, g, k):
            if p[1]:
                pl(p, g, k)
            else:
                k.add(p[0])

        rb = self.reachable()
        for b in rb:
            g, k = set(), set()
            for s in self.blocks[b][0]:
                if s[0] == "=":
                    r = s[2]
                    kk = r[0]
                    if kk in ("use", "repeat"):
                        opl(r[1], g, k)
                    elif kk in ("ref", "discr", "addr"):
                        pl(r[1], g, k)
                    elif kk == "cast":
                        opl(r[2], g, k)
                    elif kk == "bin":
                        opl(r[2], g, k)
                        opl(r[3], g, k)
                    elif kk == "un":
                        opl(r[2], g, k)
                    elif kk == "agg":
                        for o in r[2]:
                            opl(o, g, k)
                    dest(s[1], g, k)
                elif s[0] == "sd":
                    pl(s[1], g, k)
            t = self.blocks[b][1]
            if t[0] == "switch":
                opl(t[1], g, k)
            elif t[0] == "call":
                for o in [t[1]] + t[2]:
                    opl(o, g, k)
                dest(t[3], g, k)
            elif t[0] == "assert":
                for o in [t[1]] + t[4]:
                    opl(o, g, k)
            elif t[0] == "return":
                if 0 not in k:
                    g.add(0)
            gen[b], kill[b] = g, k
        live = {b: set(gen[b]) for b in rb}
        ch = True
        while ch:
            ch = False
            for b in rb:
                o = set()
                for s in self.succs(b):
                    if s in live:
                        o |= live[s]
                n = gen[b] | (o - kill[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self._live = {b: tuple(sorted(s)) for b, s in live.items()}
        return self._live


class Crate:
    def __init__(self, d):
        self.name = d["crate"]
        self.types = d["types"]
        self.items = d["items"]
        self.attrs = d["attrs"]
        self.impls = d["impls"]
        self.adts = d["adts"]
        self.raw = d


class Program:
    def __init__(self, directory, crates=("protox_parse",)):
        self.dir = directory
        self.crates = {}
        self.bodies = {}
        self.adts = {}         # type string -> adt
        self.adt_path = {}     # path -> adt (variants agree up to field types)
        self.tykind = {}
        for c in crates:
            with open(os.path.join(directory, c + ".json")) as f:
                d = json.load(f)
            cr = Crate(d)
            self.crates[c] = cr
            for k, b in d["bodies"].items():
                if k not in self.bodies:
                    self.bodies[k] = Body(self, cr, k, b)
            for s, a in d["adts"].items():
                self.adts.setdefault(s, a)
                self.adt_path.setdefault(a["path"], a)
            for t in d["types"]:
                if t["s"] not in self.tykind:
                    self.tykind[t["s"]] = dict(t, crate=cr)

    def ty(self, crate, i):
        return crate.types[i]

    def local_fns(self):
        return [b for b in self.bodies.values() if b.local and not b.raw.get("derived")]

    def find(self, suffix):
        """bodies whose path ends with the given `::`-separated suffix (generic args of impls ignored)"""
        out = []
        for k, b in self.bodies.items():
            if norm_path(b.path).endswith(suffix):
                out.append(b)
        return out


_gen = re.compile(r"::<[^<>]*>|<'[a-z_]+>")


def norm_path(p):
    prev = None
    while prev != p:
        prev = p
        p = _gen.sub("", p)
    return p
