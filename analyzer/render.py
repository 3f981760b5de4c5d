"""What the Display implementations write: tokens of an aggregate value, names, numbers and strings that end up as text in the
descriptor.  Each implementation is followed with its formatter replaced by a recorder; what it writes must read back as the value.

A string is followed byte by byte: for every path through the loop body the set of bytes that takes it is known, and the text it
writes for each of them is computed from the format's definition and read back by the definition of the escapes."""
from ai import *
import models as M
from roots import RC, Report
from lexspec import PUNCT

ASTP = "protox_parse::ast::"
TOKEN = "protox_parse::lex::Token"
FMT = P("formatter")
WRITES = ("write_fmt", "write_str", "write_char", "pad", "push_str", "push", "pad_integral")
ESCD = {9: "\\t", 10: "\\n", 13: "\\r", 34: '\\"', 39: "\\'", 92: "\\\\"}
SIMPLE = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "?": 63, "\\": 92, "'": 39, '"': 34}


def escape_default(b):
    return ESCD.get(b) or (chr(b) if 32 <= b <= 126 else "\\x%02x" % b)


def c_escape(b):
    return ESCD.get(b) or (chr(b) if 32 <= b <= 126 else "\\%03o" % b)


def read_back(text, greedy_hex):
    """(bytes, may the next character change them?) of a piece of a string literal; None if it is none"""
    out, i, open_ = [], 0, False
    while i < len(text):
        c = text[i]
        open_ = False
        if c in '"\n\0':
            return None
        if c != "\\":
            out += c.encode("utf8")
            i += 1
            continue
        i += 1
        if i >= len(text):
            return None
        c = text[i]
        if c in "01234567":
            j = i
            while j < len(text) and j < i + 3 and text[j] in "01234567":
                j += 1
            v = int(text[i:j], 8)
            open_ = j - i < 3
            i = j
        elif c in "xX":
            j = i + 1
            while j < len(text) and (greedy_hex or j < i + 3) and text[j] in "0123456789abcdefABCDEF":
                j += 1
            if j == i + 1:
                return None
            v = int(text[i + 1:j], 16)
            open_ = greedy_hex or j - i < 3
            i = j
        elif c in SIMPLE:
            v = SIMPLE[c]
            i += 1
        else:
            return None
        if v > 255:
            return None
        out.append(v)
    return out, open_


def fmt_byte(kind, spec, b, ty):
    """one byte, formatted"""
    spec = dict(spec)
    fl = spec.get("flags", 0)
    if "dyn" in spec or "prec" in spec:
        return None
    d = {"display": "%d", "octal": "%o", "lower_hex": "%x", "upper_hex": "%X"}.get(kind)
    if d is None or fl >> 21 & 1:
        return None
    s = d % b
    pre = {"octal": "0o", "lower_hex": "0x", "upper_hex": "0x"}.get(kind, "") if fl >> 23 & 1 else ""
    w = spec.get("width", 0)
    if fl >> 24 & 1:
        return pre + s.rjust(w - len(pre), "0")
    fill = chr(fl & 0x1fffff) if fl & 0x1fffff else " "
    s = pre + s
    al = fl >> 29 & 3
    return s.ljust(w, fill) if al == 0 else s.center(w, fill) if al == 2 else s.rjust(w, fill)


class Text(RC):
    """records what is written to the formatter; `items`: the collection whose elements are written one by one"""

    def __init__(self, prog, items=None, own=()):
        super().__init__({})
        self.prog, self.items, self.own = prog, items, own
        self.elsewhere = False
        self.rounds = []           # (element, its range, what was written, where, other conditions on it)

    def minlen(self, eng, st, coll):
        return 1 if coll is self.items and self.items.a[0] == "parts" else 0

    def is_out(self, eng, st, x):
        return eng.deref(st, x) is FMT

    def call(self, eng, st, callee, args, site):
        nm = callee.get("method") or M.norm_path(callee["path"]).split("::")[-1]
        tr = callee.get("trait") or ""
        if len(args) == 2 and tr.startswith("std::fmt::") and nm == "fmt" and self.is_out(eng, st, args[1]):
            kind = tr.split("::")[-1]
            ty = (callee.get("targs") or ["?"])[0]
            v = eng.deref(st, args[0])
            t = M.disp(eng, st, v, ty) if kind == "Display" else mk("fmt", kind.lower(), (), v, ty)
            return self.put(eng, st, t)
        if nm in WRITES and args and self.is_out(eng, st, args[0]):
            a = eng.deref(st, args[1])
            t = a.a[0] if a.k == "fmtargs" else mk("chr", a) if nm in ("write_char", "push") and a.k != "i" else a
            if nm == "pad_integral":
                t = mk("call", nm, tuple(args))
            return self.put(eng, st, t)
        if nm in ("escape_default", "escape_ascii") and "char" not in M.norm_path(callee["path"]):
            return [(st, mk("escape", eng.deref(st, args[0])))]
        return None

    def display(self, eng, st, v, ty):
        if ty and ty.lstrip("&").startswith("protox_parse"):
            return [(st, mk("disp", v, M.short_ty(ty.lstrip("&"))))]
        return None

    def put(self, eng, st, t):
        for p in M.parts_of(t):
            if p.k == "i":
                p = S(chr(p.a[0]))
            o = st.cl.get("out", ())
            if p.k == "s" and o and o[-1].k == "s":
                o = o[:-1] + (S(o[-1].a[0] + p.a[0]),)
            else:
                o = o + (p,)
            st.cl["out"] = o
        if len(st.cl.get("out", ())) > 40:
            raise Unsupported("text without end")
        return [(st, ok(UNIT))]

    # rounds of a loop over the items
    def split(self, coll):
        """(what is left out at the front) when coll is the items or a part of them"""
        k = 0
        while coll is not self.items:
            if coll.k == "part":
                coll = coll.a[0]
            elif coll.k in ("iter", "bytes", "as_ref", "deref", "copied", "cloned", "as_slice", "as_bytes") and coll.a and type(coll.a[0]) is N:
                coll = coll.a[0]
            elif coll.k == "call" and coll.a[1] and coll.a[0].split("::")[-1] in ("iter", "as_ref", "deref", "as_slice", "as_bytes", "into_iter"):
                coll = coll.a[1][0]
            elif coll.k == "slice" and coll.a[1].k == "i" and coll.a[2] is I(0):
                k += coll.a[1].a[0]
                coll = coll.a[0]
            elif coll.k == "skip" and len(coll.a) > 1 and type(coll.a[1]) is N and coll.a[1].k == "i":
                k += coll.a[1].a[0]
                coll = coll.a[0]
            else:
                return None
        return k

    def begin(self, eng, st, coll, e):
        if any(x.k == "part" for x in subs(coll) | {coll}):
            st.cl["partial"] = True
        if not st.cl.get("cur") and "before" not in st.cl:
            st.cl["before"] = st.cl.get("out", ())
        st.cl["cur"] = e
        st.cl["out"] = ()

    def first(self, eng, st, coll):
        if self.items is None or self.split(coll) is None:
            return None
        out = []
        s2 = st.clone()
        ln = mk("len", coll)
        if eng.narrow(s2, ln, ((0, 0),)):
            self.exhausted(eng, s2, coll)
            out.append((s2, None))
        if eng.narrow(st, ln, ((1, INF),)):
            e = mk("at", self.items, I(self.split(coll)))
            self.begin(eng, st, coll, e)
            st.cl["round"] = 1
            out.append((st, e))
        return out

    def elem(self, eng, st, coll, e):
        if self.items is not None and self.split(coll) is not None:
            self.begin(eng, st, coll, e)
            st.cl["round"] = 2

    def item_done(self, eng, st, coll, e):
        if self.items is None or self.split(coll) is None:
            return
        e = st.cl.get("cur")
        if e is None:
            return
        other = tuple(f for f in st.facts if f is not e and e in subs(f) and f.k != "len")
        pos = [v for f, v in st.facts.items() if f.k == "pos" and self.split(f.a[0]) is not None and v[0] != "S"]
        if self.items.a[0] == "parts" and any((v == ((0, 0),)) != (st.cl["round"] == 1) and (v == ((0, 0),) or v[0][0] >= 1) for v in pos):
            st.cl["dead"] = True        # no first round but the first
        else:
            self.rounds.append((e, st.cl.get("round"), eng.rng(st, e, "u8"), st.cl.get("out", ()), st.where(), other))
        st.cl["cur"] = None
        st.cl["out"] = ()

    def event(self, eng, st, what, v):
        if what == "rev" and self.items is not None and self.items in subs(v):
            st.cl["partial"] = True

    def exhausted(self, eng, st, coll):
        if self.items is not None and self.split(coll) is not None:
            st.cl["exh"] = self.split(coll)

    def clkey(self, st):
        return tuple(sorted((k, v) for k, v in st.cl.items()))


class Render:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep

    def body(self, ty):
        for k, b in self.prog.bodies.items():
            if re.match(r"<%s(<'_>)? as std::fmt::Display>::fmt$" % re.escape(ty), k):
                return k
        return None

    def run(self, ty, value, items=None, props=(), role="", key=None, facts=None):
        k = key or self.body(ty)
        if k is None:
            self.rep.und.append("%s has no Display implementation" % ty)
            return None, ()
        c = Text(self.prog, items)
        eng = Eng(self.prog, c, max_steps=100_000)
        heap = {("H", "self"): value, ("H", "fmt"): FMT}
        args = [mk("R", ("H", "self"), (), ty), mk("R", ("H", "fmt"), (), "f")]
        try:
            outs = eng.run(self.prog.bodies[k], args[:self.prog.bodies[k].args], heap, dict(facts or {}), {})
        except (Budget, Unsupported) as x:
            self.rep.und.append("%s: %s" % (role, x))
            return c, ()
        for what, w in c.panics:
            self.rep(("P07",), "render:panic:%s:%s" % (role, what), "a panic can be reached while %s is written: %s" % (role, what), w)
        self.rep.stats["functions"] += len(eng.functions)
        self.rep.stats["paths"] += len(outs)
        good = []
        for st, v in outs:
            if st.cl.get("dead"):
                continue
            self.rep.ob()
            good.append((eng, st, v))
        if c.rounds and not any(x[3] for x in c.rounds) and any(
                x.k != "s" for e, st, v in good for o in ("before", "out") for x in st.cl.get(o) or ()):
            c.elsewhere = True      # what the loop makes of the bytes is written later
        return c, good

    # ---- tokens ------------------------------------------------------------------------------------------
    def tokens(self):
        a = self.prog.adt_path.get(TOKEN)
        if a is None:
            self.rep.und.append("the token type was not found")
            return
        text = {n: c for c, n in PUNCT.items()}
        props = ("P13",)
        for i, v in enumerate(a["variants"]):
            nm = v["name"]
            pay = P("payload")
            val = A(TOKEN, i, tuple(pay for _ in v["fields"]))
            items = pay if nm == "StringLiteral" else None
            role = "token %s" % nm
            if nm not in text and nm not in ("Ident", "IntLiteral", "FloatLiteral", "StringLiteral"):
                continue            # comments and line ends are no part of a value
            c, outs = self.run(TOKEN, val, items, props, role)
            for eng, st, r in outs:
                if not self.success(r, role, props):
                    continue
                out = st.cl.get("out", ())
                if nm in text:
                    if all(x.k == "s" for x in out):
                        got = "".join(x.a[0] for x in out)
                        if got.strip() != text[nm]:
                            self.rep(props, "token:%s" % nm, "the token %s is written as %r" % (text[nm], got), role)
                    else:
                        self.und(role, out)
                elif nm == "Ident":
                    self.same(role, out, (pay, mk("disp", pay, "?")), props, "token:ident")
                elif nm == "IntLiteral":
                    self.integer(role, out, pay, props)
                elif nm == "FloatLiteral":
                    self.float_(eng, st, role, out, pay, props)
                else:
                    self.string(st, role, c, out, props, quoted=True)
            if nm == "StringLiteral" and c is not None and outs:
                self.bytes_(role, c, props, "token:string", None)

    def success(self, r, role, props):
        if r.k == "A" and r.a[1] == 1:
            self.rep(props, "fails:" + role, "writing %s fails" % role, role)
            return False
        return True

    def und(self, role, out):
        self.rep.und.append("%s is written as %s" % (role, ", ".join(show(x) for x in out)[:100]))

    def same(self, role, out, want, props, key):
        if len(out) == 1 and (out[0] in want or out[0].k == "disp" and out[0].a[0] is want[0]):
            return True
        if all(x.k == "s" for x in out):
            self.rep(props, key, "%s is written as %r" % (role, "".join(x.a[0] for x in out)), role)
        elif len([x for x in out if x is want[0] or x.k == "disp" and x.a[0] is want[0]]) == 1 and all(
                x.k == "s" or x is want[0] or x.k == "disp" and x.a[0] is want[0] for x in out):
            self.rep(props, key, "%s is written with additional text: %s" % (role, ", ".join(map(show, out))), role)
        else:
            self.und(role, out)
        return False

    def integer(self, role, out, pay, props, key="token:int"):
        if len(out) == 1 and out[0].k == "disp" and out[0].a[0] is pay:
            return
        if len(out) == 1 and out[0].k == "fmt" and out[0].a[2] in (pay, mk("disp", pay, out[0].a[3])):
            kind, spec = out[0].a[0], dict(out[0].a[1])
            if kind in ("display", "debug") and "prec" not in spec and not spec.get("flags", 0) >> 24 & 1:
                return
            if kind in ("octal", "lower_hex", "upper_hex", "lowerhex", "upperhex") and not spec.get("flags", 0) >> 23 & 1:
                self.rep(props, key, "%s is written in another base" % role, role)
                return
        if len(out) == 1 and out[0].k == "disp" and out[0].a[0].k == "cast" and out[0].a[0].a[0] not in ("u64", "u128", "i128"):
            self.rep(props, key, "%s is written as %s" % (role, out[0].a[0].a[0]), role)
            return
        if out and all(x.k == "s" for x in out):
            self.rep(props, key, "%s is written as %r" % (role, "".join(x.a[0] for x in out)), role)
            return
        self.und(role, out)

    def float_(self, eng, st, role, out, pay, props):
        """the text must read back as a floating-point number, and as this one"""
        key = "token:float"
        whole, other = None, []
        for f, v in st.facts.items():
            if pay not in subs(f):
                continue
            if f.k == "eq" and f.a[0].k == "call" and "fract" in f.a[0].a[0] and f.a[1].k in ("fl", "i") and float(f.a[1].a[0]) == 0.0:
                whole = v == ((1, 1),)
            else:
                other.append(f)
        if not out:
            return self.rep(props, key, "a floating-point number is not written", role)
        x, tail = out[0], out[1:]
        val = lambda t: t.a[0] if t.k == "disp" else t
        src = val(x.a[2]) if x.k == "fmt" else val(x)
        if not (src.k in ("f", "field") or src is pay) or pay not in subs(src) | {src}:
            return self.und(role, out)
        if x.k == "fmt":
            kind, spec = x.a[0], dict(x.a[1])
            if "width" in spec or "dyn" in spec or kind not in ("display", "debug", "lower_exp", "upper_exp", "lowerexp", "upperexp"):
                return self.und(role, out)
            if "prec" in spec:
                if kind == "display" and whole and (spec["prec"] >= 1 and not tail or spec["prec"] == 0 and self.suffix(tail)):
                    return
                if whole is False or whole is None and not other:
                    return self.rep(props, key, "digits of a floating-point number are dropped (%d are kept)" % spec["prec"], role)
                if whole and spec["prec"] == 0 and not tail:
                    return self.rep(props, key, "a whole floating-point number is written like an integer", role)
                return self.und(role, out)
            if not tail:
                return
            return self.und(role, out)
        if x.k == "disp":
            if whole is False and not tail or whole is True and self.suffix(tail):
                return
            if (whole is True or whole is None and not other) and not tail:
                return self.rep(props, key, "a whole floating-point number is written like an integer", role)
        return self.und(role, out)

    def suffix(self, tail):
        return bool(tail) and all(x.k == "s" for x in tail) and re.fullmatch(r"\.0+|[eE][+-]?0+", "".join(x.a[0] for x in tail)) is not None

    def string(self, st, role, c, out, props, quoted):
        """what surrounds the bytes"""
        before = st.cl.get("before")
        pre = before if before is not None else out
        if c.elsewhere:
            return self.und(role, tuple(pre) + tuple(out))
        if st.cl.get("partial"):
            return self.rep(props, "string:part:" + role, "not all bytes of %s are written, in order" % role, role)
        if any(x.k == "lossy" or any(y.k == "lossy" for y in subs(x)) for x in tuple(pre) + tuple(out)):
            return self.rep(props, "string:lossy:" + role, "%s is written with replacement characters" % role, role)
        if before is None and st.cl.get("exh") is None:
            whole = [x for x in out if x.k == "disp" and x.a[0].k == "escape" and x.a[0].a[0] is c.items]
            if len(whole) == 1 and len(out) == (3 if quoted else 1):
                i = out.index(whole[0])
                pre, out = out[:i], out[i + 1:]
                before = pre
                if not quoted:
                    return self.und(role, out)
            else:
                return self.und(role, out)
        if before is None:          # no byte
            ok_ = out == (S('""'),) if quoted else out == () or out == (S(""),)
        else:
            if st.cl.get("exh") not in (0, None):
                return self.rep(props, "string:skips:" + role, "%s is written without its first bytes" % role, role)
            ok_ = (tuple(pre), tuple(out)) == (((S('"'),), (S('"'),)) if quoted else ((), ()))
            if quoted and (tuple(pre), tuple(out)) == ((S("'"),), (S("'"),)):
                return self.und(role, out)
        if not ok_:
            if all(x.k == "s" for x in tuple(pre) + tuple(out)):
                self.rep(props, "string:quotes:" + role, "%s is written between %s and %s" % (
                    role, "".join(x.a[0] for x in pre) or "nothing", "".join(x.a[0] for x in out) or "nothing"), role)
            else:
                self.und(role, tuple(pre) + tuple(out))

    def bytes_(self, role, c, props, key, exact):
        """what each byte is written as"""
        seen = {}
        if c.elsewhere:
            return
        for e, rnd, rng, out, where, other in c.rounds:
            if other:
                self.rep.und.append("%s: what a byte is written as depends on %s" % (role, show(other[0])[:60]))
                continue
            for lo, hi in rng:
                for b in range(max(lo, 0), min(hi, 255) + 1):
                    self.rep.ob()
                    t = self.text_of(e, out, b)
                    if t is None:
                        self.und(role, out)
                        return
                    if exact is not None:
                        if t != exact(b):
                            self.rep(props, key, "%s: the byte %#04x is written as %s; expected %s" % (role, b, t, exact(b)), where)
                            return
                        continue
                    r = read_back(t, False)
                    if r is None or r[0] != [b]:
                        self.rep(props, key, "%s: the byte %#04x is written as %s, which is read back as %s" % (
                            role, b, t, "nothing" if r is None else bytes(r[0])), where)
                        return
                    if r[1] and b not in seen:
                        self.rep(props, key, "%s: the byte %#04x is written as %s, to which the next character may be added" % (role, b, t), where)
                        return

    def text_of(self, e, out, b):
        t = ""
        for x in out:
            if x.k == "s":
                t += x.a[0]
                continue
            if x.k == "disp" and x.a[0].k == "escape" and unchar(x.a[0].a[0]) is e:
                t += escape_default(b)
            elif x.k == "disp" and unchar(x.a[0]) is e and x.a[1] == "char" or x.k == "chr" and unchar(x.a[0]) is e:
                t += chr(b)
            elif x.k == "disp" and x.a[1] in ("u8", "u16", "u32", "u64", "usize", "i32") and byte(x.a[0], e, b) is not None:
                t += str(byte(x.a[0], e, b))
            elif x.k == "fmt" and x.a[3] != "char" and byte(x.a[2].a[0] if x.a[2].k == "disp" else x.a[2], e, b) is not None:
                v = byte(x.a[2].a[0] if x.a[2].k == "disp" else x.a[2], e, b)
                f = fmt_byte(x.a[0].replace("lowerhex", "lower_hex").replace("upperhex", "upper_hex"), x.a[1], v, x.a[3])
                if f is None:
                    return None
                t += f
            else:
                return None
        return t

    # ---- syntax tree -----------------------------------------------------------------------------------------
    def struct(self, name, fields):
        """a node of the syntax tree with the given values; the others are unknown"""
        a = self.prog.adt_path.get(ASTP + name)
        if a is None or a["kind"] != "struct":
            return None
        names = [f[0] for f in a["variants"][0]["fields"]]
        if any(f not in names for f in fields):
            return None
        return A(ASTP + name, 0, tuple(fields.get(f, P("field_" + f)) for f in names))

    def node(self, name, props, fields, want, items=None, variants=None):
        val = self.struct(name, fields)
        if val is None:
            self.rep.und.append("%s has not the expected fields" % name)
            return
        c, outs = self.run(ASTP + name, val, items, props, name)
        for eng, st, r in outs:
            if self.success(r, name, props):
                want(eng, st, c, st.cl.get("out", ()))

    def names(self):
        V = P("value")
        p2 = ("P02", "P11")
        self.node("Ident", p2, dict(value=V), lambda eng, st, c, out: self.same("an identifier", out, (V,), p2, "name:ident"))

        a = self.prog.adt_path.get(ASTP + "FullIdent")
        fs = [f for f in a["variants"][0]["fields"]] if a else []
        if len(fs) == 1:
            PARTS = P("parts")
            c, outs = self.run(ASTP + "FullIdent", A(ASTP + "FullIdent", 0, (PARTS,)), PARTS, p2, "FullIdent")
            self.dotted(c, outs, PARTS, p2)
        else:
            self.rep.und.append("FullIdent has not one field")

        N_, DOT = P("name"), P("leading")

        def type_name(eng, st, c, out):
            lead = self.some(eng, st, DOT)
            txt = tuple(x for x in out)
            body = [x for x in txt if not x.k == "s"]
            pre = "".join(x.a[0] for x in txt if x.k == "s")
            if len(body) != 1 or not (body[0] is N_ or body[0].k == "disp" and body[0].a[0] is N_):
                return self.und("a type name", out)
            if txt[-1] is not body[0] or pre not in ("", "."):
                return self.rep(p2, "name:type", "a type name is written with additional text %r" % pre, "TypeName")
            if lead is None:
                return self.rep(p2, "name:type:dot", "a type name is written %s a leading dot without regard to how it is written" % ("with" if pre else "without"), "TypeName") \
                    if not any(DOT in subs(f) for f in st.facts) else self.und("a type name", out)
            if lead != (pre == "."):
                self.rep(p2, "name:type:dot", "a type name %s leading dot is written %s" % ("with a" if lead else "without", "with one" if pre else "without"), "TypeName")
        self.node("TypeName", p2, dict(name=N_, leading_dot=DOT), type_name)

        a = self.prog.adt_path.get(ASTP + "Syntax")
        for i, v in enumerate(a["variants"] if a else ()):
            if v["name"] not in ("Proto2", "Proto3"):
                continue
            c, outs = self.run(ASTP + "Syntax", A(ASTP + "Syntax", i, ()), None, ("P02",), "Syntax")
            for eng, st, r in outs:
                out = st.cl.get("out", ())
                if not all(x.k == "s" for x in out):
                    self.und("the syntax", out)
                elif "".join(x.a[0] for x in out) != v["name"].lower():
                    self.rep(("P02",), "syntax:" + v["name"], "the syntax %s is written as %r" % (v["name"].lower(), "".join(x.a[0] for x in out)), "Syntax")

    def some(self, eng, st, v):
        """is this Option Some on the path?"""
        r = eng.rng(st, mk("discr", v, OPT)) if False else None
        for f, x in st.facts.items():
            if f.k == "discr" and f.a[0] is v and x[0] != "S":
                return True if x == ((1, 1),) else False if x == ((0, 0),) else None
        return None

    def dotted(self, c, outs, parts, props):
        """the parts in order, with one dot between each two"""
        if c is None:
            return
        role = "a dotted name"

        def seq(out, e):
            """what was written in one round as a string of '.' and 'p' (this element)"""
            t = ""
            for x in out:
                if x.k == "s":
                    t += x.a[0]
                    continue
                y = x.a[0] if x.k == "disp" else x
                while y.k in ("f", "field") and y is not e:
                    y = y.a[0]
                if y is not e and not (unold(y) is e):
                    return None
                t += "\1"
            return t

        e0 = mk("at", parts, I(0))
        rounds = []
        for e, rnd, rng, out, where, other in c.rounds:
            s = seq(out, e)
            if s is None:
                return self.und(role, out)
            rounds.append((e, rnd, s, where))
            self.rep.ob()
        for eng, st, r in outs:
            if not self.success(r, role, props):
                continue
            before = st.cl.get("before", ()) if "before" in st.cl else st.cl.get("out", ())
            s = seq(before, e0)
            if s is None:
                return self.und(role, before)
            after = st.cl.get("out", ()) if "before" in st.cl else ()
            if st.cl.get("partial"):
                return self.rep(props, "name:parts", "not every part of a dotted name is written, in order", role)
            if after:
                return self.rep(props, "name:dotted", "something is written after the parts of a name", role) if all(x.k == "s" for x in after) else self.und(role, after)
            k = st.cl.get("exh")
            if k is None:
                return self.und(role, (S("a loop that is not recognised"),)) if s == "\1" or not rounds else self.rep(
                    props, "name:parts", "not every part of a dotted name is written", role)
            if s not in ("", "\1") or s.count("\1") != k:
                return self.rep(props, "name:first", "a dotted name begins with %r and goes on with its part %d" % (s.replace("\1", "<part>"), k), role)
            for e, rnd, t, where in rounds:
                want = "\1" if k == 0 and rnd == 1 else ".\1"
                if t != want:
                    return self.rep(props, "name:dotted", "a part of a dotted name is written as %r" % t.replace("\1", "<part>"), where)

    def values(self):
        """default values of fields with a type name, and byte strings"""
        props = ("P10", "P02")
        V = P("value")
        val = self.struct("String", dict(value=V))
        if val is None:
            self.rep.und.append("ast::String has not the expected fields")
        else:
            c, outs = self.run(ASTP + "String", val, V, ("P10",), "a byte string")
            for eng, st, r in outs:
                if self.success(r, "a byte string", ("P10",)):
                    self.string(st, "a byte string", c, st.cl.get("out", ()), ("P10",), quoted=False)
            if c is not None and outs:
                self.bytes_("a byte string", c, ("P10",), "string:byte", c_escape)
        NEG = P("negative")
        for name in ("Int",):
            def number(eng, st, c, out):
                self.signed(eng, st, "an integer", out, NEG, V, props, "value:int")
            self.node(name, props, dict(negative=NEG, value=V), number)
        a = self.prog.adt_path.get(ASTP + "OptionValue")
        for i, v in enumerate(a["variants"] if a else ()):
            nm = v["name"]
            fs = [f[0] for f in v["fields"]]
            tys = [self.prog.types[f[1]]["s"] if hasattr(self.prog, "types") else "" for f in v["fields"]]
            pay = {f: P("v_" + f) for f in fs}
            value = A(ASTP + "OptionValue", i, tuple(pay[f] for f in fs))
            tk = [k for k, (ar, r) in self.sigs.items() if list(ar) == ["&" + ASTP + "OptionValue"] and r == "std::string::String"]
            for key in [None] + tk:
                c, outs = self.run(ASTP + "OptionValue", value, None, props, "an option value", key=key)
                for eng, st, r in outs:
                    out = st.cl.get("out", ())
                    if key is not None:
                        out = tuple(M.parts_of(eng.deref(st, r)))
                    self.option_value(eng, st, nm, fs, pay, out, key is not None, props)

    def option_value(self, eng, st, nm, fs, pay, out, token, props):
        txt = [x for x in out]
        rest = [x for x in txt if x.k != "s"]
        lit = [x.a[0] for x in txt if x.k == "s"]
        role = "an option value (%s)" % nm
        strip_ = lambda x: x.a[0] if x.k == "disp" else x
        if token and nm != "String" and len(out) == 1 and out[0].k == "disp" and out[0].a[0].k == "A" and out[0].a[0].a[0] == ASTP + "OptionValue":
            return              # as the value itself is
        if nm == "Ident":
            neg = pay.get("negative")
            self.signed(eng, st, role, out, neg, pay.get("ident"), props, "value:ident")
        elif nm in ("Int", "Float", "String", "Aggregate"):
            p = pay[fs[0]]
            q = '"' if nm == "String" and token else ""
            if q and len(out) == 1 and rest and (strip_(rest[0]) is p or strip_(rest[0]).k == "A"):
                return self.rep(props, "value:%s" % nm, "the text of a string is written without quotes", role)
            if len(rest) != 1 or strip_(rest[0]) is not p:
                return self.und(role, out)
            if not q and lit or q and (lit != ['"', '"'] or txt[1] is not rest[0]):
                self.rep(props, "value:%s" % nm, "%s is written as %s" % (role, ", ".join(map(show, out))), role)

    def signed(self, eng, st, role, out, neg, val, props, key):
        rest = [x for x in out if x.k != "s"]
        pre = "".join(x.a[0] for x in out if x.k == "s")
        def below(x):
            x = x.a[0] if x.k == "disp" else x
            while x.k in ("f", "field") and x is not val:
                x = x.a[0]
            return x
        if len(rest) != 1 or below(rest[0]) is not val:
            if len(rest) == 1 and rest[0].k == "fmt" or len(rest) == 1 and val in subs(rest[0]):
                return self.und(role, out)
            return self.und(role, out)
        if out[-1] is not rest[0] or pre not in ("", "-"):
            return self.rep(props, key, "%s is written with additional text %r" % (role, pre), role)
        t = eng.truth(st, neg)
        if t is None:
            if not any(neg in subs(f) or f is neg for f in st.facts):
                self.rep(props, key + ":sign", "%s is written %s a sign whether it is negative or not" % (role, "with" if pre else "without"), role)
            else:
                self.und(role, out)
        elif t != (pre == "-"):
            self.rep(props, key + ":sign", "%s that is %snegative is written %s a sign" % (role, "" if t else "not ", "with" if pre else "without"), role)


OPS = {"BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y, "Shr": lambda x, y: x >> y, "Shl": lambda x, y: (x << y) & 255,
       "Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Div": lambda x, y: x // y if y else 0, "Rem": lambda x, y: x % y if y else 0,
       "Mul": lambda x, y: x * y}


def byte(x, e, b):
    """the value of a term over the byte e"""
    if x is e:
        return b
    if x.k == "i":
        return x.a[0]
    if x.k in ("cast", "chr"):
        return byte(x.a[-1], e, b)
    if x.k == "add" and type(x.a[1]) is int:
        v = byte(x.a[0], e, b)
        return None if v is None else v + x.a[1]
    if x.k == "op" and x.a[0] in OPS and len(x.a) == 3:
        u, v = byte(x.a[1], e, b), byte(x.a[2], e, b)
        return None if u is None or v is None else OPS[x.a[0]](u, v)
    return None


def unchar(x):
    while x.k in ("cast", "chr", "char"):
        x = x.a[-1]
    return x


def unold(t):
    for x in list(subs(t)):
        if x.k == "old":
            t = subst(t, x, x.a[0])
    return t


def analyse(prog):
    import parse as PA
    rep = Report()
    r = Render(prog, rep)
    r.sigs = PA.sigs(prog)
    r.tokens()
    r.names()
    r.values()
    return rep
