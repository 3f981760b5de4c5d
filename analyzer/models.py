"""Models of the standard-library operations the analysed code uses (collections, iterators, strings, formatting)."""
import re
from ai import *
from ai import PUSHED, BOOLK, _flat, WRAPPERS
from mir import norm_path

_np = {}


def npath(p):
    r = _np.get(p)
    if r is None:
        r = norm_path(p)
        for pre in ("std::", "core::", "alloc::"):
            if r.startswith(pre):
                r = r[len(pre):]
                break
        _np[p] = r
    return r


def untuple(n):
    if n.k == "A" and n.a[0] == "tuple":
        return list(n.a[2])
    return [n]


IDENT_TRAITS = {
    ("clone::Clone", "clone"), ("borrow::ToOwned", "to_owned"), ("borrow::Borrow", "borrow"),
    ("borrow::BorrowMut", "borrow_mut"), ("convert::AsRef", "as_ref"), ("ops::Deref", "deref"),
    ("iter::Iterator", "by_ref"), ("convert::AsMut", "as_mut"), ("ops::DerefMut", "deref_mut"),
}
MUT_IDENT = {"by_ref", "as_mut", "deref_mut", "borrow_mut"}

STRTY = re.compile(r"^(&('\w+ )?(mut )?)*(std::string::String|str|std::borrow::Cow<'?\w*,? ?str>)$")


def is_str_ty(t):
    return bool(STRTY.match(t))


INT_TYS = set(TYRANGE) - {"bool", "char"}


def site_id(st):
    return tuple((f.body.key, f.blk) for f in st.frames[-4:])


def vid_of(st, tag="v"):
    return mk("vid", tag, site_id(st))


def new_vec(eng, st, elemty):
    c = eng.client.newvec(eng, st, elemty)
    if c == "array" or elemty in INT_TYS and elemty != "u8" and not c:
        return A("vec", 0, ())
    vid = vid_of(st, elemty)
    fresh(eng, st, [mk("len", vid), mk("last", vid)])
    if eng.client.lenfacts(vid):
        st.facts[mk("len", vid)] = ((0, 0),)
    return mk("V", vid, frozenset())


def rename(v, old, new):
    """substitutes, leaving the contents of abstract vectors alone"""
    if type(v) is tuple:
        return tuple(rename(x, old, new) for x in v)
    if type(v) is not N or old not in subs(v):
        return v
    if v is old:
        return new
    if v.k == "V":
        return v
    if v.k == "A":
        return mk("A", v.a[0], v.a[1], tuple(rename(x, old, new) for x in v.a[2]))
    return subst(v, old, new)


def each_value(st, fn):
    for fr in st.frames:
        ls = fr.locals
        for i, v in enumerate(ls):
            if v is not None:
                ls[i] = fn(v)
        if fr.cont is not None:
            fr.cont = cont_map(fr.cont, fn)
    for k in list(st.heap):
        st.heap[k] = fn(st.heap[k])


def cont_map(c, fn):
    if type(c) is N:
        return fn(c)
    if type(c) is tuple:
        return tuple(cont_map(x, fn) for x in c)
    return c


def rename_in_state(eng, st, old, new):
    each_value(st, lambda v: rename(v, old, new))
    eng.client.renamed(eng, st, old, new)


def fresh(eng, st, terms):
    """the given terms get a new meaning: earlier uses are renamed, facts about them dropped"""
    for t in terms:
        o = mk("old", t)
        rename_in_state(eng, st, t, o)
        for f in list(st.facts):
            if t in subs(f) or o in subs(f):
                del st.facts[f]


# ---- vectors ---------------------------------------------------------------------------------------
def as_V(eng, st, v):
    """abstract vector view of a sequence value"""
    if v.k == "V":
        return v
    if v.k == "A" and v.a[0] in ("vec", "array"):
        vid = vid_of(st, "w")
        n = len(v.a[2])
        fresh(eng, st, [mk("len", vid), mk("last", vid)])
        st.facts[mk("len", vid)] = ((n, n),)
        return mk("V", vid, frozenset(v.a[2]))
    vid = mk("vid", "x", v)
    return mk("V", vid, frozenset([mk("elems", v)]))


MAXCONC = 96


def vpush(eng, st, ref, elem, elemty=None):
    old = eng.deref(st, ref)
    h = eng.client.push(eng, st, ref, old, elem)
    virtual = h == "virtual"
    if h is True:
        return [(st, UNIT)]
    if type(h) is tuple:
        elem = h[0]
    if old.k == "A" and old.a[0] == "vec" and not virtual:
        if (elem.k == "i" or elem not in old.a[2]) and len(old.a[2]) < MAXCONC:
            setref(eng, st, ref, A("vec", 0, old.a[2] + (elem,)))
            return [(st, UNIT)]
    v = as_V(eng, st, old)
    vid = v.a[0]
    ln, la = mk("len", vid), mk("last", vid)
    f = st.facts.pop(ln, None)
    fresh(eng, st, [la])
    rename_in_state(eng, st, ln, la)
    for t in list(st.facts):
        if ln in subs(t):
            ff = st.facts.pop(t)
            st.facts[subst(t, ln, la)] = ff
    if eng.client.lenfacts(vid):
        st.facts[ln] = ((1, 2 ** 31 - 2),)
    elem = rename(elem, ln, la)
    v2 = mk("V", vid, v.a[1] if virtual else v.a[1] | {elem})
    setref(eng, st, ref, v2)
    eng.client.pushed(eng, st, vid, elem, ref)
    return [(st, UNIT)]


def setref(eng, st, ref, v):
    n = 0
    while n < 8:
        cur = eng.load(st, ref.a[0], ref.a[1])
        if cur is not None and cur.k == "R":
            ref = cur
            n += 1
            continue
        break
    eng.store(st, ref.a[0], ref.a[1], v)


def elem_of(v):
    return mk("elem", v)


def seq_split(eng, st, v):
    """[(state, None | tuple of concrete elements | term)] – nothing to do, kept for symmetry"""
    return v


def vpop(eng, st, ref):
    v = eng.deref(st, ref)
    if v.k == "A" and v.a[0] == "vec":
        if not v.a[2]:
            return [(st, NONE)]
        setref(eng, st, ref, A("vec", 0, v.a[2][:-1]))
        return [(st, some(v.a[2][-1]))]
    if v.k == "V":
        ln = mk("len", v.a[0])
        out = []
        r = eng.rng(st, ln)
        if r[0][0] == 0:
            s2 = st.clone()
            eng.narrow(s2, ln, ((0, 0),))
            out.append((s2, NONE))
        if r[-1][1] > 0:
            for e in v.a[1]:
                s2 = st.clone()
                fresh(eng, s2, [ln, mk("last", v.a[0])])
                out.append((s2, some(e)))
        return out
    r = mk("call", "pop", (v,))
    setref(eng, st, ref, mk("popped", v))
    return [(st, r)]


# ---- iterators -------------------------------------------------------------------------------------
def it(*a):
    return mk("it", *a)


def mkrange(lo, hi):
    """the iterator of lo..hi; 0..x.len() goes through the positions of x"""
    if lo is I(0) and hi.k == "len" and hi.a[0].k not in ("vid",):
        return it("posn", it("sym", hi.a[0]))
    return it("range", lo, hi)


def i_posn(eng, st, k, itn, val):
    out = []
    for s2, x in split_opt(eng, st, val):
        out += ret_it(eng, s2, k[1], it("posn", itn), NONE if x is None else some(mk("pos", itn.a[1])))
    return out


def into_iter(eng, st, v):
    v0 = v
    if v.k == "R":
        d = eng.deref(st, v)
        if d.k == "it":
            return v
        if d.k == "A" and not d.a[0] in ("vec", "array", OPT, "std::ops::Range"):
            return v          # user-defined iterator by reference
        v = d
    if v.k == "it":
        return v
    if v.k == "A":
        if v.a[0] in ("array", "vec"):
            return it("arr", v.a[2], 0)
        if v.a[0] == OPT:
            return it("arr", v.a[2], 0)
        if v.a[0] == "std::ops::Range":
            return mkrange(v.a[2][0], v.a[2][1])
        return v
    if v.k == "y":
        return it("arr", tuple(I(x) for x in v.a[0]), 0)
    if v.k == "V":
        return it("V", v)
    return it("sym", v)


def ret_it(eng, st, k, itn, val):
    """continuation of `advance`: itn = iterator after the step, val = Option node"""
    return getattr(sys.modules[__name__], "i_" + k[0])(eng, st, k, itn, val)


def advance(eng, st, itn, k):
    """one `next` step of iterator node itn; continues with ret_it(k)"""
    if itn.k == "R":
        inner = eng.deref(st, itn)
        return advance(eng, st, inner, ("byref", itn, k))
    if itn.k != "it":
        # user-defined iterator: its `next` is opaque here
        r = eng.client.next(eng, st, itn)
        if r is None:
            r = [(st, mk("call", "next", (itn,)))]
        out = []
        for s2, v in r:
            out += ret_it(eng, s2, k, itn, v)
        return out
    kind = itn.a[0]
    if kind == "arr":
        _, el, i = itn.a
        if i < len(el):
            return ret_it(eng, st, k, it("arr", el, i + 1), some(el[i]))
        return ret_it(eng, st, k, itn, NONE)
    if kind in ("sym", "sym1"):
        coll = itn.a[1]
        out = []
        fs = eng.client.first(eng, st, coll) if kind == "sym" else None
        if fs is not None:
            for s2, e in fs:
                out += ret_it(eng, s2, k, itn, NONE) if e is None else ret_it(eng, s2, k, it("sym1", coll), some(e))
            return out
        e = elem_of(coll)
        pos = mk("pos", coll)
        ln = mk("len", coll)
        if kind == "sym1":
            eng.client.item_done(eng, st, coll, e)
        s2 = st.clone()
        for s in (s2, st):
            fresh(eng, s, [e, pos])
        # the continuation and iterator may mention the previous element
        k2 = cont_map(k, lambda v: rename(rename(v, e, mk("old", e)), pos, mk("old", pos)))
        if kind == "sym1" or eng.narrow(st, ln, ((0, 0),)):
            eng.client.exhausted(eng, st, coll)
            out += ret_it(eng, st, k2, itn, NONE)
        if eng.narrow(s2, ln, ((1, INF),)):
            eng.client.elem(eng, s2, coll, e)
            s2.note("next", show(coll)[:60])
            out += ret_it(eng, s2, k2, it("sym1", coll), some(e))
        return out
    if kind == "V":
        v = itn.a[1]
        out = []
        pos = mk("pos", v.a[0])
        for e in sorted(v.a[1], key=show):
            s2 = st.clone()
            fresh(eng, s2, [pos])
            k2 = cont_map(k, lambda x: rename(x, pos, mk("old", pos)))
            out += ret_it(eng, s2, k2, itn, some(e))
        out += ret_it(eng, st, k, itn, NONE)
        return out
    if kind == "posn":
        return advance(eng, st, itn.a[1], ("posn", k))
    if kind == "range":
        _, a, b = itn.a
        if a.k == "i" and b.k == "i":
            if a.a[0] < b.a[0]:
                return ret_it(eng, st, k, it("range", I(a.a[0] + 1), b), some(a))
            return ret_it(eng, st, k, itn, NONE)
        s2 = st.clone()
        p = mk("pos", itn)
        fresh(eng, s2, [p])
        k2 = cont_map(k, lambda x: rename(x, p, mk("old", p)))
        lo = eng.rng(st, a)[0][0]
        hi = eng.rng(st, b)[-1][1]
        out = ret_it(eng, st, k, itn, NONE)
        if hi > lo:
            s2.facts[p] = ((lo, hi - 1),)
            s2.facts[mk("lt", p, b, "usize")] = ((1, 1),)
            out += ret_it(eng, s2, k2, itn, some(p))
        return out
    if kind in ("map", "filter", "filter_map", "enum", "take_while", "inspect", "skip_while", "map_while"):
        return advance(eng, st, itn.a[1], (kind,) + tuple(itn.a[2:]) + (k,))
    if kind == "chain":
        return advance(eng, st, itn.a[1], ("chain", itn.a[2], k))
    if kind == "zip":
        return advance(eng, st, itn.a[1], ("zip1", itn.a[2], k))
    if kind == "peek":
        pk = itn.a[2]
        if pk.k == "A" and pk.a[1] == 1:
            return ret_it(eng, st, k, it("peek", itn.a[1], NONE), pk.a[2][0])
        return advance(eng, st, itn.a[1], ("peek", k))
    if kind == "flat":
        cur = itn.a[2]
        if cur.k == "it":
            return advance(eng, st, cur, ("flat_in", itn, k))
        return advance(eng, st, itn.a[1], ("flat_out", itn, k))
    if kind == "opaque":
        nx = mk("call", "next", (itn,))
        fresh(eng, st, [nx])
        return ret_it(eng, st, cont_map(k, lambda x: rename(x, nx, mk("old", nx))), itn, nx)
    raise Unsupported("iterator " + kind)


def i_byref(eng, st, k, itn, val):
    setref(eng, st, k[1], itn)
    return ret_it(eng, st, k[2], k[1], val)


def i_next(eng, st, k, itn, val):
    if k[1].k == "R":
        setref(eng, st, k[1], itn)
    return [(st, val)]


def split_opt(eng, st, val):
    """[(state, None | payload)] for an Option node"""
    if val.k == "A" and val.a[0] == OPT:
        return [(st, val.a[2][0] if val.a[1] == 1 else None)]
    d = mk("discr", val, OPT)
    out = []
    s2 = st.clone()
    if eng.narrow(s2, d, ((0, 0),)):
        out.append((s2, None))
    if eng.narrow(st, d, ((1, 1),)):
        out.append((st, field(val, 1, 0)))
    return out


def i_map(eng, st, k, itn, val):
    f, k2 = k[1], k[2]
    out = []
    for s2, x in split_opt(eng, st, val):
        if x is None:
            out += ret_it(eng, s2, k2, it("map", itn, f), NONE)
        else:
            out += eng.call_value(s2, f, [x], ("mapped", f, itn, k2))
    return out


def k_mapped(eng, st, c, val):
    _, f, itn, k2 = c
    return ret_it(eng, st, k2, it("map", itn, f), some(val))


def i_enum(eng, st, k, itn, val):
    n, k2 = k[1], k[2]
    out = []
    for s2, x in split_opt(eng, st, val):
        if x is None:
            out += ret_it(eng, s2, k2, it("enum", itn, n), NONE)
        else:
            base = itn
            while base.k == "it" and base.a[0] in ("map",):
                base = base.a[1]
            if base.k == "it" and base.a[0] in ("sym", "sym1"):
                p = mk("pos", base.a[1])
            elif base.k == "it" and base.a[0] == "V":
                p = mk("pos", base.a[1].a[0])
            else:
                p = n
            out += ret_it(eng, s2, k2, it("enum", itn, eng.add(n, 1) if p is n else n), some(tup(p, x)))
    return out


def i_filter(eng, st, k, itn, val):
    f, k2 = k[1], k[2]
    out = []
    for s2, x in split_opt(eng, st, val):
        if x is None:
            out += ret_it(eng, s2, k2, it("filter", itn, f), NONE)
        else:
            out += eng.call_value(s2, f, [x], ("filtered", f, itn, k2, x))
    return out


def branch(eng, st, b):
    """[(state, bool)]"""
    t = eng.truth(st, b)
    if t is None and b.k == "i":
        t = bool(b.a[0])
    if t is not None:
        return [(st, t)]
    out = []
    s2 = st.clone()
    if eng.assume(s2, b, True):
        out.append((s2, True))
    if eng.assume(st, b, False):
        out.append((st, False))
    return out


def k_filtered(eng, st, c, val):
    _, f, itn, k2, x = c
    out = []
    for s2, t in branch(eng, st, val):
        eng.client.event(eng, s2, "filter", t, x)
        if t:
            out += ret_it(eng, s2, k2, it("filter", itn, f), some(x))
        else:
            if not eng.seen(s2, ("filter", itn, f, k2)):
                out += advance(eng, s2, it("filter", itn, f), k2)
    return out


def i_filter_map(eng, st, k, itn, val):
    f, k2 = k[1], k[2]
    out = []
    for s2, x in split_opt(eng, st, val):
        if x is None:
            out += ret_it(eng, s2, k2, it("filter_map", itn, f), NONE)
        else:
            out += eng.call_value(s2, f, [x], ("fmapped", f, itn, k2))
    return out


def k_fmapped(eng, st, c, val):
    _, f, itn, k2 = c
    out = []
    for s2, x in split_opt(eng, st, val):
        if x is None:
            if not eng.seen(s2, ("fmap", itn, f, k2)):
                out += advance(eng, s2, it("filter_map", itn, f), k2)
        else:
            out += ret_it(eng, s2, k2, it("filter_map", itn, f), some(x))
    return out


def i_take_while(eng, st, k, itn, val):
    f, k2 = k[1], k[2]
    out = []
    for s2, x in split_opt(eng, st, val):
        if x is None:
            out += ret_it(eng, s2, k2, it("take_while", itn, f), NONE)
        else:
            out += eng.call_value(s2, f, [x], ("tookw", f, itn, k2, x))
    return out


def k_tookw(eng, st, c, val):
    _, f, itn, k2, x = c
    out = []
    for s2, t in branch(eng, st, val):
        if t:
            out += ret_it(eng, s2, k2, it("take_while", itn, f), some(x))
        else:
            out += ret_it(eng, s2, k2, it("arr", (), 0), NONE)
    return out


def i_chain(eng, st, k, itn, val):
    b, k2 = k[1], k[2]
    out = []
    for s2, x in split_opt(eng, st, val):
        if x is None:
            out += advance(eng, s2, b, k2)
        else:
            out += ret_it(eng, s2, k2, it("chain", itn, b), some(x))
    return out


def i_zip1(eng, st, k, itn, val):
    b, k2 = k[1], k[2]
    out = []
    for s2, x in split_opt(eng, st, val):
        if x is None:
            out += ret_it(eng, s2, k2, it("zip", itn, b), NONE)
        else:
            out += advance(eng, s2, b, ("zip2", itn, x, k2))
    return out


def i_zip2(eng, st, k, itn, val):
    _, a, x, k2 = k
    out = []
    for s2, y in split_opt(eng, st, val):
        out += ret_it(eng, s2, k2, it("zip", a, itn), NONE if y is None else some(tup(x, y)))
    return out


def i_peek(eng, st, k, itn, val):
    return ret_it(eng, st, k[1], it("peek", itn, NONE), val)


def i_peeked(eng, st, k, itn, val):
    setref(eng, st, k[1], it("peek", itn, some(val)))
    return [(st, val)]


def i_flat_out(eng, st, k, itn, val):
    whole, k2 = k[1], k[2]
    f = whole.a[3]
    out = []
    for s2, x in split_opt(eng, st, val):
        if x is None:
            out += ret_it(eng, s2, k2, it("flat", itn, UNIT, f), NONE)
        elif f is UNIT:
            out += advance(eng, s2, it("flat", itn, into_iter(eng, s2, x), f), k2)
        else:
            out += eng.call_value(s2, f, [x], ("flatm", itn, f, k2))
    return out


def k_flatm(eng, st, c, val):
    _, itn, f, k2 = c
    return advance(eng, st, it("flat", itn, into_iter(eng, st, val), f), k2)


def i_flat_in(eng, st, k, itn, val):
    whole, k2 = k[1], k[2]
    out = []
    for s2, x in split_opt(eng, st, val):
        if x is None:
            w = it("flat", whole.a[1], UNIT, whole.a[3])
            if not eng.seen(s2, ("flat", w, k2)):
                out += advance(eng, s2, w, k2)
        else:
            out += ret_it(eng, s2, k2, it("flat", whole.a[1], itn, whole.a[3]), some(x))
    return out


# consumers: kinds any all find position count for_each fold collect extend last
def consume(eng, st, kind, itn, aux):
    if eng.seen(st, ("c", kind, itn, aux)):
        return []
    return advance(eng, st, itn, ("cons", kind, aux))


def i_cons(eng, st, k, itn, val):
    _, kind, aux = k
    out = []
    for s2, x in split_opt(eng, st, val):
        if x is None:
            out += finish(eng, s2, kind, itn, aux)
        else:
            out += feed(eng, s2, kind, itn, aux, x)
    return out


def finish(eng, st, kind, itn, aux):
    if kind == "any":
        v = FALSE
    elif kind == "all":
        v = TRUE
    elif kind in ("find", "position", "find_map"):
        v = NONE
    elif kind == "count":
        v = aux[0]
    elif kind == "for_each":
        v = UNIT
    elif kind == "fold":
        v = aux[1]
    elif kind == "last":
        v = aux[0]
    elif kind == "collect":
        v = aux[1]
        if aux[0] == "result":
            v = ok(v)
    elif kind == "extend":
        v = UNIT
    elif kind == "collect_into":
        v = st.heap.pop(aux[0].a[0])
    elif kind == "try_for_each":
        v = ok(UNIT)
    if itn.k == "it" and kind in ("any", "all", "find", "position", "find_map") and aux and len(aux) > 1 and aux[1] is not None and aux[1].k == "R":
        setref(eng, st, aux[1], itn)
    if kind == "collect" and v.k == "cat" and len(v.a[0]) == 0:
        v = S("")
    return [(st, v)]


def feed(eng, st, kind, itn, aux, x):
    if kind in ("any", "all", "find", "find_map"):
        return eng.call_value(st, aux[0], [x], ("cons", kind, itn, aux, x))
    if kind == "position":
        return eng.call_value(st, aux[0], [x], ("cons", kind, itn, aux, x))
    if kind == "count":
        c = aux[0]
        if itn.a[0] == "arr":
            return consume(eng, st, kind, itn, (eng.add(c, 1),))
        return consume(eng, st, kind, itn, (mk("count", strip_it(itn)),))
    if kind in ("for_each", "try_for_each"):
        return eng.call_value(st, aux[0], [x], ("cons", kind, itn, aux, x))
    if kind == "fold":
        return eng.call_value(st, aux[0], [aux[1], x], ("cons", kind, itn, aux, x))
    if kind == "last":
        return consume(eng, st, kind, itn, (some(x),))
    if kind == "collect":
        out = []
        if aux[0] == "result":
            for s2, okv, pay in split_res(eng, st, x):
                if okv:
                    acc = add_elem(eng, s2, aux[1], pay, itn)
                    out += consume(eng, s2, kind, itn, (aux[0], acc))
                else:
                    out.append((s2, err(pay)))
            return out
        if aux[0] == "str":
            acc = cat(aux[1], x)
        else:
            eng.client.collected(eng, st, x, itn)
            acc = add_elem(eng, st, aux[1], x, itn)
        return consume(eng, st, kind, itn, (aux[0], acc))
    if kind == "collect_into":
        vpush(eng, st, aux[0], x)
        return consume(eng, st, kind, itn, aux)
    if kind == "extend":
        r = aux[0]
        if aux[1] is not None and aux[1].a[0] == "str":
            cur = eng.deref(st, r)
            setref(eng, st, r, cat(cur, x))
        else:
            vpush(eng, st, r, x)
        return consume(eng, st, kind, itn, aux)
    raise Unsupported("consumer " + kind)


def strip_it(itn):
    return itn


def add_elem(eng, st, acc, x, itn):
    if acc.k == "A" and acc.a[0] == "vec":
        if len(acc.a[2]) < MAXCONC and concrete_it(itn):
            return A("vec", 0, acc.a[2] + (x,))
        vid = vid_of(st, "c")
        return mk("V", vid, frozenset(acc.a[2]) | {x})
    return mk("V", acc.a[0], acc.a[1] | {x})


def concrete_it(itn):
    if itn.k != "it":
        return False
    k = itn.a[0]
    if k == "arr":
        return True
    if k in ("map", "enum", "filter", "filter_map", "take_while", "peek"):
        return concrete_it(itn.a[1])
    if k in ("chain", "zip"):
        return concrete_it(itn.a[1]) and concrete_it(itn.a[2])
    if k == "range":
        return itn.a[1].k == "i" and itn.a[2].k == "i"
    return False


def split_res(eng, st, x):
    if x.k == "A" and x.a[0] == RES:
        return [(st, x.a[1] == 0, x.a[2][0])]
    d = mk("discr", x, RES)
    out = []
    s2 = st.clone()
    if eng.narrow(s2, d, ((0, 0),)):
        out.append((s2, True, field(x, 0, 0)))
    if eng.narrow(st, d, ((1, 1),)):
        out.append((st, False, field(x, 1, 0)))
    return out


def k_cons(eng, st, c, val):
    _, kind, itn, aux, x = c
    out = []
    if kind in ("any", "all", "find", "position"):
        for s2, t in branch(eng, st, val):
            hit = t if kind != "all" else not t
            if hit:
                if len(aux) > 1 and aux[1] is not None and aux[1].k == "R":
                    setref(eng, s2, aux[1], itn)
                if kind == "any":
                    v = TRUE
                elif kind == "all":
                    v = FALSE
                elif kind == "find":
                    v = some(x)
                else:
                    n_ = 0
                    while itn.k == "R" and n_ < 6:
                        itn = eng.deref(s2, itn)
                        n_ += 1
                    if itn.k != "it":
                        itn = it("opaque", itn)
                    if itn.a[0] == "arr":
                        v = some(I(itn.a[2] - 1))
                    elif itn.a[0] in ("sym", "sym1"):
                        v = some(mk("pos", itn.a[1]))
                    elif itn.a[0] == "V":
                        v = some(mk("pos", itn.a[1].a[0]))
                    else:
                        v = some(mk("pos", itn))
                out.append((s2, v))
            else:
                out += consume(eng, s2, kind, itn, aux)
        return out
    if kind == "find_map":
        for s2, p in split_opt(eng, st, val):
            if p is None:
                out += consume(eng, s2, kind, itn, aux)
            else:
                out.append((s2, some(p)))
        return out
    if kind == "for_each":
        return consume(eng, st, kind, itn, aux)
    if kind == "try_for_each":
        for s2, okv, p in split_res(eng, st, val):
            if okv:
                out += consume(eng, s2, kind, itn, aux)
            else:
                out.append((s2, err(p)))
        return out
    if kind == "fold":
        acc = val
        if acc.d > 25:
            acc = mk("folded", x)
        return consume(eng, st, kind, itn, (aux[0], acc))
    raise Unsupported(kind)


def k_val(eng, st, c, val):
    return [(st, val)]


# ---- strings ---------------------------------------------------------------------------------------
def parts_of(s):
    if s.k == "cat":
        return list(s.a[0])
    if s.k == "s":
        return [s] if s.a[0] else []
    return [s]


def cat(*xs):
    ps = []
    for x in xs:
        for p in parts_of(x):
            if p.k == "i":
                p = S(chr(p.a[0]))
            if ps and p.k == "s" and ps[-1].k == "s":
                ps[-1] = S(ps[-1].a[0] + p.a[0])
            elif ps and p.k == "rep" and p is ps[-1]:
                pass
            elif ps and p is ps[-1] and p.k != "s":
                ps[-1] = mk("rep", (p,))
            elif ps and ps[-1].k == "rep" and ps[-1].a[0] == (p,):
                pass
            else:
                ps.append(p)
            # collapse a repeated block of 2..4 parts
            for n in (2, 3, 4):
                if len(ps) >= 2 * n and ps[-n:] == ps[-2 * n:-n]:
                    blk = tuple(ps[-n:])
                    del ps[-2 * n:]
                    ps.append(mk("rep", blk))
                    break
                if len(ps) > n and ps[-n - 1].k == "rep" and ps[-n - 1].a[0] == tuple(ps[-n:]):
                    del ps[-n:]
                    break
    if not ps:
        return S("")
    if len(ps) == 1:
        return ps[0]
    if len(ps) > 40:
        return mk("longcat", frozenset(ps))
    return mk("cat", tuple(ps))


def parse_template(bs):
    """template bytes of format_args -> list of str | ('arg', spec, index or None)"""
    out, i = [], 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode("utf8"))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + n]).decode("utf8"))
            i += n
        else:
            flags = b & 0x3f
            spec = {}
            if flags & 1:
                spec["flags"] = int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
            if flags & 2:
                spec["width"] = bs[i] | bs[i + 1] << 8
                i += 2
            if flags & 4:
                spec["prec"] = bs[i] | bs[i + 1] << 8
                i += 2
            # precisions and widths of zero are only given by the flags
            if spec.get("flags", 0) >> 28 & 1 and "prec" not in spec and not flags & 0x30:
                spec["prec"] = 0
            ix = None
            if flags & 8:
                ix = bs[i] | bs[i + 1] << 8
                i += 2
            if flags & 0x30:
                spec["dyn"] = flags & 0x30
            out.append(("arg", tuple(sorted(spec.items())), ix))
    return out


def disp(eng, st, v, ty):
    v = eng.deref(st, v)
    ty = ty.lstrip("&") if ty else ty
    if v.k in ("s", "cat"):
        return v
    if v.k == "i" and ty in INT_TYS:
        return S(str(v.a[0]))
    if v.k == "i" and ty == "char":
        return S(chr(v.a[0]))
    if v.k == "i" and ty == "bool":
        return S("true" if v.a[0] else "false")
    if ty and is_str_ty(ty):
        return v
    return mk("disp", v, short_ty(ty or "?"))


def short_ty(t):
    return re.sub(r"<'[^<>]*>", "", t)


def string_write(eng, st, target, s):
    """appends s to the String / formatter behind target"""
    if target.k == "R":
        cur = eng.deref(st, target)
        if cur.k in ("s", "cat", "rep", "longcat") or True:
            setref(eng, st, target, cat(cur, s))
            return [(st, ok(UNIT))]
    return [(st, ok(UNIT))]


STRLIKE = re.compile(r"(string::String|str|\[u8\]|Vec<u8>)")


def pred(eng, st, name, *args):
    b = mk("pred", name, *args)
    return b


CHARSETS = {
    "is_ascii_digit": [(48, 57)], "is_ascii_uppercase": [(65, 90)], "is_ascii_lowercase": [(97, 122)],
    "is_ascii_alphabetic": [(65, 90), (97, 122)], "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)],
    "is_ascii": [(0, 127)], "is_ascii_hexdigit": [(48, 57), (65, 70), (97, 102)],
    "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)],
    "is_ascii_graphic": [(33, 126)], "is_ascii_control": [(0, 31), (127, 127)],
    "is_ascii_punctuation": [(33, 47), (58, 64), (91, 96), (123, 126)],
}


def range_pred(eng, st, v, rs, ty):
    """boolean node: v in rs"""
    cur = eng.rng(st, v, ty)
    both = rs_and(cur, tuple(rs))
    if not both:
        return FALSE
    if not rs_and(cur, rs_not(tuple(rs))):
        return TRUE
    return mk("inset", v, tuple(rs), ty)


def targ_elem(callee):
    t = callee.get("targs") or []
    return t[0] if t else None


def default_of(eng, st, tystr, depth=0):
    if tystr in TYRANGE:
        return I(0)
    t = eng.prog.tykind.get(tystr)
    if tystr.startswith("std::option::Option<"):
        return NONE
    if tystr.startswith("std::vec::Vec<"):
        return A("vec", 0, ())
    if tystr in ("std::string::String", "&str", "str"):
        return S("")
    if tystr in ("f64", "f32"):
        return mk("fl", 0.0)
    a = eng.prog.adts.get(tystr)
    if a is not None and a["kind"] == "struct" and depth < 4:
        fs = []
        T = t["crate"].types if t else None
        for f in a["variants"][0]["fields"]:
            fty = T[f[1]]["s"] if T is not None else None
            # prefer the local body of the field's Default
            b = eng.prog.bodies.get("<%s as std::default::Default>::default" % fty)
            if b is not None:
                v = eng.const_body(b.key)
            else:
                v = default_of(eng, st, fty, depth + 1)
            if v is None:
                return None
            fs.append(v)
        return A(a["path"], 0, fs)
    return None


def dispatch(eng, st, callee, args, site):
    raw = callee["path"]
    p = npath(raw)
    trait = callee.get("trait")
    h = FN.get(p)
    if h is not None:
        r = h(eng, st, callee, args)
        if r is not None:
            return r
    if trait is not None:
        tr = npath(trait)
        m = callee.get("method")
        h = TR.get((tr, m))
        if h is not None:
            r = h(eng, st, callee, args)
            if r is not None:
                return r
    if callee.get("ctor"):
        return [(st, eng.ctor(callee, args))]
    return None


FN, TR = {}, {}


def fn(*names):
    def deco(f):
        for n in names:
            FN[n] = f
        return f
    return deco


def tr(*pairs):
    def deco(f):
        for a, b in pairs:
            TR[(a, b)] = f
        return f
    return deco


# ---- trait methods ---------------------------------------------------------------------------------
@tr(("clone::Clone", "clone"), ("borrow::ToOwned", "to_owned"), ("borrow::Borrow", "borrow"), ("ops::Deref", "deref"),
    ("convert::AsRef", "as_ref"))
def t_ident(eng, st, callee, args):
    ty = (callee.get("targs") or ["?"])[0]
    b = eng.prog.bodies.get(callee.get("key"))
    if b is not None and b.local and not b.raw.get("derived"):
        return None
    v = eng.deref(st, args[0])
    if v.k == "A" and v.a[0] == COW:
        return [(st, v.a[2][0])]
    return [(st, v)]


@tr(("ops::DerefMut", "deref_mut"), ("convert::AsMut", "as_mut"), ("borrow::BorrowMut", "borrow_mut"), ("iter::Iterator", "by_ref"))
def t_mutident(eng, st, callee, args):
    b = eng.prog.bodies.get(callee.get("key"))
    if b is not None and b.local and not b.raw.get("derived"):
        return None
    return [(st, args[0])]


@tr(("convert::Into", "into"), ("convert::From", "from"))
def t_into(eng, st, callee, args):
    ta = callee.get("targs") or []
    src, dst = (ta[0], ta[-1]) if callee["method"] == "into" else (ta[-1], ta[0])
    strs = is_str_ty(src) or src.startswith("impl ") or src in ("char",)
    if src == dst:
        return [(st, args[0])]
    if is_str_ty(dst) and strs:
        return [(st, eng.deref(st, args[0]))]
    if callee["method"] == "into":
        key = "<%s as std::convert::From<%s>>::from" % (dst, src)
        b = eng.prog.bodies.get(key)
        if b is not None:
            return eng.enter(st, b, args, callee)
    if dst.startswith("std::boxed::Box<dyn") or dst.startswith("std::vec::Vec<") or dst.startswith("std::boxed::Box<str"):
        return [(st, eng.deref(st, args[0]))]
    if src in TYRANGE and dst in TYRANGE:
        return [(st, eng.cast(st, "IntToInt", args[0], dst, src))]
    if dst == "std::option::Option<%s>" % src:
        return [(st, some(args[0]))]
    return None


@tr(("convert::TryInto", "try_into"), ("convert::TryFrom", "try_from"))
def t_tryinto(eng, st, callee, args):
    ta = callee.get("targs") or []
    src, dst = (ta[0], ta[-1]) if callee["method"] == "try_into" else (ta[-1], ta[0])
    if src in TYRANGE and dst in TYRANGE:
        v = eng.deref(st, args[0])
        r = TYRANGE[dst]
        out = []
        s2 = st.clone()
        if eng.narrow(s2, v, (r,), src):
            out.append((s2, ok(v)))
        if eng.narrow(st, v, rs_not((r,)), src):
            out.append((st, err(mk("tryfromint", v))))
        return out
    if callee["method"] == "try_into":
        b = eng.prog.bodies.get("<%s as std::convert::TryFrom<%s>>::try_from" % (dst, src))
        if b is not None:
            return eng.enter(st, b, args, callee)
    return None


@tr(("default::Default", "default"))
def t_default(eng, st, callee, args):
    ty = (callee.get("targs") or ["?"])[0]
    b = eng.prog.bodies.get(callee.get("key"))
    if b is not None and (b.local or not ty.startswith(("std::vec::Vec<", "std::string::String"))):
        return None
    if ty.startswith("std::vec::Vec<"):
        return [(st, new_vec(eng, st, ty[len("std::vec::Vec<"):-1]))]
    v = default_of(eng, st, ty)
    return None if v is None else [(st, v)]


@tr(("string::ToString", "to_string"), ("string::SpecToString", "spec_to_string"))
def t_tostring(eng, st, callee, args):
    ty = (callee.get("targs") or ["?"])[0]
    v = eng.deref(st, args[0])
    r = eng.client.display(eng, st, v, ty)
    if r is not None:
        return r
    return [(st, disp(eng, st, v, ty))]


@tr(("cmp::PartialEq", "eq"), ("cmp::PartialEq", "ne"))
def t_eq(eng, st, callee, args):
    ta = callee.get("targs") or ["?"]
    x, y = eng.deref(st, args[0]), eng.deref(st, args[1])
    ne = callee["method"] == "ne"
    r = None
    if x is y and not ta[0].lstrip("&").startswith("f"):
        r = TRUE
    elif all(is_str_ty(t) for t in ta[:2]) or x.k == "s" or y.k == "s":
        if x.k == "A" and x.a[0] == COW:
            x = x.a[2][0]
        if y.k == "A" and y.a[0] == COW:
            y = y.a[2][0]
        r = eng.eq(st, x, y, "str")
        t = eng.truth(st, r)
        if t is not None:
            r = I(int(t))
    elif ta[0].lstrip("&") in TYRANGE:
        r = eng.eq(st, x, y, ta[0].lstrip("&"))
    elif ta[0].startswith("std::vec::Vec<") or ta[0].startswith("["):
        r = eng.eqseq(st, x, y) or mk("eq", x, y, "seq")
    if r is None:
        return None
    return [(st, eng.b_not(r) if ne else r)]


@tr(("cmp::Ord", "cmp"), ("cmp::PartialOrd", "partial_cmp"))
def t_cmp(eng, st, callee, args):
    x, y = eng.deref(st, args[0]), eng.deref(st, args[1])
    return [(st, mk("call", "cmp", (x, y)))]


@tr(("iter::IntoIterator", "into_iter"))
def t_into_iter(eng, st, callee, args):
    ty = (callee.get("targs") or ["?"])[0]
    v = args[0]
    b = eng.prog.bodies.get(callee.get("key"))
    if b is not None and b.local:
        return None
    d = eng.deref(st, v)
    if d.k == "A" and d.a[0].startswith("protox"):
        return [(st, v)]
    return [(st, into_iter(eng, st, v))]


@tr(("iter::Iterator", "next"))
def t_next(eng, st, callee, args):
    b = eng.prog.bodies.get(callee.get("key"))
    if b is not None and b.local:
        return None
    v = args[0]
    d = eng.deref(st, v)
    if d.k == "A" and d.a[0] == "std::ops::Range":
        d = it("range", d.a[2][0], d.a[2][1])
    if d.k != "it":
        return None
    if d.a[0] == "range":
        return advance(eng, st, d, ("next_range", v))
    return advance(eng, st, d, ("next", v))


def i_next_range(eng, st, k, itn, val):
    ref = k[1]
    cur = eng.deref(st, ref)
    if cur.k == "A":
        setref(eng, st, ref, A("std::ops::Range", 0, (itn.a[1], itn.a[2])))
    else:
        setref(eng, st, ref, itn)
    return [(st, val)]


def adaptor(kind):
    def h(eng, st, callee, args):
        src = into_iter(eng, st, args[0]) if args[0].k != "R" else args[0]
        return [(st, it(kind, src, *args[1:]))]
    return h


for _k, _n in (("map", "map"), ("filter", "filter"), ("filter_map", "filter_map"), ("take_while", "take_while")):
    TR[("iter::Iterator", _n)] = adaptor(_k)


@tr(("iter::Iterator", "cloned"), ("iter::Iterator", "copied"), ("iter::Iterator", "fuse"))
def t_cloned(eng, st, callee, args):
    return [(st, args[0])]


@tr(("iter::Iterator", "rev"))
def t_rev(eng, st, callee, args):
    v = args[0]
    eng.client.event(eng, st, "rev", v)
    if v.k == "it" and v.a[0] == "arr":
        return [(st, it("arr", tuple(reversed(v.a[1][v.a[2]:])), 0))]
    if v.k == "A" and v.a[0] == "std::ops::Range":
        return [(st, mkrange(*v.a[2]))]
    return [(st, v)]


@tr(("iter::Iterator", "enumerate"))
def t_enum(eng, st, callee, args):
    return [(st, it("enum", args[0], I(0)))]


@tr(("iter::Iterator", "peekable"))
def t_peekable(eng, st, callee, args):
    return [(st, it("peek", args[0], NONE))]


@fn("iter::Peekable::peek")
def f_peek(eng, st, callee, args):
    d = eng.deref(st, args[0])
    if d.k == "it" and d.a[0] == "peek":
        pk = d.a[2]
        if pk.a[1] == 1:
            return [(st, pk.a[2][0])]
        return advance(eng, st, d.a[1], ("peeked", args[0]))


@tr(("iter::Iterator", "chain"))
def t_chain(eng, st, callee, args):
    return [(st, it("chain", args[0], into_iter(eng, st, args[1])))]


@tr(("iter::Iterator", "zip"))
def t_zip(eng, st, callee, args):
    return [(st, it("zip", args[0], into_iter(eng, st, args[1])))]


@tr(("iter::Iterator", "flat_map"))
def t_flat_map(eng, st, callee, args):
    return [(st, it("flat", args[0], UNIT, args[1]))]


@tr(("iter::Iterator", "flatten"))
def t_flatten(eng, st, callee, args):
    return [(st, it("flat", args[0], UNIT, UNIT))]


@tr(("iter::Iterator", "skip"), ("iter::Iterator", "take"), ("iter::Iterator", "step_by"))
def t_skip(eng, st, callee, args):
    v, n = args[0], args[1]
    c = eng.const_of(st, n)
    if v.k == "it" and v.a[0] == "arr" and c is not None:
        el = v.a[1][v.a[2]:]
        if callee["method"] == "skip":
            el = el[c:]
        elif callee["method"] == "take":
            el = el[:c]
        else:
            el = el[::c]
        return [(st, it("arr", el, 0))]
    if v.k == "it" and v.a[0] == "sym" and callee["method"] == "skip":
        return [(st, it("sym", mk("slice", v.a[1], n, I(0))))]
    p = part_of(v, callee["method"], n)
    return [(st, p if p is not None else it("opaque", mk("part", v, callee["method"], n)))]


def part_of(v, how, n):
    """an iterator over part of what v goes through: the collection underneath becomes another one"""
    if v.k != "it":
        return None
    if v.a[0] == "sym":
        return it("sym", mk("part", v.a[1], how, n))
    if v.a[0] in ("map", "enum", "inspect") and v.a[1].k == "it":
        b = part_of(v.a[1], how, n)
        return None if b is None else it(v.a[0], b, *v.a[2:])
    return None


@fn("iter::once", "iter::sources::once::once")
def f_once(eng, st, callee, args):
    return [(st, it("arr", (args[0],), 0))]


def bounds(eng, st, t):
    if t.k == "i":
        return t.a[0], t.a[0]
    r = eng.rng(st, t, "usize")
    lo, hi = (r[0][0], r[-1][1]) if r else (0, INF)
    return lo, hi


def below(eng, st, ix, ln):
    """is index ix within a length ln?"""
    a, b = bounds(eng, st, ix), bounds(eng, st, ln)
    return True if a[1] < b[0] else False if a[0] >= b[1] else None


def in_bounds(eng, st, lo, hi, ln, nm):
    a, b, n = bounds(eng, st, lo), bounds(eng, st, hi), bounds(eng, st, ln)
    incl = 1 if "Inclusive" in nm else 0
    up = True if hi is ln or b[1] + incl <= n[0] else False if b[0] + incl > n[1] else None
    down = True if a[1] <= b[0] or lo is hi or (hi is ln and a[1] <= n[0]) else False if a[0] > b[1] else None
    return False if up is False or down is False else True if up and down else None


@fn("iter::empty")
def f_empty(eng, st, callee, args):
    return [(st, it("arr", (), 0))]


def consumer(kind, nf):
    def h(eng, st, callee, args):
        b = eng.prog.bodies.get(callee.get("key"))
        if b is not None and b.local:
            return None
        src = args[0]
        d = eng.deref(st, src)
        if src.k == "R" and d.k != "it":
            if d.k == "A" and d.a[0] == "std::ops::Range":
                src = mkrange(*d.a[2])
        if src.k == "A" and src.a[0] == "std::ops::Range":
            src = mkrange(*src.a[2])
        if d.k != "it" and src.k != "it" and not (src.k == "A" and src.a[0].startswith("protox")) and src.k != "R":
            return None
        ref = None
        aux = tuple(args[1:1 + nf])
        if kind == "count":
            aux = (I(0),)
        elif kind == "last":
            aux = (NONE,)
        elif kind == "fold":
            aux = (args[2], args[1])
        return consume(eng, st, kind, src, aux)
    return h


for _k in ("any", "all", "find", "position", "for_each", "find_map", "try_for_each"):
    TR[("iter::Iterator", _k)] = consumer(_k, 1)
TR[("iter::Iterator", "count")] = consumer("count", 0)
TR[("iter::Iterator", "last")] = consumer("last", 0)
TR[("iter::Iterator", "fold")] = consumer("fold", 2)


@tr(("iter::Iterator", "collect"))
def t_collect(eng, st, callee, args):
    ta = callee.get("targs") or ["?"]
    dst = ta[-1]
    src = args[0]
    if src.k not in ("it",):
        if callee["ik"] == "unresolved" or (src.k == "A" and src.a[0].startswith("protox")):
            return [(st, mk("call", "collect", (eng.deref(st, src),)))]
        return None
    if is_str_ty(dst):
        return consume(eng, st, "collect", src, ("str", S("")))
    if dst.startswith("std::result::Result<"):
        return consume(eng, st, "collect", src, ("result", A("vec", 0, ())))
    m = re.fullmatch(r"std::vec::Vec<(.*)>", dst)
    if m and eng.client.tracks(m.group(1)):
        root = ("H", "collect", site_id(st))
        st.heap[root] = new_vec(eng, st, m.group(1))
        return consume(eng, st, "collect_into", src, (mk("R", root, (), "&mut " + dst),))
    return consume(eng, st, "collect", src, ("vec", A("vec", 0, ())))


@tr(("iter::Extend", "extend"))
def t_extend(eng, st, callee, args):
    ta = callee.get("targs") or ["?"]
    src = into_iter(eng, st, args[1])
    mode = mk("mode", "str" if is_str_ty(ta[0]) else "vec")
    return consume(eng, st, "extend", src, (args[0], mode))


@tr(("ops::Index", "index"))
def t_index(eng, st, callee, args):
    b = eng.prog.bodies.get(callee.get("key"))
    if b is not None and b.local:
        return None
    v, ix = eng.deref(st, args[0]), args[1]
    return do_index(eng, st, v, ix)


def do_index(eng, st, v, ix):
    if ix.k == "A" and ix.a[0].startswith("std::ops::Range"):
        nm = ix.a[0].split("::")[-1]
        fs = ix.a[2]
        if nm == "RangeFull":
            return [(st, v)]
        ln = eng.length(st, v)
        lo = fs[0] if nm in ("RangeFrom", "Range", "RangeInclusive") else I(0)
        hi = fs[1] if nm in ("Range", "RangeInclusive") else fs[0] if nm in ("RangeTo", "RangeToInclusive") else ln
        eng.client.assert_(eng, st, "slice", (v, lo, hi, ln, nm), in_bounds(eng, st, lo, hi, ln, nm))
        if v.k == "s" and lo.k == "i" and hi.k == "i":
            return [(st, S(v.a[0].encode()[lo.a[0]:hi.a[0]].decode("utf8", "replace")))]
        if v.k == "A" and v.a[0] in ("array", "vec") and lo.k == "i" and hi.k == "i":
            return [(st, A("array", 0, v.a[2][lo.a[0]:hi.a[0]]))]
        if nm == "RangeFrom":
            return [(st, mk("slice", v, lo, I(0)))]
        return [(st, mk("sub", v, lo, hi))]
    eng.client.assert_(eng, st, "index", (v, ix, eng.length(st, v)), below(eng, st, ix, eng.length(st, v)))
    if v.k == "V" and len(v.a[1]) > 1:
        out = []
        for e in sorted(v.a[1], key=show):
            out.append((st.clone(), e))
        return out
    return [(st, eng.index(st, v, ix))]


@tr(("ops::IndexMut", "index_mut"))
def t_index_mut(eng, st, callee, args):
    b = eng.prog.bodies.get(callee.get("key"))
    if b is not None and b.local:
        return None
    r = args[0]
    if r.k != "R":
        return None
    v = eng.deref(st, r)
    eng.client.assert_(eng, st, "index", (v, args[1], eng.length(st, v)), below(eng, st, args[1], eng.length(st, v)))
    rr = r
    while True:
        cur = eng.load(st, rr.a[0], rr.a[1])
        if cur is not None and cur.k == "R":
            rr = cur
        else:
            break
    return [(st, mk("R", rr.a[0], rr.a[1] + (("ix", args[1]),), "elem"))]


@tr(("ops::FnOnce", "call_once"), ("ops::FnMut", "call_mut"), ("ops::Fn", "call"))
def t_call(eng, st, callee, args):
    if callee["ik"] in ("unresolved", "ClosureOnce", "FnPtr", "virtual") or callee.get("key") not in eng.prog.bodies:
        return eng.call_value(st, args[0], untuple(args[1]), None)
    return None


@tr(("ops::Add", "add"))
def t_add(eng, st, callee, args):
    ta = callee.get("targs") or ["?"]
    if is_str_ty(ta[0]):
        return [(st, cat(eng.deref(st, args[0]), eng.deref(st, args[1])))]
    return None


@tr(("ops::AddAssign", "add_assign"))
def t_addassign(eng, st, callee, args):
    ta = callee.get("targs") or ["?"]
    if is_str_ty(ta[0]):
        cur = eng.deref(st, args[0])
        setref(eng, st, args[0], cat(cur, eng.deref(st, args[1])))
        return [(st, UNIT)]
    return None


# ---- formatting ------------------------------------------------------------------------------------
@fn("fmt::rt::Argument::new_display", "fmt::rt::Argument::new_debug", "fmt::rt::Argument::new_octal",
    "fmt::rt::Argument::new_lower_hex", "fmt::rt::Argument::new_upper_hex", "fmt::rt::Argument::new_lower_exp")
def f_arg(eng, st, callee, args):
    kind = callee["path"].rsplit("::new_", 1)[1].split("::")[0]
    ty = targ_elem(callee)
    if ty is None:
        m = re.search(r"new_\w+::<(.*)>$", callee.get("key", ""))
        ty = m.group(1) if m else "?"
    v = eng.deref(st, args[0])
    if kind == "display":
        r = eng.client.display(eng, st, v, ty)
        if r is not None:
            return [(s2, x if x is PUSHED else mk("fmtarg", x, kind, ty)) for s2, x in r]
        return [(st, mk("fmtarg", disp(eng, st, v, ty), kind, ty))]
    return [(st, mk("fmtarg", v, kind, ty))]


@fn("fmt::Arguments::new")
def f_args(eng, st, callee, args):
    t = eng.deref(st, args[0])
    av = eng.deref(st, args[1])
    if t.k == "A" and t.a[0] == "array":
        t = mk("y", tuple(x.a[0] for x in t.a[2]))
    if t.k != "y" or av.k != "A":
        return None
    n = 0
    ps = []
    for x in parse_template(list(t.a[0])):
        if isinstance(x, str):
            ps.append(S(x))
        else:
            i = x[2] if x[2] is not None else n
            n = i + 1
            a = av.a[2][i]
            if a.k == "fmtarg" and a.a[1] == "display" and not x[1]:
                ps.append(a.a[0])
            elif a.k == "fmtarg":
                ps.append(mk("fmt", a.a[1], x[1], a.a[0], a.a[2]))
            else:
                ps.append(mk("fmt", "?", x[1], a, "?"))
    return [(st, mk("fmtargs", cat(*ps)))]


@fn("fmt::Arguments::from_str", "fmt::Arguments::from_str_nonconst")
def f_args_str(eng, st, callee, args):
    return [(st, mk("fmtargs", eng.deref(st, args[0])))]


@fn("fmt::format", "fmt::format::format_inner")
def f_format(eng, st, callee, args):
    a = args[0]
    return [(st, a.a[0] if a.k == "fmtargs" else mk("call", "format", (a,)))]


@fn("hint::must_use", "convert::identity", "hint::black_box")
def f_id(eng, st, callee, args):
    return [(st, args[0])]


@fn("fmt::Formatter::write_fmt", "fmt::Write::write_fmt", "fmt::Formatter::write_str", "fmt::Write::write_str", "fmt::Write::write_char",
    "io::Write::write_fmt")
def f_write(eng, st, callee, args):
    b = eng.prog.bodies.get(callee.get("key"))
    if b is not None and b.local:
        return None
    a = eng.deref(st, args[1])
    s = a.a[0] if a.k == "fmtargs" else a
    if callee["path"].endswith("write_char") and s.k != "i":
        s = mk("chr", s)
    return string_write(eng, st, args[0], s)


@tr(("fmt::Display", "fmt"))
def t_dispfmt(eng, st, callee, args):
    ty = (callee.get("targs") or ["?"])[0]
    b = eng.prog.bodies.get(callee.get("key"))
    v = eng.deref(st, args[0])
    if b is not None and b.local and not is_str_ty(ty):
        r = eng.client.display(eng, st, v, ty)
        if r is None:
            return None
        out = []
        for s2, x in r:
            out += string_write(eng, s2, args[1], x)
        return out
    return string_write(eng, st, args[1], disp(eng, st, v, ty))


# ---- boxes / vec! ------------------------------------------------------------------------------------
@fn("boxed::Box::new_uninit")
def f_uninit(eng, st, callee, args):
    cell = ("H", "box", site_id(st)[-2:])
    st.heap[cell] = UNDEF
    return [(st, mk("R", cell, (), "box"))]


@fn("boxed::box_assume_init_into_vec_unsafe", "boxed::Box::assume_init", "slice::into_vec")
def f_assume(eng, st, callee, args):
    v = args[0]
    if v.k == "R":
        d = eng.load(st, v.a[0], v.a[1])
        if v.a[0][0] == "H":
            st.heap.pop(v.a[0], None)
        v = d
    if v.k == "A" and v.a[0] == "array":
        v = A("vec", 0, v.a[2])
    return [(st, v)]


@fn("boxed::Box::new", "boxed::Box::pin", "sync::Arc::new", "rc::Rc::new", "boxed::Box::into_inner", "mem::ManuallyDrop::new",
    "vec::Vec::as_slice", "string::String::as_str", "vec::Vec::into_boxed_slice", "string::String::as_bytes", "str::as_bytes",
    "string::String::into_bytes", "string::String::into_boxed_str", "slice::to_vec", "slice::iter::as_slice", "str::trim_end_matches_id",
    "path::Path::to_path_buf", "path::PathBuf::as_path", "path::PathBuf::into_boxed_path", "option::Option::as_deref_id", "str::to_string_id", "borrow::Cow::into_owned")
def f_ident(eng, st, callee, args):
    v = args[0]
    if v.k == "R" and not callee["path"].endswith("Box::<T>::new"):
        v = eng.deref(st, v)
    if v.k == "A" and v.a[0] == COW:
        v = v.a[2][0]
    elif callee["path"].endswith("into_owned") and v.k not in ("s", "cat"):
        # Borrowed / Owned both denote the same text
        v = v
    return [(st, v)]


@fn("borrow::Cow::to_mut")
def f_tomut(eng, st, callee, args):
    r = args[0]
    v = eng.deref(st, r)
    if v.k == "A" and v.a[0] == COW:
        setref(eng, st, r, A(COW, 1, v.a[2]))
        rr = r
        while True:
            cur = eng.load(st, rr.a[0], rr.a[1])
            if cur is not None and cur.k == "R":
                rr = cur
            else:
                break
        return [(st, mk("R", rr.a[0], rr.a[1] + (("std::borrow::Cow", 1, 0),), "String"))]
    return [(st, r)]


# ---- Vec / slice -----------------------------------------------------------------------------------
@fn("vec::Vec::new", "vec::Vec::with_capacity")
def f_vnew(eng, st, callee, args):
    return [(st, new_vec(eng, st, targ_elem(callee)))]


@fn("vec::Vec::reserve", "vec::Vec::reserve_exact", "vec::Vec::shrink_to_fit", "vec::Vec::shrink_to", "string::String::reserve",
    "string::String::reserve_exact", "string::String::shrink_to_fit", "string::String::shrink_to", "collections::VecDeque::reserve",
    "collections::VecDeque::shrink_to_fit")
def f_reserve(eng, st, callee, args):
    return [(st, UNIT)]


@fn("vec::Vec::push", "collections::VecDeque::push_back")
def f_vpush(eng, st, callee, args):
    return vpush(eng, st, args[0], args[1], targ_elem(callee))


@fn("vec::Vec::pop")
def f_vpop(eng, st, callee, args):
    return vpop(eng, st, args[0])


@fn("vec::Vec::len", "slice::len", "str::len", "string::String::len")
def f_len(eng, st, callee, args):
    v = eng.deref(st, args[0])
    return [(st, eng.length(st, v))]


def nonempty(eng, v):
    if v.k == "s":
        return bool(v.a[0])
    if v.k in ("cat", "rep"):
        return any(nonempty(eng, p) for p in v.a[0])
    return v.k == "disp" and eng.client.nonempty(v)


@fn("vec::Vec::is_empty", "slice::is_empty", "str::is_empty", "string::String::is_empty")
def f_isempty(eng, st, callee, args):
    v = eng.deref(st, args[0])
    if nonempty(eng, v):
        return [(st, FALSE)]
    if "str" in callee["path"].split("::")[1] or "str::" in callee["path"]:
        if v.k not in ("s", "cat"):
            return [(st, eng.eq(st, v, S(""), "str"))]
    return [(st, eng.eq(st, eng.length(st, v), I(0), "usize"))]


@fn("vec::Vec::extend_from_slice")
def f_extslice(eng, st, callee, args):
    src = into_iter(eng, st, eng.deref(st, args[1]))
    if src.k == "it" and src.a[0] == "arr":
        for e in src.a[1]:
            vpush(eng, st, args[0], e)
        return [(st, UNIT)]
    return consume(eng, st, "extend", src, (args[0], mk("mode", "vec")))


@fn("vec::Vec::append")
def f_append(eng, st, callee, args):
    src = into_iter(eng, st, eng.deref(st, args[1]))
    setref(eng, st, args[1], A("vec", 0, ()))
    return consume(eng, st, "extend", src, (args[0], mk("mode", "vec")))


@fn("vec::Vec::truncate", "string::String::truncate")
def f_trunc(eng, st, callee, args):
    v = eng.deref(st, args[0])
    c = eng.const_of(st, args[1])
    if v.k == "A" and v.a[0] == "vec":
        if eng.client.length(eng, st, v) is not None:
            c = eng.client.place(eng, st, v, args[1]) if c is None else c
            if c is None or c > 0 and args[1].k == "i":
                setref(eng, st, args[0], A("vec", 0, (mk("trunc", v, args[1]),)))
                return [(st, UNIT)]
    if v.k == "A" and v.a[0] == "vec" and c is not None:
        setref(eng, st, args[0], A("vec", 0, v.a[2][:c]))
    elif v.k == "V":
        ln = mk("len", v.a[0])
        fresh(eng, st, [ln])
    elif v.k == "s" and c is not None:
        setref(eng, st, args[0], S(v.a[0].encode()[:c].decode("utf8", "replace")))
    else:
        setref(eng, st, args[0], mk("trunc", v, args[1]))
    return [(st, UNIT)]


@fn("vec::Vec::clear", "string::String::clear")
def f_clear(eng, st, callee, args):
    v = eng.deref(st, args[0])
    if "String" in callee["path"]:
        setref(eng, st, args[0], S(""))
    else:
        setref(eng, st, args[0], new_vec(eng, st, targ_elem(callee)))
    return [(st, UNIT)]


@fn("vec::Vec::resize")
def f_resize(eng, st, callee, args):
    v = eng.deref(st, args[0])
    v = as_V(eng, st, v)
    ln = mk("len", v.a[0])
    fresh(eng, st, [ln])
    if eng.client.event(eng, st, "resize", v.a[0], args[1], args[2]) is not True:
        v = mk("V", v.a[0], v.a[1] | {args[2]})
    setref(eng, st, args[0], v)
    return [(st, UNIT)]


@fn("vec::Vec::remove", "vec::Vec::swap_remove")
def f_remove(eng, st, callee, args):
    v = eng.deref(st, args[0])
    ix = args[1]
    swap = "swap" in callee["path"]
    if v.k == "A" and v.a[0] == "vec":
        c = eng.const_of(st, ix)
        if c is not None and c < len(v.a[2]):
            rest = list(v.a[2][:c] + v.a[2][c + 1:])
            if swap and c < len(rest):
                rest.insert(c, rest.pop())
            setref(eng, st, args[0], A("vec", 0, rest))
            return [(st, v.a[2][c])]
    eng.client.assert_(eng, st, "index", (v, ix, eng.length(st, v)), below(eng, st, ix, eng.length(st, v)))
    if ix.k == "pos" and ix.a[0] is v:
        e = elem_of(v)
    else:
        e = mk("at", v, ix)
    if v.k == "V":
        out = []
        for x in sorted(v.a[1], key=show):
            s2 = st.clone()
            fresh(eng, s2, [mk("len", v.a[0])])
            out.append((s2, x))
        return out
    setref(eng, st, args[0], mk("swapped" if swap else "without", v, e))
    return [(st, e)]


@fn("vec::Vec::insert")
def f_insert(eng, st, callee, args):
    eng.client.event(eng, st, "insert", eng.deref(st, args[0]), args[1], args[2])
    return vpush(eng, st, args[0], args[2])


def range_ends(rg):
    """(start, end) of a half-open range value, None for an absent end"""
    nm = rg.a[0].split("::")[-1] if rg.k == "A" else ""
    if nm == "Range":
        return rg.a[2][0], rg.a[2][1]
    if nm == "RangeFrom":
        return rg.a[2][0], None
    if nm == "RangeTo":
        return None, rg.a[2][0]
    raise Unsupported("range %s" % nm)


@fn("slice::iter", "vec::Vec::iter", "slice::iter_mut", "vec::Vec::drain")
def f_iter(eng, st, callee, args):
    v = eng.deref(st, args[0])
    if callee["path"].endswith("drain") and args[0].k == "R":
        rg = args[1]
        if rg.k != "A" or not rg.a[0].endswith("RangeFull"):
            los, his = range_ends(rg)
            at = (lambda x: eng.client.place(eng, st, v, x)) if v.k == "A" and v.a[0] == "vec" else (lambda x: eng.const_of(st, x))
            lo, hi = at(los) if los is not None else 0, at(his) if his is not None else None
            if v.k == "A" and v.a[0] == "vec" and lo is not None and (his is None or hi is not None):
                n = len(v.a[2]) if hi is None else hi
                if lo <= n <= len(v.a[2]):
                    setref(eng, st, args[0], A("vec", 0, v.a[2][:lo] + v.a[2][n:]))
                    return [(st, into_iter(eng, st, A("vec", 0, v.a[2][lo:n])))]
            raise Unsupported("part of a list is drained")
        setref(eng, st, args[0], A("vec", 0, ()))
    return [(st, into_iter(eng, st, v))]


@fn("slice::first", "slice::last")
def f_first(eng, st, callee, args):
    v = eng.deref(st, args[0])
    last = npath(callee["path"]).endswith("last")
    if v.k == "A" and v.a[0] in ("array", "vec"):
        if not v.a[2]:
            return [(st, NONE)]
        return [(st, some(v.a[2][-1 if last else 0]))]
    if v.k == "V":
        e = eng.client.lastelem(st, v) if last else None
        if e is not None:
            return [(st, some(e) if e is not NONE else NONE)]
        out = []
        s2 = st.clone()
        ln = mk("len", v.a[0])
        if eng.narrow(s2, ln, ((0, 0),)):
            out.append((s2, NONE))
        if eng.narrow(st, ln, ((1, INF),)):
            for e in sorted(v.a[1], key=show) or [mk("at", v, mk("fromend", I(1)) if last else I(0))]:
                out.append((st.clone(), some(e)))
        return out
    ln = mk("len", v)
    out = []
    s2 = st.clone()
    if eng.narrow(s2, ln, ((0, 0),)):
        out.append((s2, NONE))
    if eng.narrow(st, ln, ((1, INF),)):
        out.append((st, some(mk("at", v, mk("fromend", I(1))) if last else eng.index(st, v, I(0)))))
    return out


@fn("slice::first_mut", "slice::last_mut")
def f_lastmut(eng, st, callee, args):
    r = args[0]
    if r.k != "R":
        return None
    v = eng.deref(st, r)
    last = npath(callee["path"]).endswith("last_mut")
    if v.k == "A" and v.a[0] in ("array", "vec"):
        if not v.a[2]:
            return [(st, NONE)]
        ix = I(len(v.a[2]) - 1 if last else 0)
        return [(st, some(mk("R", r.a[0], r.a[1] + (("ix", ix),), "elem")))]
    if last and v.k == "V" and eng.client.lastelem(st, v) not in (None, NONE):
        return [(st, some(mk("R", r.a[0], r.a[1] + (("ix", mk("fromend", I(1))),), "elem")))]
    ln = eng.length(st, v)
    out = []
    s2 = st.clone()
    if eng.narrow(s2, ln, ((0, 0),)):
        out.append((s2, NONE))
    if eng.narrow(st, ln, ((1, INF),)):
        out.append((st, some(mk("R", r.a[0], r.a[1] + (("ix", mk("fromend", I(1)) if last else I(0)),), "elem"))))
    return out


@fn("slice::get", "str::get")
def f_get(eng, st, callee, args):
    v = eng.deref(st, args[0])
    ix = args[1]
    if ix.k == "A":
        return [(st, mk("call", "get", (v, ix)))]
    ln = eng.length(st, v)
    b = eng.lt(st, ix, ln, "usize")
    out = []
    for s2, t in branch(eng, st, b):
        out.append((s2, some(eng.index(s2, v, ix)) if t else NONE))
    return out


@fn("slice::contains")
def f_contains(eng, st, callee, args):
    v, x = eng.deref(st, args[0]), eng.deref(st, args[1])
    if v.k == "A" and v.a[0] in ("array", "vec"):
        vals = []
        for e in v.a[2]:
            e = eng.deref(st, e)
            c = e.a[0] if e.k in ("i", "s") else None
            if c is None:
                vals = None
                break
            vals.append(c)
        if vals is not None:
            if x.k in ("i", "s"):
                return [(st, I(int(x.a[0] in vals)))]
            if all(isinstance(c, int) for c in vals):
                return [(st, range_pred(eng, st, x, [(c, c) for c in sorted(vals)], "u8"))]
            b = FALSE
            for c in vals:
                e = eng.eq(st, x, S(c), "str")
                b = e if b is FALSE else mk("or", b, e)
            return [(st, b)]
        # any other elements are compared one by one
        out, cur = [], [st]
        for e in v.a[2]:
            e = eng.deref(st, e)
            nxt = []
            for s in cur:
                r = eq_struct(eng, s, x, e)
                if r is None:
                    nxt = None
                    break
                for s2, b in r:
                    (out if b else nxt).append(s2)
            if nxt is None:
                return [(st, mk("pred", "contains", v, x))]
            cur = nxt
        return [(s, TRUE) for s in out] + [(s, FALSE) for s in cur]
    return [(st, mk("pred", "contains", v, x))]


def eq_struct(eng, st, x, e):
    """x == e for a constant e of an enum or scalar type: list of (state, bool), None if not known"""
    if x is e:
        return [(st, True)]
    if e.k in ("i", "s"):
        b = eng.eq(st, x, e, "str" if e.k == "s" else "i128")
        t = eng.truth(st, b)
        if t is not None:
            return [(st, t)]
        s2 = st.clone()
        out = []
        if eng.assume(st, b, True):
            out.append((st, True))
        if eng.assume(s2, b, False):
            out.append((s2, False))
        return out
    if e.k == "A" and e.a[0] in eng.prog.adt_path:
        ad = eng.prog.adt_path[e.a[0]]
        if x.k == "A":
            if x.a[0] != e.a[0]:
                return None
            if x.a[1] != e.a[1]:
                return [(st, False)]
            cur = [st]
            out = []
        else:
            out, cur = [], [st]
            if ad["kind"].lower() == "enum":
                d = int(ad["variants"][e.a[1]]["discr"])
                t = mk("discr", x, e.a[0])
                s2 = st.clone()
                if eng.narrow(s2, t, rs_not(((d, d),))):
                    out.append((s2, False))
                if not eng.narrow(st, t, ((d, d),)):
                    return out
        for i, pe in enumerate(e.a[2]):
            nxt = []
            for s in cur:
                r = eq_struct(eng, s, field(x, e.a[1], i), eng.deref(s, pe))
                if r is None:
                    return None
                for s2, b in r:
                    if b:
                        nxt.append(s2)
                    else:
                        out.append((s2, False))
            cur = nxt
        return out + [(s, True) for s in cur]
    return None


@fn("slice::binary_search", "slice::binary_search_by", "slice::binary_search_by_key", "slice::partition_point")
def f_bsearch(eng, st, callee, args):
    return [(st, mk("call", npath(callee["path"]), tuple(eng.deref(st, a) for a in args)))]


@fn("slice::sort", "slice::sort_by", "slice::sort_by_key", "slice::sort_unstable", "slice::sort_unstable_by", "slice::sort_unstable_by_key",
    "slice::reverse", "vec::Vec::dedup", "slice::sort_by_cached_key")
def f_sort(eng, st, callee, args):
    eng.client.event(eng, st, "sort", npath(callee["path"]), eng.deref(st, args[0]), args[1:])
    return [(st, UNIT)]


# ---- strings ---------------------------------------------------------------------------------------
@fn("string::String::new", "string::String::with_capacity")
def f_snew(eng, st, callee, args):
    return [(st, S(""))]


@fn("string::String::push_str", "string::String::push")
def f_spush(eng, st, callee, args):
    cur = eng.deref(st, args[0])
    x = eng.deref(st, args[1])
    if callee["path"].endswith("::push") and x.k != "i":
        x = mk("chr", x)
    setref(eng, st, args[0], cat(cur, x))
    return [(st, UNIT)]


@fn("str::starts_with", "str::ends_with", "str::contains")
def f_starts(eng, st, callee, args):
    v, x = eng.deref(st, args[0]), eng.deref(st, args[1])
    nm = npath(callee["path"]).split("::")[-1]
    if x.k == "i":
        x = S(chr(x.a[0]))
    if v.k == "s" and x.k == "s":
        a, b = v.a[0], x.a[0]
        return [(st, I(int(a.startswith(b) if nm == "starts_with" else a.endswith(b) if nm == "ends_with" else b in a)))]
    if x.k == "A" and x.a[0].startswith("closure:"):
        return None
    return [(st, mk("pred", nm, v, x))]


@fn("str::strip_prefix", "str::strip_suffix")
def f_strip(eng, st, callee, args):
    v, x = eng.deref(st, args[0]), eng.deref(st, args[1])
    nm = npath(callee["path"]).split("::")[-1]
    if x.k == "i":
        x = S(chr(x.a[0]))
    b = mk("pred", "starts_with" if nm == "strip_prefix" else "ends_with", v, x)
    out = []
    for s2, t in branch(eng, st, b):
        out.append((s2, some(mk("stripped", v, x)) if t else NONE))
    return out


def strfun(nm):
    def h(eng, st, callee, args):
        vs = [eng.deref(st, a) for a in args]
        if vs[0].k == "s" and len(vs) == 1:
            s = vs[0].a[0]
            f = {"to_ascii_lowercase": lambda: asc(s, False), "to_ascii_uppercase": lambda: asc(s, True), "trim": s.strip,
                 "to_lowercase": s.lower, "to_uppercase": s.upper,
                 "trim_start": s.lstrip, "trim_end": s.rstrip}.get(nm)
            if f:
                return [(st, S(f()))]
        return [(st, mk("sfn", nm, *vs))]
    return h


def asc(s, up):
    return "".join((c.upper() if up else c.lower()) if c.isascii() else c for c in s)


for _n in ("to_ascii_lowercase", "to_ascii_uppercase", "to_lowercase", "to_uppercase", "trim", "trim_start", "trim_end", "replace",
           "trim_matches", "trim_start_matches", "trim_end_matches"):
    FN["str::" + _n] = strfun(_n)


@fn("str::make_ascii_lowercase", "str::make_ascii_uppercase")
def f_makelower(eng, st, callee, args):
    nm = "to" + npath(callee["path"]).split("::")[-1][4:]
    v = eng.deref(st, args[0])
    if v.k == "s":
        v = S(asc(v.a[0], nm.endswith("upper") or nm.endswith("uppercase")))
    else:
        v = mk("sfn", nm, v)
    setref(eng, st, args[0], v)
    return [(st, UNIT)]


@fn("str::chars", "str::bytes", "str::split", "str::match_indices", "str::lines", "str::char_indices", "str::split_whitespace",
    "str::rsplit", "str::splitn", "str::matches")
def f_chars(eng, st, callee, args):
    nm = npath(callee["path"]).split("::")[-1]
    vs = [eng.deref(st, a) for a in args]
    if vs[0].k == "s":
        s = vs[0].a[0]
        if nm == "chars":
            return [(st, it("arr", tuple(I(ord(c)) for c in s), 0))]
        if nm == "bytes":
            return [(st, it("arr", tuple(I(c) for c in s.encode()), 0))]
        if nm == "split" and vs[1].k in ("s", "i"):
            sep = vs[1].a[0] if vs[1].k == "s" else chr(vs[1].a[0])
            return [(st, it("arr", tuple(S(x) for x in s.split(sep)), 0))]
    return [(st, it("sym", mk(nm, *vs)))]


@fn("string::String::from_utf8", "str::from_utf8", "str::converts::from_utf8")
def f_fromutf8(eng, st, callee, args):
    v = eng.deref(st, args[0])
    b = mk("pred", "utf8", v)
    out = []
    for s2, t in branch(eng, st, b):
        out.append((s2, ok(mk("utf8", v)) if t else err(mk("utf8err", v))))
    return out


@fn("string::String::from_utf8_lossy", "string::String::from_utf8_lossy_owned")
def f_lossy(eng, st, callee, args):
    return [(st, A(COW, 1, (mk("lossy", eng.deref(st, args[0])),)))]


# ---- numbers / chars -------------------------------------------------------------------------------
def fam_pred(nm):
    def h(eng, st, callee, args):
        ty = "u8" if "u8" in callee["path"] else "char"
        v = eng.deref(st, args[0])
        return [(st, range_pred(eng, st, v, CHARSETS[nm], ty))]
    return h


for _n in CHARSETS:
    for _p in ("num::", "char::methods::", "char::"):
        FN[_p + _n] = fam_pred(_n)


@fn("num::checked_sub", "num::checked_add", "num::checked_mul", "num::checked_neg")
def f_checked(eng, st, callee, args):
    m = re.search(r"<impl (\w+)>", callee["path"])
    ty = m.group(1)
    op = npath(callee["path"]).split("_")[-1].capitalize()
    if op == "Neg":
        r = eng.binop(st, "SubWithOverflow", I(0), args[0], ty)
    else:
        r = eng.binop(st, op + "WithOverflow", args[0], args[1], ty)
    out = []
    for s2, t in branch(eng, st, r.a[2][1]):
        out.append((s2, NONE if t else some(r.a[2][0])))
    return out


@fn("num::saturating_sub", "num::saturating_add", "num::wrapping_add", "num::wrapping_sub", "num::wrapping_neg", "num::wrapping_mul",
    "cmp::Ord::min", "cmp::Ord::max", "cmp::min", "cmp::max", "num::abs", "num::unsigned_abs", "num::pow")
def f_arith(eng, st, callee, args):
    nm = npath(callee["path"]).split("::")[-1]
    vs = [eng.deref(st, a) for a in args]
    m = re.search(r"<impl (\w+)>", callee["path"])
    ty = m.group(1) if m else None
    if all(v.k == "i" for v in vs):
        a = [v.a[0] for v in vs]
        r = {"saturating_sub": lambda: a[0] - a[1], "saturating_add": lambda: a[0] + a[1], "wrapping_add": lambda: a[0] + a[1],
             "wrapping_sub": lambda: a[0] - a[1], "min": lambda: min(a), "max": lambda: max(a), "abs": lambda: abs(a[0]),
             "wrapping_neg": lambda: -a[0], "wrapping_mul": lambda: a[0] * a[1], "unsigned_abs": lambda: abs(a[0]),
             "pow": lambda: a[0] ** a[1]}[nm]()
        t = TYRANGE.get(ty)
        if t and not t[0] <= r <= t[1]:
            if nm.startswith("sat"):
                r = min(max(r, t[0]), t[1])
            else:
                r = (r - t[0]) % (t[1] - t[0] + 1) + t[0]
        return [(st, I(r))]
    b = eng.prog.bodies.get(callee.get("key"))
    if b is not None and b.local:
        return None
    return [(st, mk("num", nm, ty, *vs))]


@fn("intrinsics::discriminant_value")
def f_discr(eng, st, callee, args):
    v = eng.deref(st, args[0])
    ty = targ_elem(callee) or "?"
    a = eng.prog.adts.get(ty)
    return [(st, eng.discr(st, v, a["path"] if a else ty))]


@fn("mem::take")
def f_take(eng, st, callee, args):
    ty = targ_elem(callee) or "?"
    v = eng.load(st, args[0].a[0], args[0].a[1]) if args[0].k == "R" else args[0]
    if ty.startswith("std::vec::Vec<"):
        d = new_vec(eng, st, ty[len("std::vec::Vec<"):-1])
    else:
        d = default_of(eng, st, ty)
        if d is None:
            return None
    if args[0].k == "R":
        eng.store(st, args[0].a[0], args[0].a[1], d)
    return [(st, v if v is not None else UNDEF)]


@fn("mem::replace")
def f_replace(eng, st, callee, args):
    if args[0].k != "R":
        return None
    v = eng.load(st, args[0].a[0], args[0].a[1])
    eng.store(st, args[0].a[0], args[0].a[1], args[1])
    return [(st, v if v is not None else UNDEF)]


@fn("mem::drop", "mem::forget", "ptr::drop_in_place")
def f_drop(eng, st, callee, args):
    return [(st, UNIT)]


@fn("option::Option::take")
def f_otake(eng, st, callee, args):
    if args[0].k != "R":
        return None
    v = eng.deref(st, args[0])
    setref(eng, st, args[0], NONE)
    return [(st, v)]


@fn("option::Option::as_ref", "option::Option::as_deref", "option::Option::cloned", "option::Option::copied", "result::Result::as_ref")
def f_oasref(eng, st, callee, args):
    return [(st, eng.deref(st, args[0]))]


@fn("option::Option::as_mut", "option::Option::as_deref_mut")
def f_oasmut(eng, st, callee, args):
    r = args[0]
    if r.k != "R":
        return None
    v = eng.deref(st, r)
    ty = "std::option::Option<%s>" % (targ_elem(callee) or "?")
    if v.k == "A" and v.a[0] == OPT:
        if v.a[1] == 0:
            return [(st, NONE)]
        return [(st, some(mk("R", r.a[0], r.a[1] + ((ty, 1, 0),), "opt")))]
    out = []
    d = mk("discr", v, OPT)
    s2 = st.clone()
    if eng.narrow(s2, d, ((0, 0),)):
        out.append((s2, NONE))
    if eng.narrow(st, d, ((1, 1),)):
        setref(eng, st, r, some(field(v, 1, 0)))
        out.append((st, some(mk("R", r.a[0], r.a[1] + ((ty, 1, 0),), "opt"))))
    return out
