"""Purity: what the code takes from its surroundings besides its arguments, and what it leaves behind.

Every reference to a function in the MIR of every function of a crate is classified by the path of the function referred to; every
static of the crate and every cast of a pointer to an integer is looked at as well.  Other crates (logos, prost, miette, bytes,
prost-reflect) are trusted not to look at anything but their arguments."""
import re
from compilespec import bare, Rep
import models as M

S = r"(?:std|core|alloc)::"
DENY = [
    ("environment", S + r"env::(?!join_paths|split_paths|consts)", "reads the environment of the process"),
    ("network", S + r"net::(?!Ip|Socket|Addr)", "uses the network"),
    ("process", S + r"process::(?!ExitCode|Termination)", "controls processes"),
    ("clock", S + r"time::(?:SystemTime|Instant)\b|\b(?:SystemTime|Instant)::(?:now|elapsed|duration_since)", "reads a clock"),
    ("thread", S + r"thread::", "depends on the running thread"),
    ("system", S + r"os::(?!raw)", "uses the operating system"),
    ("random", S + r"(?:random\b|hash::random::|hash::RandomState)|\bgetrandom::|\brand::|hash::BuildHasher.*::(?:hash_one|build_hasher)|RandomState.*::(?:new|hash_one|build_hasher)", "uses random numbers"),
    ("terminal", S + r"io::(?:stdio::)?(?:stdin|stdout|stderr|_print|_eprint|print|read_to_string)\b", "uses the terminal"),
    ("atomics", S + r"sync::atomic::|\bAtomic(?:Usize|Isize|Bool|U\d+|I\d+|Ptr)\b", "uses shared counters"),
    ("address", r"\bfmt::Pointer\b|Argument.*::new_pointer|ptr::.*::(?:addr|expose_provenance|expose_addr)$", "uses addresses of objects"),
]
FS = S + r"fs::"
FSREAD = re.compile(S + r"fs::(?:File.*::(?:open|metadata|try_clone)|OpenOptions|Metadata.*|FileType.*|metadata|symlink_metadata|read|read_to_string|canonicalize|exists|try_exists|read_link)(?:$|\b)")
PATHFS = re.compile(S + r"path::Path(?:Buf)?.*::(?:exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_dir|read_link)$")
READDIR = re.compile(r"(?:fs|Path(?:Buf)?.*)::read_dir$")
HASHED = r"(?:hash_map|hash_set|HashMap|HashSet|IndexMapFallback)"
HASHITER = re.compile(r"\bHash(?:Map|Set)(?:<.*>)?::(?:iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|union|intersection|difference|symmetric_difference)$"
                      r"|<&?(?:'\w+ )?(?:mut )?" + S + r"collections::(?:hash::\w+::|hash_\w+::)?Hash(?:Map|Set)<.*> as " + S + r"iter::(?:traits::\w+::)?IntoIterator>::into_iter$"
                      r"|<&?(?:'\w+ )?(?:mut )?" + S + r"collections::(?:hash::\w+::|hash_\w+::)?Hash(?:Map|Set)<.*> as std::fmt::Debug")
ADAPT = re.compile(r"::(?:map|filter|filter_map|flat_map|flatten|cloned|copied|into_iter|iter|by_ref|chain|inspect|peekable|from_residual|branch|as_ref|as_mut|deref|deref_mut|borrow|as_slice|unwrap|expect|clone|to_vec)$")
FOLD = re.compile(r"::(?:any|all|count|sum|product|max|max_by|max_by_key|min|min_by|min_by_key|len|is_empty|size_hint|contains|contains_key|drop|drop_in_place|eq|ne)$")
GATHER = re.compile(r"::(?:collect|from_iter|extend|insert|try_collect)$")
SORT = re.compile(r"::sort\w*$")
ORDERLESS = re.compile(r"^(?:std|alloc|core)::(?:result::Result<|option::Option<)?(?:\w+::)*(?:BTreeMap|BTreeSet|HashMap|HashSet|BinaryHeap)<")


def order_shows(b, starts):
    """does the order of the iterators made by the calls in `starts` (names of callees) reach anything but an orderless sink?
    None: no; otherwise what it reaches, or "sorted" """
    T = b.crate.types
    tainted, what, sortd = set(), None, False

    def names(t):
        c = []
        refs(t[1], c)
        return [bare(x) for y in c for x in (y["path"], y.get("rpath") or "") if x]

    def locs(x, out):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], (list, tuple)):
                out.add(x[1][0])
            elif len(x) >= 2 and x[0] in ("ref", "addr", "discr") and isinstance(x[1], (list, tuple)):
                out.add(x[1][0])
            for y in x:
                locs(y, out)
    for bl in b.raw["blocks"]:
        if bl and bl[1][0] == "call" and any(n in starts for n in names(bl[1])):
            tainted.add(bl[1][3][0])
    while True:
        n = len(tainted)
        for bl in b.raw["blocks"]:
            if not bl:
                continue
            for s in bl[0]:
                if s[0] == "=":
                    ls = set()
                    locs(s[2], ls)
                    if ls & tainted:
                        tainted.add(s[1][0])
            t = bl[1]
            if t[0] != "call":
                continue
            ls = set()
            locs(t[2], ls)
            ns = names(t)
            if not ls & tainted or any(x in starts for x in ns):
                continue
            if any(SORT.search(x) for x in ns):
                sortd = True
            elif any(FOLD.search(x) for x in ns):
                pass
            elif any(GATHER.search(x) for x in ns):
                sink = T[b.locals[t[3][0]]]["s"]
                recv = [re.sub(r"^&(?:'\w+ )?(?:mut )?", "", T[b.locals[l]]["s"]) for l in sorted(ls)]
                if not (ORDERLESS.search(sink) or any(ORDERLESS.search(x) for x in recv)):
                    tainted.add(t[3][0])
                    what = what or (ns[0] if ns else "a call")
            elif any(ADAPT.search(x) for x in ns):
                tainted.add(t[3][0])
            else:
                tainted.add(t[3][0])
                what = what or (ns[0] if ns else "a call")
        if len(tainted) == n:
            break
    return "sorted" if sortd else what


INTERIOR = re.compile(r"\b(?:Atomic\w+|Mutex|RwLock|Cell|RefCell|UnsafeCell|SyncUnsafeCell|ReentrantLock)\b")
ONCE = re.compile(r"\b(?:OnceLock|LazyLock|OnceCell|LazyCell|Once|Lazy)\b")


def refs(x, out):
    if isinstance(x, dict):
        if "ik" in x and "path" in x:
            out.append(x)
        for y in x.values():
            refs(y, out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            refs(y, out)


def casts(x, out):
    if isinstance(x, (list, tuple)):
        if len(x) >= 2 and x[0] == "cast" and isinstance(x[1], str):
            out.append(x)
        for y in x:
            casts(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            casts(y, out)


def crate(prog, rep, name, may_read):
    n = 0
    cr = prog.crates[name]
    bodies = [b for b in prog.bodies.values() if b.local and b.crate is cr]
    for b in bodies:
        rep.stats["functions"] += 1
        out = []
        refs(b.raw["blocks"], out)
        names = set()
        for c in out:
            if c.get("key") in prog.bodies and prog.bodies[c["key"]].local:
                continue
            names |= {bare(c["path"]), bare(c.get("rpath") or ""), c.get("rpath") or "", c["path"]}
        names.discard("")
        where = M.norm_path(b.path)
        n += len(names)
        iters = []
        for f in sorted(names):
            for k, rx, what in DENY:
                if re.search(rx, f):
                    rep("P16", "effect:%s:%s" % (k, where), "%s: %s %s" % (where, f, what), str(b.span or where))
            if re.search(FS, f) and not (may_read and FSREAD.search(f)) or PATHFS.search(f) and not may_read or READDIR.search(f):
                rep("P16", "effect:files:%s" % where, "%s: %s %s" % (where, f, "changes the file system, or reads it in no certain order" if may_read else "uses the file system"), str(b.span or where))
            if HASHITER.search(f):
                iters.append(f)
        if iters:
            w = order_shows(b, set(iters))
            if w == "sorted":
                rep.undecided("%s: goes through a hash table (%s) and sorts; whether the order shows is not decided" % (where, iters[0]))
            elif w:
                rep("P16", "effect:order:%s" % where, "%s: goes through a hash table, whose order changes from run to run (%s), into %s" % (where, iters[0], w), str(b.span or where))
        out = []
        casts(b.raw["blocks"], out)
        for c in out:
            n += 1
            if "Expose" in c[1]:
                rep("P16", "effect:address:%s" % where, "%s: an address becomes a number" % where, str(b.span or where))
    for it in cr.items:
        if not it["kind"].startswith("Static"):
            continue
        n += 1
        ks = [b for b in bodies if b.path == it["path"]]
        ty = cr.types[ks[0].locals[0]]["s"] if ks else ""
        if "mutability: Mut" in it["kind"]:
            rep("P16", "static:" + it["path"], "%s is a mutable static: results can depend on earlier calls" % it["path"], str(it["span"]))
        elif INTERIOR.search(ty) and not ONCE.search(ty):
            rep("P16", "static:" + it["path"], "%s is a static that can change (%s): results can depend on earlier calls" % (it["path"], ty), str(it["span"]))
        elif ONCE.search(ty):
            rep.undecided("%s is initialised on first use; whether always to the same value is not decided" % it["path"])
    rep.ob(n)
    rep.stats["functions_" + name] = len(bodies)


def analyse(parse, comp):
    rep = Rep()
    crate(parse, rep, "protox_parse", False)
    crate(comp, rep, "protox", True)
    rep.samples = ["every reference to a function outside the crate, every static and every cast of a pointer in %d functions" % rep.stats["functions"]]
    return rep


if __name__ == "__main__":
    import sys, os, build, mir
    d = build.ensure(("protox_parse", "protox", "protox-bin"))
    r = analyse(mir.Program(d, ("protox_parse",)), mir.Program(d, ("protox",)))
    print(r.stats)
    for v in r.viol: print(v["key"], v["what"])
    for u in r.und: print("UND", u)
