"""Properties and the analyses that decide them."""


FLOOR = "fewer %s than the smallest program that could have these guarantees: the analysis did not find the code (%d, at least %d)"


def floor(viol, props, stats, und, **want):
    """fail closed: an analysis that finds next to nothing to analyse does not speak for the code, unless it says what it did
    not follow"""
    for k, n in want.items():
        if stats.get(k, 0) < n:
            if und:
                continue
            viol.append(dict(props=list(props), key="floor:" + k, what=FLOOR % (k, stats.get(k, 0), n), detail=FLOOR % (k, stats.get(k, 0), n), where="", cond=""))


def genspec_(prog):
    import genspec
    if "genspec" not in _cache:
        _cache["genspec"] = genspec.analyse(prog)
    return _cache["genspec"]


def _diag(prog, thorough):
    """the diagnostics of the generator"""
    sp = genspec_(prog)
    before, und = len(sp.viol), len(sp.undecided)
    import ai
    ai.allow(150)
    sp.diagnostics()
    viol, u = sp.viol[before:], sp.undecided[und:]
    del sp.viol[before:], sp.undecided[und:]
    st = dict(obligations=sp.stats.get("diagnostics", 0))
    if not getattr(prog, "gen_failed", {}) and not sp.cut and not ai.late():
        floor(viol, ("P30",), st, u + sp.undecided, obligations=100)
    return dict(viol=viol, undecided=u, stats=st, samples=[])


def _gen(prog, thorough):
    import preds
    sp = genspec_(prog)
    viol, und = list(sp.viol), list(sp.undecided)
    n = 0
    for k in sorted(sp.case_fns):
        n += preds.pascal(prog, k, reporter(viol), und.append)
    asserts = 0
    for t, (e, cl) in sp.done.items():
        asserts += getattr(cl, "asserts", 0)
        for what, where in cl.panics:
            reporter(viol)(("P07",), "gen:panic:%s:%s" % (t[0], what), "a panic can be reached: %s" % what, where)
    st = dict(sp.stats)
    st["panic_checks"] = asserts
    import asts
    for k, what, where in prog._full_stats["panics"]:
        reporter(viol)(("P07",), "extent:panic:" + k, "a panic can be reached: %s" % what, where)
    st["extent_functions"] = len(asts.full_fns(prog))
    st["obligations"] = st.get("obligations", 0) + prog._full_stats["obl"]
    st["name_functions"] = len(sp.case_fns)
    st["obligations"] = st.get("obligations", 0) + n
    if not sp.cut and not any(t[0] == "file" for t in getattr(prog, "gen_failed", {})):
        floor(viol, GENP, st, und, obligations=1500)
    return dict(viol=viol, undecided=und, stats=st, samples=sp.samples())


GENP = ("P02", "P03", "P05", "P08", "P09", "P10", "P11", "P13", "P20", "P21")
PARSEP = ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P11", "P13", "P19")


def reporter(viol):
    def rep(props, key, what, where=""):
        if all(v["key"] != key for v in viol):
            viol.append(dict(props=[props] if type(props) is str else list(props), key=key, what=what, detail=what, where=where, cond=""))
    return rep


def _parse(prog, thorough):
    w = world(prog)
    viol = list(w.viol.values())
    st = dict(w.stats)
    if not w.cut:
        floor(viol, PARSEP, st, w.und, tasks=25, obligations=1500)
    smp = ["%s in context %s: %d path(s) agree with the grammar automaton" % (t[0], t[3], n) for t, n in list(w.tasks.items())[:12] if n is not None]
    return dict(viol=viol, undecided=list(w.und), stats=st, samples=smp)


def world(prog):
    import parse
    w = _cache.get("world")
    if w is None:
        w = _cache["world"] = parse.analyse(prog)
    return w


def _roots(prog, thorough):
    import roots
    r = roots.analyse(prog)
    floor(r.viol, ("P05", "P17", "P18"), r.stats, r.und, obligations=20)
    return dict(viol=r.viol, undecided=list(r.und), stats=dict(r.stats), samples=list(r.samples))


def _preds(prog, thorough):
    import preds
    w = world(prog)
    viol, und, st = [], [], dict(obligations=0, functions=0)
    for role, keys in sorted(w.used_preds.items()):
        for k in sorted(keys):
            st["obligations"] += preds.check(prog, k, role, reporter(viol), und.append)
            st["functions"] += 1
    return dict(viol=viol, undecided=und, stats=st, samples=["%s decides the language %s" % (k, r) for r, ks in w.used_preds.items() for k in ks])


def _lines(prog, thorough):
    import preds, parse
    viol, und = [], []
    n = preds.lines(prog, parse.sigs(prog), reporter(viol), und.append)
    return dict(viol=viol, undecided=und, stats=dict(obligations=n), samples=[])


def _lex(prog, thorough):
    import lexspec
    r = lexspec.analyse(prog)
    floor(r.viol, ("P04", "P07", "P14", "P19"), r.stats, r.und, obligations=120, automaton_functions=25, byte_tests=100, callbacks=6)
    return dict(viol=r.viol, undecided=list(r.und), stats=dict(r.stats), samples=list(r.samples))


def other(prog, crate):
    """the program of another crate of the workspace, from the same dump"""
    import mir
    k = ("prog", crate)
    if k not in _cache:
        _cache[k] = mir.Program(prog.dir, (crate,))
    return _cache[k]


def _compile(prog, thorough):
    import compilespec
    r = compilespec.analyse(other(prog, "protox"), other(prog, "protox-bin"))
    floor(r.viol, COMPP, r.stats, r.und, obligations=60)
    return dict(viol=r.viol, undecided=list(r.und), stats=dict(r.stats), samples=list(r.samples))


COMPP = ("P23", "P24", "P25", "P26", "P27", "P28", "P29")


def _effects(prog, thorough):
    import effects
    r = effects.analyse(other(prog, "protox_parse"), other(prog, "protox"))
    floor(r.viol, ("P16",), r.stats, r.und, functions_protox_parse=60, functions_protox=20)
    return dict(viol=r.viol, undecided=list(r.und), stats=dict(r.stats), samples=list(r.samples))


def _render(prog, thorough):
    import render
    r = render.analyse(prog)
    floor(r.viol, ("P02", "P10", "P13"), r.stats, r.und, obligations=20)
    return dict(viol=r.viol, undecided=list(r.und), stats=dict(r.stats), samples=list(r.samples))


ANALYSES = {"diag": _diag, "render": _render, "effects": _effects, "compile": _compile, "lex": _lex, "gen": _gen, "parse": _parse, "roots": _roots, "preds": _preds, "lines": _lines}
_cache = {}


def run(name, prog, crates, thorough):
    k = (name, thorough)
    if k not in _cache:
        import ai
        ai.allow(120)
        _cache[k] = ANALYSES[name](prog, thorough)
    return _cache[k]


PARSE = ("protox_parse",)
ALL = ("protox_parse", "protox", "protox-bin")

GEN_RULE = ("Every path of the descriptor generator, abstractly interpreted over rustc's MIR with a symbolic syntax tree, "
            "must compute the descriptor fields, nested lists, locations and rejections the specification derives from the same path condition.")


ABSINT = "abstract interpretation of rustc MIR, each path compared with a specification"
NOTE = ("Over-approximates all paths of the functions analysed (see DESIGN.md); trusts rustc's MIR, the library models and the "
        "specification tables; comparisons it cannot decide are listed as undecided in the evidence and not reported.")


def P(rule, analyses, crates=PARSE, level="other", assumptions=(), technique=ABSINT, note=NOTE):
    return dict(rule=rule, analyses=analyses, crates=crates, level=level, assumptions=list(assumptions), technique=technique, note=note)


PARSE_RULE = ("Every path of every parser function, abstractly interpreted over rustc's MIR with a symbolic token stream, must agree with "
              "the automaton of its grammar production: which tokens are consumed, rejected or left, where each token ends up in the syntax "
              "tree, which span the node gets, and that every repetition consumes a token.")
ROOT_RULE = "The entry points' paths from parser and generator results to their own result, and the error type's accessors, interpreted symbolically. "

PROPS = {
    "P01": P(PARSE_RULE, ["parse"]),
    "P02": P(GEN_RULE + "  " + PARSE_RULE + "  What the Display implementations of names write.", ["gen", "parse", "render"]),
    "P03": P(GEN_RULE + "  Obligations: the set of (path, span) pairs recorded; the spans of syntax tree nodes.", ["gen", "parse"]),
    "P04": P(PARSE_RULE + "  Obligations: comments taken, dropped and stored per token; the comment collector against protoc's rule; the locations that carry comments.",
             ["parse", "gen", "lex"]),
    "P05": P(ROOT_RULE + "Generation fails exactly when a diagnostic was recorded.", ["roots", "gen", "parse"]),
    "P06": P(PARSE_RULE + "  Obligations: every loop and recursion consumes a token between two visits of the same state.", ["parse"]),
    "P07": P("No path reaches a panic: each assertion, unwrap, index, slice and overflow check on every abstract path of the parser, "
             "generator, entry points and predicates is infeasible; recursion per nesting level is bounded.", ["parse", "gen", "roots", "preds", "lex", "render"]),
    "P08": P(GEN_RULE + "  Obligations: numbers.", ["gen"]),
    "P09": P(GEN_RULE + "  Obligations: labels, scopes and syntax versions.", ["gen"]),
    "P10": P(GEN_RULE + "  Obligations: default values; every byte of a string is written as its escape.", ["gen", "render"]),
    "P11": P("Every token kind that can begin a type is mapped by the parser, and every type by the generator, to the same type: all paths of both functions, interpreted over MIR.", ["parse", "gen", "render"]),
    "P12": P("The predicate the parser applies to import paths accepts exactly the language of the specification.", ["preds"]),
    "P14": P("The recogniser that #[derive(Logos)] generates, read off MIR, and the reference automaton of the lexical grammar have the same "
             "product automaton: every text is cut at the same places and given the same kind, and nothing else is recognised; every path of the "
             "callbacks computes the value of the text or records an error.", ["lex"],
             technique="product automaton of the recogniser in MIR and a reference automaton; abstract interpretation of the callbacks"),
    "P15": P("The predicates the parser applies to reserved names and group names accept exactly the language of the specification.", ["preds"]),
    "P13": P(GEN_RULE + "  Obligations: option names, values and texts; the text of aggregate values, in which each token is written so that it reads back as itself.", ["parse", "gen", "render"]),
    "P16": P("No function of the two crates refers to anything that makes its result depend on more than its arguments (environment, clock, random numbers, "
             "threads, mutable statics, addresses, the order of hash tables) or that leaves anything behind; the compiler reads files and nothing else.", ["effects"], ALL,
             technique="effect analysis: every function reference, static and pointer cast in MIR classified",
             note="Complete for the code of the two crates; the crates they use are trusted to look at their arguments only."),
    "P17": P(ROOT_RULE + "Obligations: the size check before anything else.", ["roots"]),
    "P18": P(ROOT_RULE + "Obligations: what the error carries and its accessors return.", ["roots"]),
    "P19": P(PARSE_RULE + "  Obligations: the text-format mode flag at every token read and at every return, and the nesting depth of braces.  The lexer's uses of the flag.", ["parse", "lex"]),
    "P20": P(GEN_RULE + "  Obligations: map entries, groups and synthetic oneofs.", ["gen"]),
    "P21": P(GEN_RULE + "  Obligations: ranges.", ["gen"]),
    "P22": P("The line table, the search in it and the span built from it are interpreted symbolically and compared with the definition of line and column.", ["lines"]),
    "P23": P("Every path of the functions that load a requested file and follow its imports, interpreted over MIR with the resolver, the pool and the "
             "map of files as abstract objects: a file is loaded once, after looking for it among the files known and being loaded, added to the pool "
             "after every import was, and listed after it was added; every failure comes from an operation that failed.", ["compile"], ALL),
    "P24": P("Every path of the compiler's outputs, options, drivers and command line, interpreted over MIR: what each setting stores, which files an output "
             "contains in which order and with which of source info and imports, and which operation an argument of the command line triggers.", ["compile"], ALL),
    "P25": P("Every path of the resolvers, interpreted over MIR: which resolver is asked, in which order, with which name, and what is done with its answer.", ["compile"], ALL),
    "P26": P("Every path of the functions between file system paths and import names, interpreted over MIR; the component comparison is checked by induction over its loop.", ["compile"], ALL),
    "P27": P("Every path of the constructors and accessors of a file, interpreted over MIR: the size limit, the class of each failure, and which value each field gets.", ["compile"], ALL),
    "P28": P("Every path of the decoders of descriptor sets and of the encoders that keep their bytes, interpreted over MIR.", ["compile"], ALL),
    "P30": P("At every point where a path of the parser, the generator or a callback of the lexer records a diagnostic, its position is that of the token, label, "
             "number or declaration that the condition of the path shows to break the rule, the token it names is that token, and each token it lists as "
             "expected has a transition in the automaton of the grammar.", ["diag", "parse", "lex"]),
    "P29": P("Every path of the error predicates, conversions and wrappers, interpreted over MIR, per variant of the error.", ["compile"], ALL),
}
