"""What each check runs: the specification runs, and where their behaviours are replayed."""
import json
import os
import zlib

from core import REPO, VERIF, Trouble

CHECKS = {}
NOT_APPLICABLE = {}


def check(prop, **kw):
    def reg(fn):
        CHECKS[prop] = dict(kw, run=fn)
        return fn
    return reg


def matches(known, violation):
    return known.get("match") is not None and known["match"] in violation["message"]


def gen(form, lo, hi, saltlo=1, salthi=1, swarm=False, gray=False):
    return dict(Form=form, SaltLo=saltlo, SaltHi=salthi, FuelLo=lo, FuelHi=hi, Swarm=swarm, AllowGray=gray)


CORPUS = os.path.join(VERIF, "corpus")


def documents(ctx):
    """The documents of the corpus, as TLC reads them: sequences of characters."""
    out = ctx.path("documents.json")
    if not os.path.exists(out):
        docs = []
        for f in sorted(os.listdir(CORPUS)):
            with open(os.path.join(CORPUS, f), encoding="utf-8", newline="") as i:
                docs.append([ord(c) for c in i.read()])
        with open(out, "w") as o:
            json.dump(docs, o)
    return out, set(range(1, len(os.listdir(CORPUS)) + 1))


def texts(ctx, sources, module="Corpus", most=3, changes=3, skip=()):
    """sources: [(source, texts)]: real modules, and selections of them changed, read by the specification.
    Other seeds and other properties read other selections (numbers stay below 200000)."""
    f, docs = documents(ctx)
    docs = docs - set(skip)
    jobs = []
    for i, (source, n) in enumerate(sources):
        lo = (ctx.seed % 19) * 10000 + int(ctx.prop[1:]) * 350 if ctx.quick else 1 + 20000 * i
        consts = dict(DocFile=f, Source=source, Docs=docs, TextLo=lo, TextHi=lo + n - 1, Most=most, MostChanges=changes)
        if source == "each":    # whole rounds of characters and places
            lo = (ctx.seed % 100) * 1680 + 840 * i
            consts.update(TextLo=lo, TextHi=lo + n - 1, Most=1)
        if source == "whole":
            consts.update(TextLo=1, TextHi=1)
        if module == "CgCorpus":
            jobs.append(dict(name="texts-%s-%d" % (source, i), module=module, spec="TSpec", workers=1, heap="3g", view="View", consts=dict(gen("cg", 1, 1), **consts),
                             invariants=["InOrder", "RefTransparent"]))
        else:
            jobs.append(dict(name="texts-%s-%d" % (source, i), module=module, workers=1, heap="3g", view="View", consts=consts, invariants=["Agree", "OneMeaning"]))
    return jobs


def cover(ctx, runs):
    """runs: [(mode, free choices, salts, fuel, items tried at a position)]: every place of the notation, and texts next to it"""
    jobs = []
    for k, (mode, deep, salts, fuel, picks) in enumerate(runs):
        parts = ctx.pick(2, 4)
        for p in range(parts):
            lo = 100 * ctx.seed + 10 * k
            jobs.append(dict(name="cover-%d-%d" % (k, p), module="Cover", spec="CSpec", workers=1, heap="3g",
                             consts=dict(gen("module", fuel, fuel, lo, lo + salts - 1), Mode=mode, Count=0, Depth=0, Part=p, Parts=parts, Deep=deep, Picks=picks),
                             invariants=["OneValue", "Reached", "AcceptsDerived", "Unambiguous"]))
    return jobs


def grammar(ctx, exhaustive, simulate, more=()):
    """exhaustive: {form: fuel}; simulate: {form: behaviours}"""
    jobs = texts(ctx, ctx.pick([("whole", 1), ("near", 1200), ("many", 60)], [("whole", 1)] + [("near", 20000)] * 6 + [("many", 2000)] * 4))
    jobs += cover(ctx, ctx.pick([("text", 2, 4, 6, 0), ("text", 3, 1, 0, 0)], [("text", 5, 1, 0, 0), ("text", 3, 40, 8, 0)]))
    ncorpus = len(jobs)
    for form, fuel in exhaustive.items():
        jobs.append(dict(name="all-%s-%d" % (form, fuel), module="Gen", consts=gen(form, fuel, fuel, ctx.seed, ctx.seed),
                         workers=2, invariants=["OneValue"], heap="4g"))
    for k, (form, n) in enumerate(simulate.items()):
        procs = 2 if ctx.quick else 4
        jobs += ctx.simjobs("sim-" + form, "Gen", gen(form, 3, 60, 1, 1000, swarm=True), n, procs, seed=k,
                            depth=20000, invariants=["OneValue"])
    binary = ctx.build("zzverif")
    files = ctx.tlc_many(jobs + list(more))
    if more:
        ctx.drive(binary, "robust", ctx.merge(files[len(jobs):], "big"), timeout=120, args=("-workers", "6"))
    v = ctx.merge(files[ncorpus:len(jobs)], "grammar")
    ctx.sample(v, 3)
    ctx.drive(binary, "parse", v)
    v = ctx.merge(files[:ncorpus], "corpus")
    ctx.sample(v, 2)
    ctx.drive(binary, "verdict", v)


TRUST = ["TLC and the CommunityModules I/O operators", "the Go toolchain", "the projection in driver/zzverif/project.go"]


def nests(sizes, longest=6000, words=300000):
    return [dict(name="nest-%d" % k, module="Robust", spec="RSpec", workers=1, heap="3g", consts=dict(gen("cg", 0, 0), Mode="nest", Count=0, LongList=longest, LongWord=words, Sizes=set(s)), properties=["Answers"])
            for k, s in enumerate(sizes)]


GRTECH = "TLA+ grammar machine (TLC, exhaustive + simulation) whose derivations, and TLA+ readings of real modules and of changes of them, are replayed in the real parser"
GRNOTE = "Every derivation within the stated number of deviations, seeded deep derivations, twelve real modules and seeded changes of selections of them; trusts TLC, the Go toolchain and the projection of the tree."


@check("P05", assumptions=TRUST, technique=GRTECH, note=GRNOTE)
def p05(ctx):
    grammar(ctx, ctx.pick({"types": 3}, {"types": 4, "body": 3}), ctx.pick({"types": 6000, "module": 2000}, {"types": 200000, "module": 60000}),
            more=nests(ctx.pick([[5, 40], [1000]], [[5, 7, 11, 40], [300], [1000], [5000]])))


@check("P06", assumptions=TRUST, technique=GRTECH, note=GRNOTE)
def p06(ctx):
    grammar(ctx, ctx.pick({"values": 3, "header": 2}, {"values": 4, "header": 4}),
            ctx.pick({"values": 8000, "types": 1500}, {"values": 200000, "types": 40000, "header": 40000}))


@check("P07", assumptions=TRUST, technique=GRTECH, note=GRNOTE)
def p07(ctx):
    grammar(ctx, ctx.pick({"constraints": 2}, {"constraints": 3}), ctx.pick({"constraints": 8000}, {"constraints": 200000, "types": 40000}))


@check("P08", assumptions=TRUST, technique=GRTECH, note=GRNOTE)
def p08(ctx):
    grammar(ctx, ctx.pick({"header": 4, "body": 2}, {"header": 6, "body": 3}), ctx.pick({"header": 5000, "body": 2000}, {"header": 120000, "body": 60000}))


# ---------------------------------------------------------------- lexer
ALPHABETS = {
    "comments": {45, 47, 42, 10, 97, 32},
    "symbols": {58, 61, 46, 91, 93, 32, 49},
    "words": {97, 65, 49, 45, 32, 95, 46},
    "numbers": {49, 48, 101, 69, 46, 45, 32},
    "newlines": {10, 13, 11, 12, 9, 32, 45, 97},
    "bytes": {0, 97, 45, 233, 8364, 160, 1114112 + 255, 1114112 + 195, 49},
    "ascii": set(range(128)),
    "all": set(range(128)) | {133, 160, 233, 8232, 8364, 65279, 1114112 + 128, 1114112 + 255},
    "in-comments": {9, 10, 11, 12, 13, 32, 42, 45, 47, 97, 133, 160, 8232},
    "inside": {45, 47, 42, 233, 8364, 1114112 + 255, 0, 10},
    "marks": {60, 62, 123, 125, 40, 41, 44, 59, 58, 39, 34, 124, 94, 33, 64, 35},
}


def lexjobs(ctx, lens, chunkruns, heads=()):
    """lens: {alphabet: length}; heads: [(alphabet, length, what comes first)]; chunkruns: [(chunks, length, behaviours)]"""
    jobs = []
    for name, n, first in [(k, n, "NoHeads") for k, n in lens.items()] + list(heads):
        jobs.append(dict(name="lex-%s-%s" % (name, first), module="Lexer", workers=1, heap="3g",
                         consts=dict(Alphabet=ALPHABETS[name], Chunks="<NoChunks", MaxLen=n, Pads={0}, EmitAll=True, Heads="<" + first,
                                     CheckDecl=True, StopAtErr=True),
                         invariants=["DeclAgrees", "LineIsCount"], properties=["ItemsOnlyGrow"]))
    for k, (chunks, size, num) in enumerate(chunkruns):
        for q, pads in enumerate(({0}, {0, 1, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 8190, 8191})):
            jobs.append(dict(name="lex-%s-%d-%d" % (chunks, size, q), module="Lexer", sim=num, depth=100000, seed=10 * k + q,
                             consts=dict(Alphabet={32}, Chunks="<" + chunks, MaxLen=size, Pads=pads, Heads="<NoHeads", EmitAll=False,
                                         CheckDecl=size <= 8 and chunks != "LongChunks", StopAtErr=False),
                             invariants=["DeclAgrees"]))
    return jobs


@check("P01", assumptions=TRUST, technique="TLA+ lexer automaton checked against declarative rules (TLC), texts replayed in the real lexer", note="All texts over small alphabets up to the stated length plus seeded long texts around the buffer boundary; non-ASCII letters and digits, and letters glued to numbers are not claimed.")
def p01(ctx):
    q = {"comments": 5, "symbols": 5, "words": 4, "numbers": 5, "newlines": 4, "bytes": 3, "inside": 4, "marks": 3, "ascii": 2}
    t = {"comments": 8, "symbols": 6, "words": 6, "numbers": 6, "newlines": 6, "bytes": 5, "inside": 6, "marks": 4, "ascii": 3}
    runs = ctx.pick([("TightChunks", 4, 1500), ("LooseChunks", 25, 600), ("MutantChunks", 4, 1500), ("WordChunks", 1, 300), ("LongChunks", 3, 100)],
                    [("TightChunks", 4, 40000), ("TightChunks", 20, 20000), ("LooseChunks", 40, 20000), ("MutantChunks", 6, 30000), ("WordChunks", 1, 3000), ("LongChunks", 3, 3000), ("LongChunks", 12, 500)])
    binary = ctx.build("zzlex")
    v = ctx.merge(ctx.tlc_many(lexjobs(ctx, ctx.pick(q, t), runs,
                                       ctx.pick([("in-comments", 3, "CommentHeads"), ("all", 1, "ItemHeads"), ("all", 1, "CommentHeads")],
                                                [("in-comments", 5, "CommentHeads"), ("all", 2, "ItemHeads"), ("all", 2, "CommentHeads")]))), "lexer")
    ctx.sample(v, 3)
    ctx.drive(binary, "lex", v)


# ---------------------------------------------------------------- texts next to the notation
def mutants(ctx, fuels, some, sources):
    """fuels: {form: fuel} with every single change; some: {form: (derivations, mutants each, most changes)}; sources: of texts"""
    jobs = texts(ctx, sources)
    jobs += cover(ctx, ctx.pick([("around", 2, 1, 0, 4), ("around", 1, 2, 6, 4)], [("around", 3, 1, 0, 6), ("around", 2, 1, 0, 0), ("around", 2, 8, 6, 10)]))
    for form, fuel in fuels.items():
        jobs.append(dict(name="each-%s-%d" % (form, fuel), module="Mutate", spec="MSpec", workers=2, heap="4g",
                         consts=dict(gen(form, fuel, fuel, ctx.seed, ctx.seed), Mode="all", Count=0, Depth=0),
                         invariants=["OneValue", "AcceptsDerived", "Unambiguous"]))
    for k, (form, (n, count, depth)) in enumerate(some.items()):
        jobs += ctx.simjobs("some-" + form, "Mutate", dict(gen(form, 4, 30, 1, 200, swarm=True), Mode="some", Count=count, Depth=depth),
                            n, ctx.pick(2, 4), seed=50 + k, depth=20000, spec="MSpec", invariants=["OneValue", "AcceptsDerived", "Unambiguous"])
    binary = ctx.build("zzverif")
    v = ctx.merge(ctx.tlc_many(jobs), "mutants")
    ctx.sample(v, 3)
    ctx.drive(binary, "verdict", v)


@check("P09", assumptions=TRUST, technique="TLA+ acceptor for the notation (TLC), every single change of derived texts and seeded multiple changes judged by it and replayed in the real parser", note="All one-item changes of every derivation within the stated number of deviations; notation the specification leaves unclaimed is not judged.")
def p09(ctx):
    forms = ["types", "header", "values", "constraints", "body", "module"]
    mutants(ctx, {x: ctx.pick(1, 2) for x in forms} if ctx.quick else dict({x: 1 for x in forms}, types=2, values=2, header=2, body=2),
            ctx.pick({"types": (60, 40, 3), "constraints": (60, 40, 3), "module": (60, 40, 3)},
                     {x: (4000, 60, 4) for x in forms}),
            ctx.pick([("whole", 1), ("items", 1000), ("each", 840)], [("whole", 1)] + [("items", 20000)] * 6 + [("chars", 10000)] * 3 + [("each", 16800)]))


@check("P10", assumptions=TRUST, technique="TLA+ acceptor and lexer automaton (TLC) that say where a text first goes wrong, replayed in the real parser", note="All one-item changes of every derivation within the stated number of deviations, laid out over lines, and all texts over small alphabets; where unclaimed notation is possible every line from there to the failure is allowed.")
def p10(ctx):
    forms = ["types", "header", "values", "constraints", "body", "module"]
    binary = ctx.build("zzlex")
    v = ctx.merge(ctx.tlc_many(lexjobs(ctx, ctx.pick({"newlines": 5, "comments": 5}, {"newlines": 6, "comments": 7, "numbers": 6}),
                                       ctx.pick([("MutantChunks", 5, 1500)], [("MutantChunks", 8, 20000), ("LooseChunks", 40, 5000)]))), "lexer")
    ctx.drive(binary, "lex", v)
    mutants(ctx, {x: 1 for x in forms} if ctx.quick else dict({x: 1 for x in forms}, types=2, constraints=2),
            ctx.pick({"types": (60, 40, 3), "values": (60, 40, 3), "body": (60, 40, 3)}, {x: (4000, 60, 4) for x in forms}),
            ctx.pick([("whole", 1), ("chars", 1200), ("items", 700)], [("whole", 1)] + [("chars", 20000)] * 6 + [("items", 10000)] * 3))


# ---------------------------------------------------------------- layout
@check("P02", assumptions=TRUST, technique="TLA+ layout specification over the lexical rules (TLC), layouts of derived modules replayed in the real parser and compared with single spaces", note="Every comment and white-space unit of the specification at every place of the derivations within the stated number of deviations, whole random layouts, and every text over small comment alphabets.")
def p02(ctx):
    jobs = lexjobs(ctx, ctx.pick({"comments": 5, "inside": 4}, {"comments": 8, "inside": 6}),
                   ctx.pick([("LooseChunks", 25, 300), ("LongChunks", 3, 100)], [("LooseChunks", 40, 20000), ("TightChunks", 20, 20000), ("LongChunks", 3, 2000)]))
    lex = ctx.build("zzlex")
    v = ctx.merge(ctx.tlc_many(jobs), "lexer")
    ctx.drive(lex, "lex", v)
    forms = ["types", "header", "values", "constraints", "module"]
    jobs = []
    each = {x: 0 for x in forms} if ctx.quick else {x: 1 for x in forms}
    if ctx.quick:
        each["types"] = each["constraints"] = 1
    for form, fuel in each.items():
        jobs.append(dict(name="each-" + form, module="Layout", spec="LSpec", workers=2, heap="3g",
                         consts=dict(gen(form, fuel, fuel, ctx.seed, ctx.seed), Mode="each", Count=0), invariants=["OneValue"]))
    for k, (form, n) in enumerate(ctx.pick({"types": 240, "module": 120}, {x: 8000 for x in forms}).items()):
        jobs += ctx.simjobs("mixed-" + form, "Layout", dict(gen(form, 4, 40, 1, 200, swarm=True), Mode="mixed", Count=12), n,
                            ctx.pick(3, 6), seed=70 + k, depth=20000, spec="LSpec", invariants=["OneValue"])
    binary = ctx.build("zzverif")
    v = ctx.merge(ctx.tlc_many(jobs), "layouts")
    ctx.sample(v, 2)
    ctx.drive(binary, "layout", v)


# ---------------------------------------------------------------- delivery
def feed(ctx, faults, forms, reader):
    jobs = []
    for k, (ops, pads, f) in enumerate(reader):
        jobs.append(dict(name="cuts-%d" % k, module="Reader", workers=3, heap="4g", consts=dict(MaxOps=ops, Pads=set(pads), Faults=f),
                         invariants=["CutsDoNotMatter", "PrefixOnly", "Bounded"]))
    for k, (form, (n, rounds, ops)) in enumerate(forms.items()):
        jobs += ctx.simjobs("feed-" + form, "Feed", dict(gen(form, 2, 20, 1, 400, swarm=True), Mode="mixed", Count=rounds, Spoil=25 if not faults else 15,
                                                         MaxOps=ops, Faults=faults, DocFile="", Docs=0),
                            n, ctx.pick(2, 4), seed=90 + k, depth=100000, spec="FSpec", invariants=["NothingLost"])
    f, docs = documents(ctx)
    jobs += ctx.simjobs("documents", "Feed", dict(gen("types", 0, 0), Mode="mixed", Count=ctx.pick(20, 40), Spoil=0, MaxOps=ctx.pick(30, 60), Faults=faults, DocFile=f, Docs=len(docs)),
                        ctx.pick(60, 4000), ctx.pick(1, 4), seed=98, depth=100000, spec="FSpec", invariants=["NothingLost"])
    binary = ctx.build("zzverif")
    v = ctx.merge(ctx.tlc_many(jobs), "feed")
    ctx.sample(v, 2)
    ctx.drive(binary, "feed", v, env={"VERIF_DOCS": f})


@check("P03", assumptions=TRUST, technique="TLA+ reader, decoder and lexer specification (TLC, every cut of a set of texts; seeded deliveries of derived texts), replayed through scripted readers", note="All cuttings of the texts of the specification into up to the stated number of pieces, and seeded deliveries of derived modules and of texts next to them.")
def p03(ctx):
    feed(ctx, False, ctx.pick({"types": (300, 20, 6), "module": (150, 20, 6)}, {x: (8000, 30, 12) for x in ("types", "module", "values", "header")}),
         ctx.pick([(0, range(3990, 4101), False), (1, (0, 4040, 4060, 4080), False), (2, (0,), False)],
                  [(0, list(range(3990, 4101)) + list(range(8090, 8200)), False), (1, range(4020, 4097, 3), False), (2, (0, 4030, 4050, 4070, 4090), False)]))


@check("P04", assumptions=TRUST, technique="TLA+ reader specification with failures at every position (TLC), replayed through scripted failing readers", note="Failures with and without data, permanent and transient, at every byte of the texts of the specification after up to one earlier piece, and seeded ones in derived modules; of texts that are no module only 'an error and no module' is claimed.")
def p04(ctx):
    feed(ctx, True, ctx.pick({"types": (300, 20, 4), "module": (150, 20, 4)}, {x: (8000, 30, 8) for x in ("types", "module", "values", "header")}),
         ctx.pick([(1, (0, 4050), True)], [(1, (0, 4030, 4050, 4070), True), (2, (0,), True)]))


# ---------------------------------------------------------------- generation
CGINV = ["InOrder", "RefTransparent", "Closed", "OneValue"]


def places(ctx, runs, module="CgCover", invariants=CGINV, **more):
    """runs: [(form, free choices, salts, fuel, odd)]: every place of the notation that something is generated from"""
    jobs = []
    for k, (form, deep, salts, fuel, odd) in enumerate(runs):
        parts = ctx.pick(1, 4)
        for p in range(parts):
            lo = 100 * ctx.seed + 10 * k
            jobs.append(dict(name="cover-%s-%d-%d" % (form, k, p), module=module, spec="PlanSpec", workers=1, heap="3g",
                             consts=dict(gen(form, fuel, fuel, lo, lo + salts - 1, gray=odd), Part=p, Parts=parts, Deep=deep, **more), invariants=invariants + ["Reached"]))
    return jobs


def codegen(ctx, every, some, mode="gen", chains=None, sources=(), covers=()):
    """every: [(form, fuel, odd)] exhaustively; some: [(form, behaviours, odd)] simulated; odd: also what cannot be generated."""
    jobs = []
    for form, fuel, odd in every:
        jobs.append(dict(name="all-%s-%d%s" % (form, fuel, "-odd" if odd else ""), module="CodeGen", spec="CSpec", workers=2, heap="4g",
                         consts=gen(form, fuel, fuel, ctx.seed, ctx.seed, gray=odd), invariants=CGINV))
    for k, (form, n, odd) in enumerate(some):
        jobs += ctx.simjobs("sim-%s%s" % (form, "-odd" if odd else ""), "CodeGen", gen(form, 3, 60, 1, 1000, swarm=True, gray=odd), n,
                            ctx.pick(1, 3), seed=120 + k, depth=20000, spec="CSpec", invariants=CGINV)
    if chains:
        jobs.append(dict(name="chains", module="CgChain", spec="ChainSpec", workers=1, heap="4g",
                         consts=dict(gen("cg", 0, 0), Lengths=set(chains)), invariants=["Settled", "InOrder"]))
    jobs += texts(ctx, sources, module="CgCorpus", most=6, changes=2)
    jobs += places(ctx, covers)
    binary = ctx.build("zzverif")
    v = ctx.merge(ctx.tlc_many(jobs), "modules")
    ctx.sample(v, 2)
    ctx.drive(binary, mode, v, timeout=60)


@check("P11", assumptions=TRUST, technique="TLA+ specification of texts of every kind, each answered (TLC), replayed in the real parser and generator under a watchdog", note="Nesting and lists of every construct up to the stated sizes, every prefix of derived texts, seeded noise; reference graphs and cycles for generation. 'Returns' is judged with a limit of 20 to 30 s per text.")
def p11(ctx):
    jobs = nests(ctx.pick([[1, 2, 3], [600], [20000]], [[1, 2, 3, 4, 5, 6, 7, 8, 9, 10], [50, 600], [2000], [20000], [60000]]), ctx.pick(6000, 12000))
    for k, (form, (n, count)) in enumerate(ctx.pick({"types": (60, 60), "module": (60, 60), "constraints": (60, 60)},
                                                    {x: (3000, 100) for x in ("types", "module", "constraints", "values", "header", "cg")}).items()):
        jobs += ctx.simjobs("noise-" + form, "Robust", dict(gen(form, 2, 30, 1, 400, swarm=True, gray=True), Mode="derived", Count=count, LongList=1, LongWord=1, Sizes=set([1])),
                            n, ctx.pick(1, 2), seed=150 + k, depth=100000, spec="RSpec")
    binary = ctx.build("zzverif")
    v = ctx.merge(ctx.tlc_many(jobs), "texts")
    ctx.sample(v, 2)
    ctx.drive(binary, "robust", v, timeout=120, args=("-workers", "6"))
    codegen(ctx, ctx.pick([("cggraph", 2, True), ("cgstruct", 2, True), ("cgtypes", 2, True)], [("cggraph", 4, True), ("cgstruct", 3, True), ("cgtypes", 3, True)]),
            [("cggraph", ctx.pick(500, 40000), True), ("cg", ctx.pick(1000, 40000), True), ("cgtypes", ctx.pick(500, 40000), False)],
            chains=ctx.pick([1, 2, 3, 40], [1, 2, 3, 4, 5, 6, 7, 60, 200]))


GENTECH = "TLA+ translation specification (TLC: %s), its modules run through the real generator and the source read back with go/parser and go/types"
GENTRUST = TRUST + ["go/parser, go/types and the type information of the standard library", "the construction of modules in driver/zzverif/build.go"]
GENNOTE = "Every module within the stated number of deviations from the default derivation, seeded larger ones, two integer representations; a module whose outcome the specification leaves open is only run."


@check("P12", assumptions=GENTRUST, technique=GENTECH % "declarations of every type", note=GENNOTE)
def p12(ctx):
    codegen(ctx, ctx.pick([("cgone", 3, False), ("cgtypes", 3, False), ("cgstruct", 2, False)], [("cgone", 5, False), ("cgtypes", 4, False), ("cgstruct", 4, False)]),
            [(f, ctx.pick(1000, 60000), False) for f in ("cgtypes", "cgstruct", "cgone", "cg")],
            covers=ctx.pick([("cgtypes", 2, 2, 3, False)], [("cgtypes", 2, 20, 6, False), ("cgtypes", 3, 2, 0, False), ("cgtypes", 3, 2, 5, False)]),
            sources=ctx.pick([("closed", 500), ("many", 40)], [("whole", 1)] + [("closed", 15000)] * 6 + [("many", 2000)] * 2))


@check("P13", assumptions=GENTRUST, technique=GENTECH % "annotations of every component", note=GENNOTE)
def p13(ctx):
    codegen(ctx, ctx.pick([("cgstruct", 3, False)], [("cgstruct", 4, False), ("cggraph", 3, False)]),
            [("cgstruct", ctx.pick(4000, 150000), False), ("cggraph", ctx.pick(1000, 40000), False)],
            covers=ctx.pick([("cgstruct", 2, 2, 3, False)], [("cgstruct", 2, 20, 6, False), ("cgstruct", 3, 2, 0, False), ("cgstruct", 3, 2, 5, False)]),
            sources=ctx.pick([("closed", 350), ("many", 40)], [("whole", 1)] + [("closed", 15000)] * 3 + [("many", 2000)] * 2))


@check("P14", assumptions=GENTRUST, technique=GENTECH % "sources of whole modules", note=GENNOTE)
def p14(ctx):
    codegen(ctx, ctx.pick([("cgpackages", 3, False), ("cgone", 3, False), ("cgvalues", 2, False), ("cgtypes", 2, False), ("cgstruct", 2, False)],
                          [("cgpackages", 5, False), ("cgone", 5, False), ("cgvalues", 4, False), ("cgtypes", 4, False), ("cgstruct", 3, False), ("cg", 4, False)]),
            [(f, ctx.pick(1200, 60000), False) for f in ("cg", "cgvalues", "cgtypes", "cgstruct")],
            covers=ctx.pick([("cgvalues", 2, 1, 3, False), ("cg", 2, 1, 3, False)], [("cgvalues", 2, 10, 6, False), ("cg", 2, 10, 6, False), ("cgvalues", 3, 2, 4, False), ("cg", 3, 1, 4, False)]),
            sources=ctx.pick([("closed", 350), ("many", 40)], [("whole", 1)] + [("closed", 15000)] * 6 + [("many", 2000)] * 2))


@check("P15", assumptions=GENTRUST, technique=GENTECH % "where generation is impossible", note=GENNOTE)
def p15(ctx):
    codegen(ctx, ctx.pick([("cgone", 3, True), ("cgstruct", 2, True), ("cgvalues", 2, True), ("cgtypes", 2, True)],
                          [("cgone", 4, True), ("cgstruct", 4, True), ("cgvalues", 4, True), ("cgtypes", 4, True)]),
            [(f, ctx.pick(1000, 60000), True) for f in ("cg", "cgvalues", "cgtypes", "cgstruct")],
            covers=ctx.pick([("cg", 2, 1, 2, True)], [("cg", 2, 10, 6, True), ("cgvalues", 2, 10, 6, True), ("cgtypes", 3, 2, 2, True), ("cgstruct", 3, 2, 2, True)]),
            sources=ctx.pick([("closed", 200), ("near", 200), ("many", 20)], [("whole", 1)] + [("near", 15000)] * 3 + [("closed", 15000)] * 3 + [("many", 2000)]))


@check("P16", assumptions=GENTRUST, technique=GENTECH % "reference graphs, chains and cycles", note=GENNOTE)
def p16(ctx):
    codegen(ctx, ctx.pick([("cggraph", 3, True)], [("cggraph", 4, True)]), [("cggraph", ctx.pick(2000, 100000), False), ("cggraph", ctx.pick(500, 40000), True)],
            mode="genall", chains=ctx.pick([1, 2, 3, 5, 40, 130, 300], [1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 60, 150, 300, 600]),
            covers=ctx.pick([("cggraph", 2, 6, 4, False)], [("cggraph", 2, 100, 6, False), ("cggraph", 3, 40, 6, True)]),
            sources=ctx.pick([("closed", 350), ("many", 40)], [("whole", 1)] + [("closed", 15000)] * 3 + [("many", 2000)] * 2))


@check("P17", assumptions=GENTRUST, technique=GENTECH % "values and named numbers", note=GENNOTE)
def p17(ctx):
    codegen(ctx, ctx.pick([("cgvalues", 3, False)], [("cgvalues", 4, False)]), [("cgvalues", ctx.pick(3000, 100000), False), ("cg", ctx.pick(1000, 60000), False)],
            mode="genall",
            sources=ctx.pick([("closed", 350), ("many", 40)], [("whole", 1)] + [("closed", 15000)] * 3 + [("many", 2000)] * 2))


def wire(ctx, every, some, count, covers=()):
    jobs = places(ctx, covers, module="WireCover", invariants=["OneValue", "Closed"], Count=count)
    for form, fuel in every:
        jobs.append(dict(name="all-%s-%d" % (form, fuel), module="Wire", spec="WSpec", workers=2, heap="4g",
                         consts=dict(gen(form, fuel, fuel, ctx.seed, ctx.seed), Count=count), invariants=["OneValue", "Closed"]))
    for k, (form, n) in enumerate(some):
        jobs += ctx.simjobs("sim-" + form, "Wire", dict(gen(form, 2, 14, 1, 1000, swarm=True), Count=count), n,
                            ctx.pick(1, 4), seed=170 + k, depth=20000, spec="WSpec", invariants=["OneValue"])
    binary = ctx.build("zzverif")
    v = ctx.merge(ctx.tlc_many(jobs), "wire")
    ctx.sample(v, 2)
    for k, part in enumerate(ctx.parts(v, 2000)):    # what is generated for a part is one program
        d = ctx.path("wiregen-%d" % k)
        os.makedirs(d)
        ctx.drive(binary, "wireprep", part, env={"VERIF_WIRE_DIR": d})
        extra = {os.path.join(REPO, "cmd", "zzwire", f): os.path.join(d, f) for f in sorted(os.listdir(d))}
        ctx.drive(ctx.build("zzwire", extra=extra, label="-%d" % k), "wire", part)


@check("P18", assumptions=GENTRUST + ["encoding/asn1 encodes what the types and annotations say, within the limits of the statement"],
       technique="TLA+ X.690 encoder over derived modules and their values (TLC), the generated types compiled and their values encoded and decoded with encoding/asn1", note="Every module within the stated number of deviations and seeded larger ones, a few values of each.")
def p18(ctx):
    wire(ctx, ctx.pick([("wire", 2), ("wiretop", 2)], [("wire", 3), ("wiretop", 3), ("wirelate", 3)]),
         [(f, ctx.pick(400, 12000)) for f in ("wire", "wirelate", "wiretop")], ctx.pick(3, 4),
         covers=ctx.pick([("wire", 2, 1, 2, False)], [("wire", 2, 4, 4, False), ("wiretop", 2, 4, 4, False), ("wire", 3, 1, 2, False)]))


# ---------------------------------------------------------------- look-up
@check("P23", assumptions=TRUST, technique="TLA+ look-up specification (TLC: every assignment list up to the stated length with every question, seeded histories of questions), replayed on parsed and built modules", note="All lists over six assignments, with equal names, names of the other kind, prefixes and other case.")
def p23(ctx):
    inv = dict(invariants=["Consistent"], properties=["FirstStays"])
    jobs = [dict(name="lists", module="Lookup", workers=4, heap="4g", consts=dict(MaxLen=ctx.pick(5, 6), MaxAsks=0, Fills=set()), **inv),
            dict(name="long", module="Lookup", workers=1, heap="3g", consts=dict(MaxLen=ctx.pick(2, 3), MaxAsks=0, Fills={12, 65, 130, 300}), **inv)]
    jobs += ctx.simjobs("histories", "Lookup", dict(MaxLen=40, MaxAsks=30, Fills={20, 90}), ctx.pick(2000, 100000), 2, seed=200, depth=300)
    jobs += ctx.simjobs("short", "Lookup", dict(MaxLen=4, MaxAsks=12, Fills=set()), ctx.pick(2000, 100000), 2, seed=201, depth=300)
    binary = ctx.build("zzverif")
    v = ctx.merge(ctx.tlc_many(jobs), "lookups")
    ctx.sample(v, 2)
    ctx.drive(binary, "lookup", v)


# ---------------------------------------------------------------- hex dumps
@check("P21", assumptions=TRUST, technique="TLA+ specification of hex dumps, written step by step and decoded declaratively (TLC), replayed in the library and in ws2bin", note="All dumps up to the stated size over a few bytes, every byte value in every style, seeded long dumps. Leading spaces, carriage returns and columns such as 001 are not claimed; what happens at a column that is no byte is not claimed beyond that no byte comes of it.")
def p21(ctx):
    allbytes = set(range(256))
    few = {0, 9, 160, 255}
    styles = {"lower", "upper", "short", "mixed"}
    base = dict(Styles=styles, Odd=True, Repeats={2}, Wides=set(), Gaps={1, 3}, Salts={0})
    inv = ["DeclAgrees"]
    jobs = [dict(name="wide", module="HexDump", workers=1, heap="3g", invariants=inv + ["WideAgrees"],
                 consts=dict(base, MaxCols=ctx.pick(2, 3), MaxLines=1, Bytes={0, 10, 175}, Styles={"lower", "short"}, Gaps={1, 2}, Odd=False, Wides={600, 9000, 30000})),
            dict(name="bytes", module="HexDump", workers=1, heap="3g", invariants=inv, consts=dict(base, MaxCols=1, MaxLines=1, Bytes=allbytes)),
            dict(name="shapes", module="HexDump", workers=ctx.pick(2, 8), heap="6g", invariants=inv,
                 consts=dict(base, MaxCols=ctx.pick(1, 3), MaxLines=2, Bytes={0, 175}, Styles={"lower", "short"}, Gaps={1, 2}))]
    jobs += ctx.simjobs("long", "HexDump", dict(base, MaxCols=300, MaxLines=25, Bytes=allbytes, Odd=False, Repeats={1, 7, 100}, Gaps={1, 2, 5}, Salts=set(range(1, 200))), ctx.pick(100, 4000), 2, seed=210,
                        depth=3000, spec="LongSpec")
    jobs += ctx.simjobs("odd", "HexDump", dict(base, MaxCols=60, MaxLines=8, Bytes=few, Gaps={1, 2, 5}, Salts=set(range(1, 200))), ctx.pick(200, 8000), 2, seed=211, depth=3000, spec="LongSpec")
    binary = ctx.build("zzverif")
    tool = ctx.build("ws2bin", pkg="./cmd/ws2bin")
    v = ctx.merge(ctx.tlc_many(jobs), "dumps")
    ctx.sample(v, 3)
    ctx.drive(binary, "hex", v, env={"VERIF_WS2BIN": tool})


# ---------------------------------------------------------------- files
@check("P22", assumptions=TRUST + ["the file system of the sandbox"], technique="TLA+ specification of a directory and its encodings under histories of calls (TLC), replayed with MarshalToFile in a scratch directory", note="All histories up to the stated length from every prior content; unwritable paths are a directory, missing and non-directory parents, too long and empty names and a full device.")
def p22(ctx):
    inv = dict(invariants=["Holds", "From", "Within", "CreatedOnce"], properties=["Calm", "OneFile"])
    jobs = [dict(name="calls-%d" % n, module="MarshalFile", workers=w, heap="4g", consts=dict(MaxCalls=n, Starts=set(st), Masks=set(ms)), **inv)
            for n, w, st, ms in ((1, 1, (1, 2, 3, 4, 5), (0, 18, 63)), (2, 3, ctx.pick((1, 2), (1, 2, 3, 4, 5)), (18,)))]
    jobs += ctx.simjobs("histories", "MarshalFile", dict(MaxCalls=12, Starts={1, 2, 3, 4, 5}, Masks={0, 2, 18, 23, 63}), ctx.pick(1000, 60000), 2, seed=220, depth=100, **inv)
    binary = ctx.build("zzverif")
    v = ctx.merge(ctx.tlc_many(jobs), "files")
    ctx.sample(v, 2)
    ctx.drive(binary, "marshal", v)


@check("P24", assumptions=TRUST + ["/proc/self/fd of the sandbox"], technique="TLA+ specification of who holds which file under histories of calls (TLC), replayed in the real library with the open files of the process counted after every step",
       note="All histories up to the stated length, seeded longer ones; files are modules, other texts, long and empty ones, directories, missing ones and a full device.")
def p24(ctx):
    inv = dict(invariants=["Returned", "OneAtATime", "Answered"], properties=["Owned"])
    c = dict(Leaky=False)
    jobs = [dict(name="steps-%d" % n, module="Files", workers=2, heap="3g", consts=dict(c, MaxSteps=n, Given=g), **inv)
            for n, g in ctx.pick(((1, 1), (2, 1), (3, 1)), ((2, 2), (3, 2), (4, 1)))]
    jobs += ctx.simjobs("histories", "Files", dict(c, MaxSteps=40, Given=3), ctx.pick(300, 10000), 2, seed=240, depth=400, **inv)
    binary = ctx.build("zzverif")
    v = ctx.merge(ctx.tlc_many(jobs), "files")
    ctx.sample(v, 2)
    ctx.drive(binary, "files", v, args=("-workers", "1"))


@check("P20", assumptions=TRUST + ["the library's own answer for a text (its properties are P05 to P17)", "the file system of the sandbox"],
       technique="TLA+ specification of the command's arguments, channels and failures (TLC), every behaviour run with the real command in a scratch directory", note="All command lines up to the stated number of arguments in a set of worlds, all worlds for the usual command lines. The output being the input, empty names and -h are not claimed.")
def p20(ctx):
    inv = dict(invariants=["Ends", "OnlyIfPossible"], properties=["Once"])
    usual = {"in.asn1", "out.go", "-package", "custom", "-package=p"}
    every = usual | {"--package=other", "-default-integer-repr", "big.Int", "-default-integer-repr=weird", "--default-integer-repr=int64", "--", "-unknown", "--unknown=1", "-package=", "--default-integer-repr", "-default-integer-repr=big.Int"}
    more = every | {"-package=snake_case2", "--package=Upper", "-default-integer-repr=", "-default-integer-repr=Int64", "--default-integer-repr=BIG.INT", "-default-integer-repr=math/big.Int",
                    "-default-integer-repr=*big.Int", "--default-integer-repr=int", "-default-integer-repr=int64 ", "-default-integer-repr=bigint", "-Package=p", "-packages=p", "-integer-repr=int64",
                    "in.asn1.go", "out"}
    ins = {"plain", "ints", "values", "broken", "odd", "percent", "huge", "empty", "missing", "dir", "tail", "lateodd"}
    jobs = [dict(name="worlds", module="Cli", workers=2, heap="3g", **inv,
                 consts=dict(MaxArgs=2, Tokens={"in.asn1", "out.go"}, Ins=ins, Stdins={"plain", "broken"}, Outs={"absent", "old", "short", "dir", "noparent", "full"}, Stdouts={"normal", "full"})),
            dict(name="stdin", module="Cli", workers=2, heap="3g", **inv,
                 consts=dict(MaxArgs=2, Tokens={"-package=other", "-default-integer-repr=weird", "-default-integer-repr=big.Int", "--", "-unknown"}, Ins={"plain"}, Stdins=ins - {"missing"}, Outs={"old"}, Stdouts={"normal", "full"})),
            dict(name="args", module="Cli", workers=2, heap="3g", **inv,
                 consts=dict(MaxArgs=ctx.pick(3, 4), Tokens=every, Ins={"values"}, Stdins={"ints"}, Outs={"old"}, Stdouts={"normal"}))]
    jobs.append(dict(name="flags", module="Cli", workers=2, heap="3g", **inv,
                     consts=dict(MaxArgs=ctx.pick(2, 3), Tokens=more, Ins={"values", "plain"}, Stdins=ctx.pick({"ints"}, {"ints", "plain", "tail", "lateodd"}), Outs={"old"}, Stdouts={"normal"})))
    jobs += ctx.simjobs("lines", "Cli", dict(MaxArgs=6, Tokens=more, Ins=ins, Stdins=ins - {"missing"}, Outs={"absent", "old", "short", "dir", "noparent", "full"}, Stdouts={"normal", "full"}),
                        ctx.pick(1500, 40000), 2, seed=230, depth=100, **inv)
    binary = ctx.build("zzverif")
    tool = ctx.build("asn1go", pkg="./cmd/asn1go")
    v = ctx.merge(ctx.tlc_many(jobs), "commands")
    ctx.sample(v, 3)
    ctx.drive(binary, "cli", v, env={"VERIF_ASN1GO": tool})


# ---------------------------------------------------------------- histories of calls
def join(v):
    if "gaps" in v:
        return "".join(g + (v["toks"][i] if i < len(v["toks"]) else "") for i, g in enumerate(v["gaps"]))
    return " ".join(v["toks"])


def pool(ctx, path, want, keep=lambda v: True):
    """Texts of vectors, at most `want`, spread over the file."""
    texts, seen = [], set()
    for line in open(path):
        if len(line) < 3:
            continue
        v = json.loads(line)
        if isinstance(v, str):
            v = json.loads(v)
        t = join(v)
        if keep(v) and t not in seen and len(t) < 4000:
            seen.add(t)
            texts.append(t)
    texts.sort(key=lambda t: zlib.crc32(("%d " % ctx.seed + t).encode()))
    if not texts:
        raise Trouble("no texts in " + path)
    return texts[:want]


@check("P19", assumptions=TRUST + ["the answer of a process to its first call (its properties are P01 to P17)", "the Go race detector, for calls at the same time"],
       technique="TLA+ specification of histories of suspended, failing and overlapping calls (TLC), replayed call by call in the real library and freely under the race detector",
       note="All histories of two calls of three processes and of three calls without failures of two, seeded histories of many calls; calls are suspended at their reads and writes. Inside a call the schedule is the Go scheduler's; there the race detector decides.")
def p19(ctx):
    inv = dict(invariants=["Functional", "Unharmed"], properties=["Owned", "Final"])
    ng, nm, nb = ctx.pick((30, 15, 15), (300, 150, 150))
    G, M, B = set(range(1, ng + 1)), set(range(ng + 1, ng + nm + 1)), set(range(ng + nm + 1, ng + nm + nb + 1))
    one = lambda s: {min(s)}
    z = dict(SaltLo=0, SaltHi=0, Shared=False)
    jobs = [dict(name="two", module="Api", workers=2, heap="3g", **inv,
                 consts=dict(z, Procs=ctx.pick(2, 3), MaxCalls=2, Gens=one(G), Mods=one(M), Bads=one(B), Pieces={1, 3}, Params={1, 2}, Faults=True)),
            dict(name="three", module="Api", workers=2, heap="4g", **inv,
                 consts=dict(z, Procs=2, MaxCalls=3, Gens=one(G), Mods=set(), Bads=one(B) if not ctx.quick else set(), Pieces={1}, Params={2}, Faults=False))]
    sims = []
    for k, (procs, calls, n) in enumerate(ctx.pick(((1, 12, 200), (3, 8, 300), (4, 16, 60)), ((1, 30, 3000), (2, 12, 8000), (3, 10, 8000), (4, 24, 4000), (8, 60, 1000)))):
        for pieces in ({1, 2}, {1, 4, 12}):
            sims += ctx.simjobs("many-%d-%d" % (procs, len(pieces)), "Api",
                                dict(Procs=procs, MaxCalls=calls, Gens=G, Mods=M, Bads=B, Pieces=pieces, Params={1, 2, 3}, Faults=True, SaltLo=1, SaltHi=1000, Shared=False),
                                n, 1, seed=250 + 2 * k, depth=4000, **inv)
    texts = [dict(name="g-%d" % k, module="Gen", consts=gen(form, 3, 40, 1, 400, swarm=True), sim=ctx.pick(40, 400), seed=270 + k, depth=20000) for k, form in enumerate(("cg", "wiretop"))]
    texts += [dict(name="m-%d" % k, module="Gen", consts=gen(form, 4, 40, 1, 400, swarm=True), sim=ctx.pick(20, 200), seed=275 + k, depth=20000) for k, form in enumerate(("module", "values", "constraints"))]
    texts += ctx.simjobs("b", "Mutate", dict(gen("module", 4, 30, 1, 200, swarm=True), Mode="some", Count=3, Depth=2), ctx.pick(20, 200), 1, seed=280, depth=20000, spec="MSpec")
    files = ctx.tlc_many(jobs + sims + texts)
    h, t = files[:len(jobs) + len(sims)], files[len(jobs) + len(sims):]
    world = {}
    for ids, fs, keep in ((G, t[:2], lambda v: True), (M, t[2:5], lambda v: True), (B, t[5:], lambda v: v["verdict"] == "reject")):
        p = pool(ctx, ctx.merge(fs, "pool-%d" % min(ids)), len(ids), keep)
        for k, i in enumerate(sorted(ids)):
            world[i] = p[k % len(p)]
    out = ctx.path("histories-with-texts.ndjson")
    with open(out, "w") as o:
        for line in open(ctx.merge(h, "histories")):
            v = json.loads(line)
            v = json.loads(v) if isinstance(v, str) else v
            v["texts"] = {e["t"]: world[e["t"]] for e in v["log"] if e["e"] == "parse"}
            o.write(json.dumps(v) + "\n")
    ctx.sample(out, 2)
    ctx.drive(ctx.build("zzverif"), "api", out, args=("-workers", "1"))
    free = ctx.path("free.ndjson")
    with open(free, "w") as o:
        for i, line in enumerate(open(out)):
            v = json.loads(line)
            if len({e["p"] for e in v["log"]}) > 1 and (len(v["log"]) > 16 or i % 40 == 0):
                o.write(line)
    ctx.drive(ctx.build("zzverif", race=True), "apifree", free, args=("-workers", "1"), env={"GORACE": "log_path=race exitcode=0", "VERIF_FIRST": ctx.build("zzverif")}, timeout=60)
