"""Per property: which models are run, with which bounds."""


def ints(xs):
    return "{" + ", ".join(str(x) for x in xs) + "}"


def c09(tier, seed):
    q = tier == "quick"
    return [
        dict(name="decomp", module="MC_Decomp", driver=["f_decomp.go"], invariants=["ScanInv", "DesignInv", "ImplInv"],
             constants=dict(Seed=seed, SmallX=256 if q else 2048, SmallK=ints(range(1, 6)), SmallT=ints(range(0, 6)),
                            MidX=4096 if q else 16383,
                            MidKs=ints([1, 2, 3, 4, 5, 7] if q else list(range(1, 16))),
                            MidTs=ints([0, 1, 2, 3, 4, 6] if q else list(range(0, 16))),
                            Rounds=64, PerRound=300 if q else 6000, MaxBits=1024, WideN=60 if q else 600, TwinRuns=500 if q else 10000)),
    ]


PROPS = {
    "C09": dict(runs=c09),
}


def c02(tier, seed):
    q = tier == "quick"
    return [dict(name="chain", module="MC_Chain", driver=["f_core.go"], invariants=["ModelInv", "ImplInv"],
                 constants=dict(Seed=seed, NegVal=1, PosVal=6 if q else 8, FreeLen=5 if q else 6, ValidLen=8 if q else 9,
                                NearLen=6 if q else 7, Rounds=64, PerRound=60 if q else 250, MaxRandLen=30 if q else 40, LongRuns=8 if q else 40),
                 expect={"cov:valid": 1000, "cov:unsorted-valid": 1000})]


def c18(tier, seed):
    q = tier == "quick"
    return [dict(name="builder", module="MC_Builder", driver=["f_core.go"], invariants=["ModelInv", "ImplInv"],
                 constants=dict(Seed=seed, HistLen=3 if q else 4, ProgLen=5 if q else 6, PairLen=6 if q else 7,
                                Rounds=64, PerRound=150 if q else 1500, LongRuns=800 if q else 4000),
                 expect={"builderlong": 40, "builder": 1000, "analyse": 1000, "product": 1000, "plus": 100})]


def c10(tier, seed):
    q = tier == "quick"
    return [dict(name="optimize", module="MC_Opt", driver=["f_opt.go"], invariants=["ModelInv", "ImplInv"],
                 constants=dict(Seed=seed, MaxLen=8 if q else 9, DesignLen=7 if q else 8, Rounds=64, PerRound=300 if q else 3000,
                                MaxRandLen=24 if q else 40, LongRuns=1000 if q else 4000), expect={"cov:shortened": 1000})]


def c11(tier, seed):
    q = tier == "quick"
    return [dict(name="runs", module="MC_Runs", driver=["f_runs.go"], invariants=["ModelInv", "ImplInv"],
                 constants=dict(Seed=seed, MaxLen=8, MaxVal=400, DesignLen=7 if q else 8, Rounds=64,
                                PerRound=20 if q else 300, MaxRandLen=12 if q else 16, RandVal=2000 if q else 5000, Huge="TRUE", BigRuns=200 if q else 3000),
                 expect={"huge": 6, "bigruns": 100, "runs": 1000})]


PROPS.update({
    "C02": dict(runs=c02),
    "C18": dict(runs=c18),
    "C10": dict(runs=c10),
    "C11": dict(runs=c11),
})


def c19(tier, seed):
    q = tier == "quick"
    return [dict(name="helpers", module="MC_Helpers", driver=["f_helpers.go"], invariants=["ModelInv", "ImplInv"],
                 constants=dict(Seed=seed, MaskN=200, ExtractX=256 if q else 2048, ListLen=5 if q else 6, ListHi=2 if q else 4, SortHi=5 if q else 7,
                                VecHi=2 if q else 3, Rounds=64, PerRound=150 if q else 2500, MaxBits=600, LargeRuns=350 if q else 5000),
                 expect={"h.mask": 1000, "h.extract": 1000, "h.unary": 200, "h.minmax": 100, "h.parse": 1000, "h.list": 1000, "h.sorted": 1000, "h.vector": 100})]


PROPS["C19"] = dict(runs=c19)


def c13(tier, seed):
    q = tier == "quick"
    return [dict(name="calc", module="MC_Calc", driver=["f_calc.go", "f_cli.go"], binary=True,
                 invariants=["YardInv", "TextInv", "ImplInv"],
                 constants=dict(Seed=seed, LitsA=ints([1, 5, 6]), OpsA=4, LitsB=ints([3, 5]), OpsB=5,
                                TextLen=4 if q else 6, Rounds=64, PerRound=300 if q else 6000, CliRuns=24 if q else 200, EdgeTriples=60, LongRuns=300)
                 if q else dict(Seed=seed, LitsA=ints([0, 3, 4, 5, 10]), OpsA=4, LitsB=ints([1, 5, 6]), OpsB=5,
                                TextLen=5, Rounds=64, PerRound=6000, CliRuns=200, EdgeTriples=1000, LongRuns=6000),
                 expect={"calc": 10000, "cov:ok": 10000, "cov:err": 10000, "search": 5})]


PROPS["C13"] = dict(runs=c13)


def c20(tier, seed):
    q = tier == "quick"
    return [dict(name="meta", module="MC_Meta", driver=["f_meta.go"], binary="release",
                 invariants=["ModelInv", "ImplInv"], properties=["StepProp"],
                 constants=dict(Seed=seed, HistLen=3 if q else 4, ByteLen=2 if q else 3, Rounds=64, PerRound=400 if q else 4000,
                                BumpRuns=200 if q else 2000, LongRuns=24 if q else 120),
                 expect={"mv.hist": 1000, "mv.round": 1000, "mv.bump": 40})]


PROPS["C20"] = dict(runs=c20)


def c01(tier, seed):
    q = tier == "quick"
    return [dict(name="algs", module="MC_Algs", driver=["f_algs.go"], invariants=["ImplInv"],
                 constants=dict(Seed=seed, EnsN=500 if q else 4000, CfgN=80 if q else 300, KMax=5 if q else 7, TMax=5 if q else 7,
                                Rounds=64, PerRound=80 if q else 400, EnsMid=400 if q else 2000, EnsBig=120 if q else 600, ManyN=16000 if q else 60000, FreshEvery=10 if q else 20, TwinRuns=200 if q else 4000, HugeRuns=48 if q else 900),
                 expect={"fresh": 300, "algs": 2000, "ens": 200})]


PROPS["C01"] = dict(runs=c01)


def c08(tier, seed):
    q = tier == "quick"
    return [dict(name="seq", module="MC_Seq", driver=["f_algs.go"], invariants=["LoopInv", "FailInv", "CFInv", "InfoInv", "ImplInv"],
                 constants=dict(Seed=seed, LenA=4 if q else 5, ValA=6 if q else 8, LenB=2 if q else 3, ValB=40 if q else 50,
                                DesignLen=3 if q else 4, DesignVal=14 if q else 20, StratVal=1000 if q else 20000, Rounds=64, PerRound=100 if q else 2000, TwinRuns=300 if q else 6000, WideRuns=12 if q else 200),
                 expect={"seq": 10000, "cov:failed-partial": 100, "info:design-compared": 100})]


PROPS["C08"] = dict(runs=c08)


def c12(tier, seed):
    q = tier == "quick"
    return [
        # every interleaving of the design, with liveness and refinement of the observable specification
        dict(name="design", module="Executor", invariants=["LimitInv", "ReturnInv", "SlotInv", "TokenInv"],
             properties=["Terminates", "StoreOnce", "QuietAfter", "Refines"],
             constants=dict(MaxN=4 if q else 6, ExtraLimit=2)),
        dict(name="schedules", module="MC_Exec", driver=["f_exec.go", "f_algs.go"], invariants=["ImplInv"],
             constants=dict(Seed=seed, MaxN=5 if q else 7, ExtraLimit=2, Repeats=4 if q else 2, ManyRuns=200 if q else 1000, MixRuns=100 if q else 1000, PatientRuns=8 if q else 16, EnsRuns=24 if q else 40, EnsStep=5, EnsBits=64 if q else 128, Slow=10),
             expect={"exec.run": 1000}),
        dict(name="race", module="MC_Exec", driver=["f_exec.go", "f_algs.go"], race=True, invariants=["ImplInv"],
             constants=dict(Seed=seed + 1000, MaxN=4 if q else 5, ExtraLimit=2, Repeats=2 if q else 6, ManyRuns=20 if q else 300, MixRuns=60 if q else 1500, PatientRuns=0, EnsRuns=12 if q else 100, EnsStep=6, EnsBits=48 if q else 96, Slow=10),
             expect={"exec.run": 100, "exec.ens": 10}),
    ]


PROPS["C12"] = dict(runs=c12)


# What each check decides, within which bounds (MANIFEST level_note).
NOTES = {
    "C01": "every target to 500 (quick) / 4000 by the whole ensemble plus wide configurations of every algorithm; random and structured targets to ~600 bits, and of 1100-4096 bits; exactly one call of the real code per state",
    "C02": "all value sequences to a length and value bound, including negative ones, all valid chains to length 8/9, neighbours of valid chains, random long chains",
    "C08": "all target lists to small bounds for both sequence heuristics and all continued-fraction strategies; design models of both loops",
    "C09": "all small x K x T for every decomposer; mid-range grids; random to 1024 bits; width parameters at the machine word limit; look-alike inputs one after the other",
    "C10": "all valid chains to length 8/9, random redundant unions, elements used by exactly n operations for n around machine-size boundaries",
    "C11": "all valid ascending chains of run lengths to length 8, random, and lengths beyond the machine word",
    "C12": "all interleavings of the design for up to 4/6 algorithms with refinement of the observable specification; real executor driven through sampled schedules at every limit; mixes of the real algorithms in parallel; algorithms that take seconds; race detector",
    "C13": "all infix expressions over bounded literal/operator alphabets, all texts of the alphabet to length 4/6, random expressions to hundreds of bits; the command-line tool",
    "C18": "all call histories to length 3/4 (accepted and refused), all programs to 5/6 ops, all pairs of ascending chains to length 6/7",
    "C19": "exhaustive small domains for every helper plus random wide inputs",
    "C20": "version texts and citation metadata: all short byte strings, bump histories, files read in pieces, the release tool",
}


def c03(tier, seed):
    q = tier == "quick"
    return [dict(name="parse", module="MC_Parse", driver=["f_core.go", "f_acc.go", "f_cli.go"], binary=True,
                 invariants=["ModelInv", "ImplInv"],
                 constants=dict(Seed=seed, TokLen=3 if q else 4, CoreLen=4 if q else 6, TreeOps=3 if q else 4, Styles=2 if q else 3,
                                Rounds=64, PerRound=150 if q else 3000, CliRuns=60 if q else 300, LongTexts=200 if q else 2000, NameRuns=150 if q else 3000, LongShifts=2 if q else 6, ViaRuns=900 if q else 9000),
                 expect={"loadvia": 500, "cov:via-accepted": 200, "cov:via-failed": 100, "load": 10000, "loadrep": 100, "cov:long-accepted": 20, "cov:accept": 2000, "cov:reject-syntax": 2000, "cov:reject-meaning": 500, "evalcli": 40})]


PROPS["C03"] = dict(runs=c03)
NOTES["C03"] = "all token sequences to length 3/4 (21 tokens) and 4/6 (10 tokens, three contexts), all trees to 3/4 operators in several spellings, random scripts and edits; texts delivered in pieces, by failing readers and from files; command line samples"


def c07(tier, seed):
    q = tier == "quick"
    return [dict(name="print", module="MC_Print", driver=["f_core.go", "f_acc.go", "f_cli.go"], binary=True,
                 invariants=["ModelInv", "ImplInv"],
                 constants=dict(Seed=seed, OpsWide=3 if q else 4, OpsDeep=5 if q else 6, Rounds=64, PerRound=100 if q else 2000,
                                Deep=60 if q else 200, CliRuns=60 if q else 300, LongRuns=80 if q else 1500),
                 expect={"print": 20000, "fmt": 1000, "printexpr": 300, "cov:parsed": 1000})]


PROPS["C07"] = dict(runs=c07)
NOTES["C07"] = "all expression trees to 3/4 operators over five leaves and to 5/6 over two, in every statement position; random deep trees, identifiers over the full alphabet, extreme indexes; parsed and edited texts; command line samples"


def build(inv, tag, exp):
    def runs(tier, seed):
        q = tier == "quick"
        return [dict(name="build", module="MC_Build", driver=["f_core.go", "f_acc.go", "f_progs.go"],
                     invariants=["ModelInv", inv],
                     constants=dict(Seed=seed, ProgLen=6 if q else 7, OrderLen=4, Rounds=64, PerRound=30 if q else 600,
                                    MaxOps=60 if q else 120, SearchRuns=500 if q else 6000, SearchBits=250 if q else 520, BigRuns=60 if q else 400, LongShifts=(2 if q else 6) if tag == "roundtrip" else 0, RebuildRuns=1500 if q else 15000),
                     expect=dict({tag: 20000, ("rebuild" if tag == "roundtrip" else "renames"): 1000}, **exp))]
    return runs


PROPS["C04"] = dict(runs=build("InvC04", "roundtrip", {"saved": 300, "cov:shift": 1000, "cov:inlining-limit": 50}))
NOTES["C04"] = "all duplicate-free programs to length 6/7 (both operand orders to 4), random programs to 64/124 operations in seven styles, search results; text judged by the grammar model and by the real loader; loaded scripts rebuilt; scripts saved over longer files"
PROPS["C16"] = dict(runs=build("InvC16", "names", {"cov:byte": 1000, "cov:ones": 200, "cov:index": 1000, "cov:kept-name": 500, "cov:misleading-name": 200}))
NOTES["C16"] = NOTES["C04"]


def alloc(inv, tag, exp):
    def runs(tier, seed):
        q = tier == "quick"
        return [dict(name="alloc", module="MC_Alloc", driver=["f_core.go", "f_acc.go", "f_progs.go"],
                     invariants=["ModelInv", inv],
                     constants=dict(Seed=seed, InsLen=4 if q else 5, PlainLen=4, TightLen=6 if q else 7, Rounds=64, PerRound=80 if q else 800,
                                    MaxOps=25 if q else 45, SearchRuns=300 if q else 3000, LongRuns=16 if q else 300, MidRuns=1500 if q else 12000),
                     expect=dict({tag: 8000}, **exp))]
    return runs


PROPS["C05"] = dict(runs=alloc("InvC05", "alloc", {"cov:dead": 1000, "cov:temps": 1000}))
NOTES["C05"] = "all well-formed instruction programs to 4/5 instructions (both operand orders, shared and copied operands), random, decompiled, searched and scripted programs; six naming configurations, output distinct from and aliased to the input"
PROPS["C17"] = dict(runs=alloc("InvC17", "temps", {"cov:tight": 1000, "cov:temps": 1000, "cov:wide": 100}))
NOTES["C17"] = "the programs of C05 without dead values, against independently computed peak liveness"


def gen_runs(tier, seed):
    q = tier == "quick"
    return [dict(name="gen", module="MC_Gen", driver=["f_core.go", "f_acc.go", "f_progs.go", "f_cli.go"], binary=True,
                 invariants=["ModelInv", "ImplInv"],
                 constants=dict(Seed=seed, Stmts=2 if q else 3, WideStmts=2 if q else 3, Rounds=64, PerRound=1200 if q else 5000,
                                MaxStmts=9 if q else 14, SearchRuns=500 if q else 3000, SearchBits=250 if q else 500, CliRuns=2000 if q else 12000, LongRuns=16 if q else 300, MidRuns=1500 if q else 12000),
                 expect={"gen": 5000, "gencli": 200, "cov:accepted": 2000, "cov:cli-accepted": 50, "cov:dangling": 300, "cov:aliases": 300})]


PROPS["C06"] = dict(runs=gen_runs)
NOTES["C06"] = "all scripts of up to two or three statements over small expressions with index operands (also into shifts), random scripts in random spellings, search output; library and command, every builtin template, the listing run with and without aliasing"


def search(tier, seed):
    q = tier == "quick"
    return [dict(name="search", module="MC_Search", driver=["f_core.go", "f_acc.go", "f_cli.go", "f_report.go"], binary=True,
                 invariants=["ImplInv"],
                 constants=dict(Seed=seed, SmallTo=128 if q else 1024, Rounds=24 if q else 100, PerRound=10, MaxBits=240 if q else 600, AllP=0),
                 expect={"search": 120, "cov:choice": 100, "cov:tradeoff": 20, "cov:verbose": 30})]


PROPS["C14"] = dict(runs=search)
NOTES["C14"] = "the command of the working tree: small targets exhaustively, structured targets to 160/600 bits, weights over fifteen values, -p over {1,2,3,5,16,64,default}"


def crash(tier, seed):
    q = tier == "quick"
    return [dict(name="crash", module="MC_Crash", driver=["f_core.go", "f_acc.go", "f_crash.go", "f_cli.go"], binary=True,
                 invariants=["ImplInv"],
                 constants=dict(Seed=seed, TokLen=3 if q else 4, CoreLen=4 if q else 6, ExprLen=3 if q else 5, Rounds=64, PerRound=150 if q else 1500,
                                CliScripts=1500 if q else 12000, CliExprs=1000 if q else 8000, CliLines=800 if q else 8000, DeepTo=60000, LongTo=5000 if q else 40000),
                 expect={"entries": 10000, "expr": 8000, "script": 1500, "search": 600, "line": 500, "cov:parsed": 1000, "cov:generated": 500,
                         "cov:search-ok": 100, "cov:search-refused": 100, "cov:usage": 50})]


PROPS["C15"] = dict(runs=crash)
NOTES["C15"] = "degenerate texts with every command, all short token sequences, edited and random texts to a few hundred bytes, fourteen long and deep shapes to 60 kB, expressions, flags and whole command lines; targets to 120 bits; long expressions of up to 5000/40000 pieces"
