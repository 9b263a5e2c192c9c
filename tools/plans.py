"""What each property's check consists of."""
import __main__ as M  # check.py

cfg = M.cfg
BOTH = ("release", "checked")


def mc(c, label, n, deg, labels, jobs, invs, acyclic=False, different=False, live=False, **kw):
    c.model("MCCompare", cfg(spec="FairSpec" if live else "Spec",
                             consts={"MaxN": n, "TopDeg": deg, "Labels": "{%s}" % ", ".join(map(str, range(labels))),
                                     "Jobs": "<- " + jobs, "OnlyAcyclic": acyclic, "OnlyDifferent": different},
                             invariants=invs, properties=["Terminates"] if live else ()), label, **kw)


def refine(c, label, n, deg, labels, jobs, acyclic=False):
    """Compare does only what Policy, of which PolicyProof is about, allows."""
    c.model("MCRefine", cfg(consts={"MaxN": n, "TopDeg": deg, "Labels": "{%s}" % ", ".join(map(str, range(labels))),
                                    "Jobs": "<- " + jobs, "OnlyAcyclic": acyclic, "OnlyDifferent": False},
                            invariants=["RefinesInit", "RightHere"], properties=["Refines"]), "only what Policy allows, " + label, deadlock=False)
    c.prove("PolicyProof", "whatever the policy, graph and its size: the answer is right")


def work(c, label, n, deg, labels):
    """Compare works no more than Work, of which WorkProof is about, does."""
    c.model("MCWork", cfg(consts={"MaxN": n, "TopDeg": deg, "Labels": "{%s}" % ", ".join(map(str, range(labels))),
                                  "Jobs": "<- JobsAll", "OnlyAcyclic": False, "OnlyDifferent": False},
                          invariants=["WorksInit", "BoundHere"], properties=["Works"]), "only the work Work does, " + label, deadlock=False)
    c.prove("WorkProof", "whatever the graph, its size, the limits, the policy and the draws: work is within the bound, the ticker within its range")


def outcomes(c, label, invs, args, shards=4, scale=1.0, flavours=BOTH):
    d = c.lab("outcomes", args, shards=shards, scale=scale, flavours=flavours, name="outcomes_" + label)
    path, n = c.gather(d, "outcomes.ndjson", f"outcomes_{label}.ndjson")
    c.judge("Outcome", cfg(consts={"Chunks": 32}, invariants=["CertOK"] + invs), path, n, label, stats=c.stats(d))


def traces(c, label, args, live=False, stk=False, invs=(), shards=4, scale=1.0, flavours=BOTH):
    d = c.lab("traces", args, shards=shards, scale=scale, flavours=flavours, name="traces_" + label)
    path, n = c.gather(d, "traces.ndjson", f"traces_{label}.ndjson")
    c.judge("CompareTrace", cfg(spec="TSpec", consts={"Chunks": 32, "CheckLive": live, "CheckStk": stk, "StkMax": 16384},
                                invariants=invs), path, n, label, index="t", deadlock=True, stats=c.stats(d))


def every(c, most):
    """Every behaviour over all small graphs, thinned to so many graphs with variants per recorder."""
    return ["exh=2", f"exhmax={most}"] if c.quick else ["exh=3", f"exhmax={most * 15}"]


def c01(c):
    c.build()
    inv = ["RVerdict", "RType", "RCls", "RIdent"]
    if c.quick:
        mc(c, "all graphs of 2 nodes", 2, 2, 2, "JobsInterleave", inv)
        refine(c, "all graphs of 2 nodes", 2, 2, 2, "JobsAll")
        outcomes(c, "quick", ["CycVerdicts", "NoPanic", "Ends"],
                 ["set=cyc", "exh=3", "exhmax=600", "rand=800", "max=10", "big=60", "bigmax=110"])
    else:
        mc(c, "all graphs of 3 nodes", 3, 2, 2, "JobsInterleave", inv)
        mc(c, "all graphs of 3 nodes, stack", 3, 2, 2, "JobsStack", inv)
        refine(c, "all graphs of 3 nodes", 3, 2, 2, "JobsAll")
        outcomes(c, "thorough", ["CycVerdicts", "NoPanic", "Ends"],
                 ["set=cyc", "exh=3", "exhmax=4000", "rand=20000", "max=12", "big=300", "bigmax=150"])
    families(c, "cyclic", ["Ends", "Answers"], "ring,cycles,unroll,grid", size=20_000)


def c02(c):
    c.build()
    n = 2 if c.quick else 3
    mc(c, f"all acyclic graphs of {n} nodes", n, 3 if c.quick else 2, 2, "JobsUnlimited", ["RVerdict", "RType"], acyclic=True)
    mc(c, f"all acyclic graphs of {n} nodes, limited", n, 2, 2, "JobsLimited", ["RVerdict", "RType"], acyclic=True)
    refine(c, f"all acyclic graphs of {n} nodes", n, 2, 2, "JobsUnlimited", acyclic=True)
    refine(c, f"all acyclic graphs of {n} nodes, limited", n, 2, 2, "JobsLimited", acyclic=True)
    k = 1 if c.quick else 25
    outcomes(c, "acyclic", ["SimpleVerdicts", "NoPanic", "Ends"],
             ["set=acyc", "exh=3", f"exhmax={300 * k}", f"rand={400 * k}", "max=12", f"big={12 * k}", "bigmax=60"])
    families(c, "deep and wide", ["Ends", "Answers"], "chain,wide,tree,two,fan,broom,uneven")


def c03(c):
    c.build()
    inv = ["RWork", "RType"]
    n = 2 if c.quick else 3
    mc(c, f"all graphs of {n} nodes", n, 2, 1, "JobsInterleave", inv)
    mc(c, f"all graphs of {n} nodes, precheck", n, 2, 1, "JobsPre", inv)
    work(c, f"all graphs of {n} nodes", n, 2, 1)
    mc(c, "every behaviour ends, all graphs of 2 nodes", 2, 2, 1, "JobsInterleave", ["RType"], live=True)
    k = 1 if c.quick else 25
    outcomes(c, "cyclic", ["Work", "Ends"],
             ["set=cyc", "exh=3", f"exhmax={250 * k}", f"rand={500 * k}", "max=12", f"big={20 * k}", "bigmax=120"])
    families(c, "shared", ["Ends", "Answers", "Bounded"], "degen,ring,cycles,grid")


def c04(c):
    c.build()
    n = 2 if c.quick else 3
    mc(c, f"all acyclic graphs of {n} nodes", n, 3 if c.quick else 2, 2, "JobsUnlimited", ["RFirst"], acyclic=True)
    mc(c, f"all graphs of {n} nodes", n, 2, 2, "JobsInterleave", ["RFirst"])
    mc(c, f"all different graphs of {n} nodes", n, 2, 2, "JobsQueue", ["RFirst"], different=True)
    k = 1 if c.quick else 25
    outcomes(c, "different", ["FirstDifference", "FirstDifferenceDfsWalk"],
             ["set=diff", "exh=2", f"exhmax={150 * k}", f"rand={350 * k}", "max=12", f"big={10 * k}", "bigmax=70"])
    outcomes(c, "acyclic", ["FirstDifference", "FirstDifferenceDfsWalk"],
             ["set=acyc", "exh=3", f"exhmax={100 * k}", f"rand={300 * k}", "max=12", f"big={8 * k}", "bigmax=70"])
    families(c, "different", ["Answers", "Exact"], "chain,wide,tree,two,fan,broom,unroll,uneven")


def c05(c):
    c.build()
    n = 2 if c.quick else 3
    mc(c, f"all acyclic graphs of {n} nodes", n, 2, 2, "JobsLimited", ["RLimit"], acyclic=True)
    k = 1 if c.quick else 25
    outcomes(c, "limits", ["Limits"],
             ["set=lim", "exh=3", f"exhmax={150 * k}", f"rand={250 * k}", "max=12", f"big={10 * k}", "bigmax=60"])
    families(c, "limited", ["Ends", "Answers", "Exact"], "limited", reps=2)


def c06(c):
    c.build()
    n = 2 if c.quick else 3
    mc(c, f"all graphs of {n} nodes", n, 2, 2, "JobsPre", ["RPre", "RFirst", "RVerdict"])
    refine(c, f"all graphs of {n} nodes", n, 2, 2, "JobsPre")
    k = 1 if c.quick else 25
    traces(c, "precheck", ["sel=inter,prem,tab,ext,hand,pre", f"rand={900 * k}", f"big={12 * k}", "bigmax=300"] + every(c, 700),
           invs=["TPre"])
    families(c, "precheck", ["Answers", "Exact"], "chain,tree,two,fan,broom,unroll,uneven,prechecks")


def c08(c):
    c.build()
    n = 2 if c.quick else 3
    mc(c, f"all graphs of {n} nodes", n, 2, 2, "JobsInterleave", ["RIdent"])
    k = 1 if c.quick else 25
    traces(c, "identical", ["sel=inter,prem,tab,simp", f"rand={900 * k}"] + every(c, 700), invs=["TIdent"])
    callbacks(c, "identical", ["NeverIdentical", "EdgesOnlyOfEqual"], [f"rand={300 * k}"])


def c12(c):
    c.build()
    k = 1 if c.quick else 25
    traces(c, "stack use", ["sel=inter,prem,tab,simp,lazy", f"rand={600 * k}", f"big={12 * k}", "bigmax=400"], stk=True)
    families(c, "any size", ["Ends", "SmallStack"], "chain,wide,tree,two,fan,broom,unroll,uneven,degen,ring,cycles,grid,limited", size=100_000 if c.quick else 1_000_000)


def c13(c):
    c.build()
    n = 2 if c.quick else 3
    mc(c, f"all graphs of {n} nodes", n, 2, 2, "JobsStack", ["RPend"])
    k = 1 if c.quick else 25
    traces(c, "pending", ["sel=inter,prem,tab,simp,lazy", f"rand={600 * k}", f"big={12 * k}", "bigmax=400"] + every(c, 500), live=True)
    families(c, "any size", ["FewNodes", "NothingKept"], "chain,wide,tree,two,fan,broom,unroll,uneven,limited", size=100_000)


def c14(c):
    c.build()
    n = 2 if c.quick else 3
    mc(c, f"all graphs of {n} nodes", n, 2, 2, "JobsInterleave", ["RTick"])
    mc(c, f"all graphs of {n} nodes, precheck", n, 2, 2, "JobsPre", ["RTick"])
    work(c, f"all graphs of {n} nodes", n, 2, 1)
    k = 1 if c.quick else 25
    traces(c, "phases", ["sel=inter,prem,tab,ext", f"rand={1200 * k}", f"big={30 * k}", "bigmax=400"] + every(c, 1200),
           invs=["TTick", "TWork", "TCls"])


def uf_model(c, invs, props=()):
    n = 6 if c.quick else 8
    c.model("EquivClasses", cfg(consts={"NN": n}, invariants=invs, properties=props),
            f"every history over {n} nodes")


def uf_steps(c):
    """Write by write, for which ForestProof is."""
    n = 5 if c.quick else 6
    c.model("ClassSteps", cfg(spec="CSpec", consts={"NN": n}, invariants=["SameAnswer", "SameClasses", "OneStep"], properties=["Refines"]),
            f"every history over {n} nodes, write by write, does only what Forest allows")
    c.prove("ForestProof", "however many keys, cells and writes: sound and logarithmic")


def uf(c, label, invs, args, bigs=(), **kw):
    d = c.lab("classes", args, name="classes_" + label, **kw)
    st = c.stats(d)
    path, n = c.gather(d, "classes.ndjson")
    c.judge("ClassTrace", cfg(consts={"Chunks": 32}, invariants=invs), path, n, label, index="t", stats=st)
    if bigs:
        path, n = c.gather(d, "bigclasses.ndjson")
        c.judge("BigClasses", cfg(consts={"Chunks": 32}, invariants=list(bigs)), path, n, label + ", big", stats=st)


def c10(c):
    c.build()
    uf_model(c, ["SameAnswer", "SeenAlike", "SameClasses"], ["NeverSeparated"])
    uf_steps(c)
    k = 1 if c.quick else 25
    uf(c, "histories", ["Answers", "InsertedOnce", "Partition"],
       ["exh=1", f"exhk={4 if c.quick else 5}", f"rand={300 * k}", "max=16", "ops=30", f"big={140000 if c.quick else 400000}"], ["AllJoined"])
    traces(c, "slow phases", ["sel=inter,tab", f"rand={500 * k}", "max=12"] + every(c, 600), invs=["TCls"])


def c11(c):
    c.build()
    uf_model(c, ["Logarithmic", "WeightBounds", "SameClasses"], ["NeverLengthened"])
    uf_steps(c)
    k = 1 if c.quick else 25
    uf(c, "chains", ["Logarithmic", "NeverLengthened"],
       ["exh=1", f"rand={300 * k}", "max=24", "ops=40", f"big={140000 if c.quick else 600000}"], ["Logarithmic", "Cheap"])


def edge_iter(c, invs):
    m = 4 if c.quick else 9
    c.model("EdgeIter", cfg(consts={"MaxEdges": m, "Caps": "{%s}" % ", ".join(map(str, range(1, m + 3)))},
                            invariants=invs, properties=["Terminates"]), f"every pair of up to {m} edges, every size of index type")


def callbacks(c, label, invs, args):
    d = c.lab("callbacks", args, name="callbacks_" + label)
    path, n = c.gather(d, "callbacks.ndjson")
    c.judge("CallTrace", cfg(consts={"Chunks": 32}, invariants=["RecorderOK"] + invs), path, n, label, index="t", stats=c.stats(d))


def c09(c):
    c.build()
    edge_iter(c, ["AtMostTwice", "NeverBeyondMissing", "NoGaps"])
    k = 1 if c.quick else 30
    callbacks(c, "contract", ["IndexOrder", "AtMostTwice", "NeverBeyondMissing", "EdgesOnlyOfEqual", "OnlyCounterparts",
                              "LeftIsSelf", "OncePerVisit"], [f"rand={700 * k}"])


def records(c, cmd, module, invs, args, label="", shards=4, flavours=BOTH, fname=None, **kw):
    """A recorder whose records are judged one by one."""
    d = c.lab(cmd, args, shards=shards, flavours=flavours, name=f"{cmd}_{label}", **kw)
    fname = fname or cmd + ".ndjson"
    path, n = c.gather(d, fname)
    c.judge(module, cfg(consts={"Chunks": 32}, invariants=invs), path, n, label or cmd, stats=c.stats(d))


def c20(c):
    c.build()
    edge_iter(c, ["InOrder", "Complete"])
    k = 1 if c.quick else 30
    records(c, "index", "Index", ["StarAnswers", "StarEveryEdgeOnceInOrder", "GraphAnswers", "Increments"],
            [f"rand={8 * k}"] + ([] if c.quick else ["wide=1"]))
    if c.can_build("anticipate"):
        records(c, "index", "Index", ["StarAnswers", "StarEveryEdgeOnceInOrder", "GraphAnswers", "Increments"],
                [f"rand={8 * k}"] + ([] if c.quick else ["wide=1"]), label="std_Step", flavours=("anticipate",))


def protocol(c, label, model_invs, trace_invs, k):
    """Conversations with the modes."""
    n, calls = (2, 6) if c.quick else (2, 8)
    consts = {"MaxN": n, "TopDeg": 2, "Limits": "{0}", "MaxCalls": calls, "Errors": "{1, 2}"}
    c.model("MCProtocol", cfg(consts={**consts, "Kinds": '{"custom"}', "Modes": '{"call", "stack", "queue"}'},
                              invariants=model_invs, extra="CONSTRAINT Bounded"), "every answer of a descend mode")
    c.model("MCProtocol", cfg(consts={**consts, "MaxN": 2, "TopDeg": 1 if c.quick else 2, "MaxCalls": 4, "Kinds": '{"custom", "pre"}',
                                      "Modes": '{"scripted"}', "Limits": "{1, 2}"},
                              invariants=model_invs, extra="CONSTRAINT Bounded"), "every answer of both modes")
    c.model("MCProtocol", cfg(spec="FairSpec", consts={**consts, "MaxN": 2, "Kinds": '{"pre"}', "Modes": '{"call", "stack", "queue"}', "Limits": "{0, 1, 2, 3}"},
                              invariants=model_invs), "prechecks of every small limit")
    d = c.lab("protocol", [f"rand={k}"], name="protocol_" + label)
    path, n = c.gather(d, "protocol.ndjson")
    c.judge("ProtocolTrace", cfg(spec="TSpec", consts={"Chunks": 32}, invariants=trace_invs), path, n, label, index="t",
            deadlock=True, stats=c.stats(d))


def c16(c):
    c.build()
    k = 1 if c.quick else 30
    protocol(c, "conversations", ["AllVisited", "OuterErrorIsTheAnswer"], ["TVisited"], 1500 * k)


def c17(c):
    c.build()
    k = 1 if c.quick else 30
    protocol(c, "errors", ["StopsAtOnce", "OuterErrorIsTheAnswer", "OnlyLimitRestarts", "LimitNotAnswered"],
             ["TStops", "TError", "TLimit"], 1500 * k)


def c07(c):
    c.build()
    if c.quick:
        c.model("MCLaws", cfg(consts={"MaxN": 3, "TopDeg": 1, "NumLabels": 2}, invariants=["BfsLawful", "DfsLawful"]), "all graphs of 3 nodes", deadlock=False)
        c.model("MCLaws", cfg(consts={"MaxN": 2, "TopDeg": 2, "NumLabels": 2}, invariants=["BfsLawful", "DfsLawful"]), "all graphs of 2 nodes", deadlock=False)
    else:
        c.model("MCLaws", cfg(consts={"MaxN": 3, "TopDeg": 2, "NumLabels": 2}, invariants=["BfsLawful", "DfsLawful"]), "all graphs of 3 nodes", deadlock=False)
    k = 1 if c.quick else 40
    records(c, "laws", "Laws", ["Answers", "Reflexive", "Symmetric", "TransitiveEq", "Agree", "Reversed", "TransitiveLt", "SameOrder"],
            [f"rand={400 * k}"])
    families(c, "amounts", ["Answers"], "uneven")


def c15(c):
    fl = ["release", "checked", "oorandom", "fastrand"]
    c.build(*fl)
    c.model("MCRng", cfg(consts={"W": 64 if c.quick else 256}, invariants=["InRange", "Covered", "MulShift", "MulCovers"]),
            "reduction to every range", deadlock=False)
    big = [] if c.quick else ["per=2000", "covers=3000", "mixed=200000000"]
    for f in fl:
        records(c, "rng", "Rng", ["InRange", "InRangeMixed", "Covered", "DrewEnough"], big, label="numbers, " + f, shards=4, flavours=[f])
    k = 1 if c.quick else 20
    for f in ["oorandom", "fastrand", "release"]:
        outcomes(c, f, ["CycVerdicts", "NoPanic", "Ends"], ["set=cyc", "exh=3", f"exhmax={60 * k}", f"rand={100 * k}", "max=10", f"big={10 * k}", "bigmax=120"],
                 flavours=[f])


def c18(c):
    c.build()
    k = 1 if c.quick else 30
    d = c.lab("history", [f"rand={1000 * k}", f"threads={100 * k}"])
    path, n = c.gather(d, "history.ndjson")
    c.judge("History", cfg(consts={"Chunks": 32}), path, n, "histories", index="t", deadlock=True, stats=c.stats(d))


def c19(c):
    c.build()
    records(c, "identity", "Identity", ["EqualIffSame", "HashAgrees", "OperatorsAgree", "TotalOrder", "Sets"],
            [f"rand={30 if c.quick else 2000}"])


def families(c, label, invs, only, size=None, reps=1, model=True, bombs=False, flavours=BOTH):
    """Members of families of graphs of any size."""
    if model:
        n, w = (5, 3) if c.quick else (9, 5)
        c.model("MCFamilies", cfg(consts={"MaxN": n, "MaxW": w}, invariants=["FormsRight", "DfsRight"]),
                f"all families up to {n} levels of {w} edges", deadlock=False)
    size = size or (40_000 if c.quick else 400_000)
    if not c.quick:
        reps *= 10
    d = c.lab("families", [f"only={only}", f"size={size}", f"reps={reps}", f"bombs={int(bombs)}"], name="families_" + label, flavours=flavours)
    path, n = c.gather(d, "families.ndjson", f"families_{label}.ndjson")
    c.judge("FamiliesTrace", cfg(consts={"Chunks": 32}, invariants=invs), path, n, "families, " + label, stats=c.stats(d))


def c21(c):
    c.build()
    n, k = (5, 3) if c.quick else (9, 4)
    c.model("MCEndless", cfg(consts={"MaxD": n, "MaxK": k}, invariants=["RunsRight"]), "all small endless graphs", deadlock=False)
    d = c.lab("endless", [f"reps={3 if c.quick else 60}", f"size={2000 if c.quick else 6000}"])
    path, n = c.gather(d, "endless.ndjson")
    c.judge("EndlessTrace", cfg(consts={"Chunks": 32}, invariants=["Finds", "Order", "Counterparts", "NothingKept"]), path, n,
            "endless graphs", stats=c.stats(d))


def c22(c):
    c.build()
    if "degraded" in c.exe:
        raise M.Violation("the limits at the ends of their types do not even compile", {"build": c.exe["degraded"][-6000:]})
    n = 2 if c.quick else 3
    mc(c, f"all graphs of {n} nodes", n, 2, 1, "JobsInterleave", ["RType", "RTick"])
    mc(c, "every behaviour ends, all graphs of 2 nodes", 2, 2, 1, "JobsPre", ["RType"], live=True)
    k = 1 if c.quick else 25
    outcomes(c, "cyclic", ["NoPanic", "Ends"], ["set=cyc", "exh=3", f"exhmax={150 * k}", f"rand={300 * k}", "max=12", f"big={12 * k}", "bigmax=120"])
    outcomes(c, "limits", ["NoPanic", "Ends"], ["set=lim", "exh=3", f"exhmax={80 * k}", f"rand={120 * k}", "max=12", f"big={6 * k}", "bigmax=60"])
    families(c, "all", ["Ends"], "chain,wide,tree,two,fan,broom,unroll,uneven,degen,ring,cycles,grid,limited,prechecks", model=False)
    uf(c, "many", ["NoPanic"], ["rand=50", f"big={140000 if c.quick else 300000}"], ["NoPanic"], flavours=["checked"])
    traces(c, "ends of the types", ["sel=ext", f"rand={600 * k}", f"big={10 * k}", "bigmax=400"], invs=["TTick"])


def c23(c):
    c.build()
    n = 2 if c.quick else 3
    mc(c, f"all graphs of {n} nodes", n, 2, 2, "JobsInterleave", ["RMem"])
    mc(c, f"all graphs of {n} nodes, precheck", n, 2, 2, "JobsPre", ["RMem"])
    families(c, "any size and end", ["FewBytes", "NothingKept", "NoBytesKept"],
             "chain,wide,tree,two,fan,broom,unroll,uneven,degen,ring,cycles,grid,limited", bombs=True)


def positions(c, label, n, deg, jobs, invs, acyclic=False, labels=2):
    c.model("MCPositions", cfg(spec="PSpec", consts={"MaxN": n, "TopDeg": deg, "Labels": "{%s}" % ", ".join(map(str, range(labels))),
                                                     "Jobs": "<- " + jobs, "OnlyAcyclic": acyclic, "OnlyDifferent": False, "Shapes": "<- TwoPositions"},
                               invariants=["RefinesInit", "RightHere", "SameVerdict"] + invs, properties=["Refines"]), label, deadlock=False)


def c24(c):
    c.build()
    invs = ["RVerdict", "RWork", "RFirst", "RTick", "RIdent", "RMem", "RCls", "RType", "RPre", "RPend", "RLimit"]
    positions(c, "all graphs of 2 nodes, at 2 positions each", 2, 2, "JobsAll", invs)
    if c.quick:
        positions(c, "all acyclic graphs of 2 nodes, at 2 positions each, limited", 2, 2, "JobsLimited", invs, acyclic=True)
    else:
        positions(c, "all acyclic graphs of 3 nodes, at 2 positions each", 3, 2, "JobsUnlimited", invs, acyclic=True)
        positions(c, "all acyclic graphs of 3 nodes, at 2 positions each, limited", 3, 2, "JobsLimited", invs, acyclic=True, labels=1)
        positions(c, "all graphs of 3 nodes, at 2 positions each", 3, 2, "JobsInterleave", invs, labels=1)
    c.prove("PolicyProof", "whatever the policy, graph, its size and the orders of edges: the answer is right")
    k = 1 if c.quick else 25
    outcomes(c, "positions", ["CycVerdicts", "SimpleVerdicts", "FirstDifference", "FirstDifferenceDfsWalk", "Work", "Limits", "Ends", "NoPanic"],
             ["set=pos", "exh=3", f"exhmax={150 * k}", f"rand={300 * k}", "max=9", f"big={10 * k}", "bigmax=60"])
    traces(c, "positions", ["pos=1", f"rand={800 * k}", f"big={12 * k}", "bigmax=200"] + every(c, 600), live=True,
           invs=["TTick", "TWork", "TCls", "TIdent", "TPre"])
    callbacks(c, "positions", ["IndexOrder", "AtMostTwice", "NeverBeyondMissing", "EdgesOnlyOfEqual", "OnlyCounterparts",
                               "LeftIsSelf", "OncePerVisit"], ["pos=1", f"rand={200 * k}"])


def packages(c):
    """Every set of package features."""
    c.model("Packages", cfg(spec="PSpec", invariants=["PTypeOK", "DefaultOffered"], properties=["NothingVanishes"]), "features switched on one after the other")
    recs = []
    for mem in ([], ["alloc"], ["alloc", "std"]):
        for g in range(8):
            gens = [x for k, x in enumerate(("wyrng", "oorandom", "fastrand")) if g >> k & 1]
            if "std" in mem and not gens:
                continue
            recs.append(M.probe(mem + gens))
    nightly = [M.probe(f + ["anticipate"], ["+nightly"]) for f in (["alloc", "std", "wyrng"], [], ["alloc"], ["alloc", "oorandom"])] if M.known_nightly() else []
    recs += nightly
    if not nightly:
        c.cov.setdefault("not_built", []).append({"feature": "anticipate", "why": "not the compiler it is known to build with"})
    c.judge("PackagesTrace", cfg(spec="TSpec", consts={"Chunks": 1}, invariants=["Builds", "AllThere", "DefaultByPriority", "AnswersRight"]),
            c.write("packages.ndjson", recs), len(recs), "every set of package features")


def c25(c):
    packages(c)
    few = ("alloc", "core")
    c.build(*few, "every")
    inv = ["RVerdict", "RWork", "RType"]
    mc(c, "all graphs of 2 nodes", 2, 2, 2, "JobsInterleave", inv)
    k = 1 if c.quick else 25
    if c.can_build("anticipate"):
        few += ("anticipate",)
    if c.can_build("core_anticipate"):
        few += ("core_anticipate",)
    outcomes(c, "cyclic", ["CycVerdicts", "Work", "NoPanic", "Ends"],
             ["set=cyc", "exh=3", f"exhmax={80 * k}", f"rand={120 * k}", "max=10", f"big={6 * k}", "bigmax=70"], shards=2, flavours=few)
    outcomes(c, "acyclic", ["SimpleVerdicts", "FirstDifference", "FirstDifferenceDfsWalk", "NoPanic", "Ends"],
             ["set=acyc", "exh=3", f"exhmax={50 * k}", f"rand={80 * k}", "max=10"], shards=2, flavours=few)
    outcomes(c, "different", ["FirstDifference", "FirstDifferenceDfsWalk"],
             ["set=diff", "exh=2", f"exhmax={50 * k}", f"rand={100 * k}", "max=10"], shards=2, flavours=few)
    outcomes(c, "limits", ["Limits"], ["set=lim", "exh=3", f"exhmax={40 * k}", f"rand={60 * k}", "max=10"], shards=2, flavours=few)
    traces(c, "steps", ["sel=inter,prem,simp,tab,ext,hand", f"rand={400 * k}", f"big={8 * k}", "bigmax=200"], invs=["TTick", "TWork", "TCls"], shards=2, flavours=few)
    records(c, "index", "Index", ["StarAnswers", "StarEveryEdgeOnceInOrder", "GraphAnswers", "Increments"], [f"rand={3 * k}"], shards=2, flavours=few)
    families(c, "big", ["Ends", "Answers", "Bounded"], "chain,wide,ring,two", size=30_000, flavours=few)


PLANS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
         "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20,
         "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25}
