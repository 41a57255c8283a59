"""Which drivers and which specifications decide which property."""
import json, os
from __main__ import (Ctx, build, driver_leg, model_leg, pool, judge, log, ToolError, SEED, THOROUGH, CORES, WORK, run_driver)

BINARIES = ["mtv", "mtc", "mtp"]
ASSUME = [
    "the scheduler interleaves at every atomic access of the tree and is sequentially consistent, except where O01 lets loads lag as far as the declared orderings allow",
    "TLC compares states by 64-bit fingerprints",
]
EXPLAIN = {}
LIN = {"hist": ("LinTrace.tla", "LinTrace.cfg")}


def conc(ctx, exe, kind, mode, w, ms, judges, **kw):
    args = ["conc", "--kind", kind, "--mode", mode, "--seed", str(SEED * 1_000_000 + w), "--stride", "64", "--ms", str(ms)]
    for k, v in kw.items():
        args += ["--" + k, str(v)]
    return driver_leg(ctx, exe, args, f"conc-{kind}-{mode}-{w}", judges)


COUNT = {"hist": ("LinTrace.tla", "CountTrace.cfg")}
SNAP = {"snap": ("Snapshot.tla", "Snapshot.cfg")}
SEQ = {"seq": ("KVSeq.tla", "KVSeq.cfg")}


def seq(ctx, exe, what, w, ms, judges, **kw):
    args = ["seq", "--what", what, "--seed", str(SEED * 1_000_000 + 500_000 + w), "--stride", "64", "--ms", str(ms)]
    for k, v in kw.items():
        args += ["--" + k, str(v)]
    return driver_leg(ctx, exe, args, f"seq-{what}-{w}", judges, chunk=300)


TALL = {"tall": ("TallTrace.tla", "TallTrace.cfg")}


def tall(ctx, exe, w, judges, threads=1, n=8, **kw):
    """Tens of thousands of keys; phases by free-running threads whose results do not depend on the order."""
    ms = 300_000 if THOROUGH else 7_000
    args = ["tall", "--seed", str(SEED * 1_000_000 + 700_000 + w), "--stride", "64", "--ms", str(ms), "--threads", str(threads), "--traces", str(n * 20 if THOROUGH else n)]
    for k, v in kw.items():
        args += ["--" + k, str(v)]
    return driver_leg(ctx, exe, args, f"tall-{threads}-{w}", judges, chunk=8)


def abstract(ctx):
    return model_leg(ctx, "KVMapMC.tla", "KVMapMCDeep.cfg" if THOROUGH else "KVMapMC.cfg")


def hists(ctx, exe, plan, judges, ms=12_000, h=1500, thorough_ms=600_000):
    ms = thorough_ms if THOROUGH else ms
    h = 12_000 if THOROUGH else h
    return [conc(ctx, exe, k, m, i, ms, judges, hist=h, per=30 if k == "far" else 150) for i, (k, m) in enumerate(plan)]


REFUTED = r"Invariant (NoWrong|Finding|Clean2) is violated|roperty \S+ is violated"  # whichever a worker meets first


def tree_model(ctx, cfgs, deep, *faults):
    """The algorithm, exhaustively for small capacities; and what departures from it do."""
    legs = [model_leg(ctx, "MTreeMC.tla", c, workers=3) for c in cfgs]
    legs += [model_leg(ctx, "MTreeMC.tla", c, workers=4, timeout=3000) for c in deep if THOROUGH]
    return legs + [model_leg(ctx, *m[:2], expect_error=m[2]) for m in bad("MTreeMC", *faults)]


def m01(ctx):
    exe = build("mtv")
    plan = [("duel", "arc"), ("duel", "inline"), ("layer", "arc"), ("innersplit", "arc"), ("any", "inline"), ("leafsplit", "arc"), ("far", "arc"), ("again", "inline"), ("again", "arc"), ("duel", "arc"), ("deep", "arc"), ("crowd", "inline")]
    model = tree_model(ctx, ["MTreeMC.cfg", "MTreeMCHop.cfg"], ["MTreeMCGrow.cfg", "MTreeMCChase.cfg"], ("held", REFUTED), ("marked", REFUTED), ("main", REFUTED), ("post", REFUTED))
    return pool(hists(ctx, exe, plan, LIN, ms=20_000) + [tall(ctx, exe, 1, TALL, threads=6), abstract(ctx)] + model)


def m02(ctx):
    exe = build("mtv")
    plan = [("update", "arc"), ("update", "inline"), ("update", "arc"), ("duel", "arc"), ("layer", "inline"), ("leafsplit", "arc"), ("small", "inline"), ("duel", "inline")]
    return pool(hists(ctx, exe, plan, LIN) + [abstract(ctx)])


def m03(ctx):
    exe = build("mtv")
    ms, n = (600_000, 3000) if THOROUGH else (12_000, 150)
    return pool([seq(ctx, exe, "keys", i, ms, SEQ, traces=n // [1, 1, 3, 10][i % 4], max=[60, 300, 900, 3000][i % 4]) for i in range(8)]
                + [tall(ctx, exe, 2, TALL), tall(ctx, exe, 3, TALL, max=70_000, n=2)])


def m04(ctx):
    exe = build("mtv")
    ms, n = (600_000, 3000) if THOROUGH else (10_000, 120)
    legs = hists(ctx, exe, [("count", "arc"), ("count", "inline"), ("update", "arc"), ("duel", "inline")], COUNT, ms=10_000)
    legs += [seq(ctx, exe, "count", i, ms, SEQ, traces=n, max=[40, 150, 400, 1200][i]) for i in range(4)]
    legs += [tall(ctx, exe, 4, TALL, threads=4, max=9000)]
    return pool(legs + [abstract(ctx)])


def m05(ctx):
    exe = build("mtv")
    ms, n = (600_000, 3000) if THOROUGH else (12_000, 150)
    legs = [seq(ctx, exe, "variants", i, ms, SEQ, traces=n // [1, 1, 3, 8][i], max=[60, 300, 900, 2000][i]) for i in range(4)]
    t = 600_000 if THOROUGH else 16_000
    h = 12_000 if THOROUGH else 1500
    for i, (k, m, via) in enumerate([("duel", "arc", "ref"), ("duel", "inline", "owned"), ("layer", "inline", "ref"), ("any", "arc", "guard"), ("again", "arc", "ref"), ("again", "inline", "owned")]):
        legs.append(conc(ctx, exe, k, m, 20 + i, t, LIN, hist=h, per=150, via=via))
    return pool(legs)


def m06(ctx):
    exe = build("mtv")
    ms, n = (600_000, 3000) if THOROUGH else (10_000, 120)
    legs = [seq(ctx, exe, "long", i, ms, SEQ, traces=n, max=[30, 100, 300, 700, 100][i]) for i in range(5)]
    legs += hists(ctx, exe, [("count", "arc"), ("count", "inline"), ("count", "arc")], LIN, ms=10_000)
    return pool(legs + [abstract(ctx)])


def t01(ctx):
    exe = build("mtv")
    ms = 600_000 if THOROUGH else 12_000
    n = 4000 if THOROUGH else 350
    legs = []
    for i, (k, m) in enumerate([("duel", "arc"), ("layer", "inline"), ("innersplit", "arc"), ("leafsplit", "inline"), ("any", "arc"), ("far", "inline"), ("deep", "arc")]):
        legs.append(conc(ctx, exe, k, m, 40 + i, ms, SNAP, hist=0, snaps=n // {"far": 10, "deep": 8}.get(k, 1), per=12))
    legs += [seq(ctx, exe, "keys", 40 + i, ms, SNAP, traces=0, snaps=n // 2, max=[200, 1500][i]) for i in range(2)]
    legs += [tall(ctx, exe, 7, SNAP, snaps=n // 20, n=0), tall(ctx, exe, 8, SNAP, threads=4, snaps=n // 20, n=0, max=40_000)]
    return pool(legs)


NODES = {"nodes": ("MTreeTrace.tla", "MTreeTrace.cfg")}


def steps(ctx, exe, plan, base, n=500, ms=12_000):
    """Runs with every acquisition and release of a node's lock recorded."""
    legs = []
    for i, (k, m) in enumerate(plan):
        c = {"deep": n // 8, "innersplit": n // 2}.get(k, n) * (12 if THOROUGH else 1)
        legs.append(conc(ctx, exe, k, m, base + i, 600_000 if THOROUGH else ms, NODES, hist=0, nodes=c, per=20 if k == "deep" else 60))
    return legs


def t02(ctx):
    exe = build("mtv")
    plan = [("deep", "arc"), ("innersplit", "arc"), ("layer", "inline"), ("duel", "arc"), ("leafsplit", "inline"), ("any", "arc"), ("hold", "arc"), ("deep", "inline")]
    model = tree_model(ctx, ["MTreeMCSplit.cfg", "MTreeMCMix.cfg"], ["MTreeMCThree.cfg", "MTreeMCGrow.cfg", "MTreeMCChase.cfg"],
                       ("early", REFUTED), ("orphan", REFUTED), ("recheck", REFUTED), ("cut", REFUTED))
    return pool(steps(ctx, exe, plan, 140) + model)


def comp(ctx, exe, cmd, what, w, n, module, ms=25_000, chunk=2000, **kw):
    """Drive one component; its records have the name of the command as kind."""
    n, ms = (n * 25, 600_000) if THOROUGH else (n, ms)
    args = [cmd, "--seed", str(SEED * 1_000_000 + 700_000 + w), "--stride", "64", "--traces", str(n), "--ms", str(ms)]
    args += ["--what", what] if what else []
    for k, v in kw.items():
        args += ["--" + k, str(v)]
    return driver_leg(ctx, exe, args, f"{cmd}-{what}-{w}", {cmd: (module + ".tla", module + ".cfg")}, chunk=chunk)


def c01(ctx):
    exe = build("mtc")
    legs = [comp(ctx, exe, "perm", ["walk", "all", "walk", "cell"][i % 4], i, 250, "PermTrace") for i in range(7)]
    legs += [model_leg(ctx, "PermMC.tla", "PermMC.cfg"),
             model_leg(ctx, "PermMC.tla", "PermMCBad1.cfg", expect_error="Invariant Content is violated"),
             model_leg(ctx, "PermMC.tla", "PermMCBad2.cfg", expect_error="Invariant Content is violated")]
    return pool(legs)


def c02(ctx):
    exe = build("mtc")
    legs = [comp(ctx, exe, "sfx", ["bag", "leaf"][i % 2], i, 1500, "SfxTrace") for i in range(6)]
    legs += [model_leg(ctx, "SfxMC.tla", "SfxMC.cfg"),
             model_leg(ctx, "SfxMC.tla", "SfxMCBad.cfg", expect_error="Invariant Apart is violated")]
    return pool(legs)


def c03(ctx):
    exe = build("mtc")
    legs = [comp(ctx, exe, "inode", ["nodes", "nodes", "search"][i % 3], i, 900, "InodeTrace") for i in range(6)]
    legs += [model_leg(ctx, "InodeMC.tla", "InodeMC.cfg"),
             model_leg(ctx, "InodeMC.tla", "InodeMCBad.cfg", expect_error="Invariant Routing is violated")]
    return pool(legs)


def c04(ctx):
    exe = build("mtc")
    legs = [comp(ctx, exe, "key", "", i, 120, "KeyTrace", chunk=300) for i in range(6)]
    legs += [model_leg(ctx, "KeyMC.tla", "KeyMC.cfg"),
             model_leg(ctx, "KeyMC.tla", "KeyMCBad.cfg", expect_error="Invariant OrderPreserved is violated")]
    return pool(legs)


def c10(ctx):
    exe = build("mtc")
    legs = [comp(ctx, exe, "search", "", i, 4000, "SearchTrace") for i in range(6)]
    legs += [model_leg(ctx, "SearchMC.tla", "SearchMCDeep.cfg" if THOROUGH else "SearchMC.cfg")]
    legs += [model_leg(ctx, *m[:2], expect_error=m[2]) for m in bad("SearchMC", *[(n, r"Invariant (Right|Inside) is violated") for n in ("sign", "over", "last", "rest", "skip", "left")])]
    return pool(legs)


def bad(module, *names):
    """Variants of a specification with one deliberate fault, and what must refute them."""
    return [(module + ".tla", f"{module}Bad_{n}.cfg", why) for n, why in names]


def c05(ctx):
    exe = build("mtp")
    legs = [comp(ctx, exe, "freeze", "", i, 2500, "FreezeTrace") for i in range(6)]
    legs += [model_leg(ctx, "FreezeMC.tla", "FreezeMC.cfg"),
             model_leg(ctx, "FreezeMC.tla", "FreezeMCBad1.cfg", expect_error="Invariant Kept is violated"),
             model_leg(ctx, "FreezeMC.tla", "FreezeMCBad2.cfg", expect_error="Invariant Blocked is violated")]
    return pool(legs)


def v01(ctx):
    exe = build("mtp")
    legs = [comp(ctx, exe, "version", ["threads", "threads", "single"][i % 3], i, [2500, 2500, 1500][i % 3], "VersionTrace", chunk=1250) for i in range(6)]
    legs += [model_leg(ctx, "VersionMC.tla", "VersionMCDeep.cfg" if THOROUGH else "VersionMC.cfg", workers=3)]
    legs += [model_leg(ctx, *m[:2], expect_error=m[2]) for m in bad("VersionMC", ("bump", "Invariant Answers is violated"), ("changed", "Invariant Undisturbed is violated"),
                                                                   ("carry", "Invariant Answers is violated"), ("root", "Invariant Means is violated"))]
    return pool(legs)


def v02(ctx):
    exe = build("mtp")
    mtv = build("mtv")
    legs = [comp(ctx, exe, "version", "threads", 20 + i, 2500, "VersionTrace", chunk=1250) for i in range(5)]
    legs += [model_leg(ctx, "VersionMC.tla", "VersionMCLive.cfg")]
    legs += [model_leg(ctx, *m[:2], expect_error=m[2]) for m in bad("VersionMC", ("store", "Invariant Exclusive is violated"), ("forget", "Temporal property Done was violated"))]
    # no lock is left held in trees, either
    for i, (k, m) in enumerate([("layer", "arc"), ("innersplit", "inline")]):
        legs.append(conc(ctx, mtv, k, m, 80 + i, 600_000 if THOROUGH else 8_000, SNAP, hist=0, snaps=4000 if THOROUGH else 150, per=12))
    return pool(legs)


def c07(ctx):
    exe = build("mtp")
    legs = [comp(ctx, exe, "owner", "", i, 3000, "OwnerTrace", chunk=1000) for i in range(6)]
    legs += [model_leg(ctx, "OwnerMC.tla", "OwnerMC.cfg")]
    legs += [model_leg(ctx, *m[:2], expect_error=m[2]) for m in bad("OwnerMC", ("keep", "Invariant Once is violated"), ("now", "Invariant InTime is violated"),
                                                                   ("half", "Invariant AllBack is violated"))]
    return pool(legs)


def c08(ctx):
    exe = build("mtp")
    legs = [comp(ctx, exe, "chain", "", i, 5000, "ChainTrace") for i in range(6)]
    legs += [model_leg(ctx, "ChainMC.tla", "ChainMCDeep.cfg" if THOROUGH else "ChainMC.cfg", workers=3)]
    legs += [model_leg(ctx, *m[:2], expect_error=m[2]) for m in bad("ChainMC", ("nolock", "Invariant All is violated"), ("blind", "Invariant All is violated"),
                                                                   ("late", "Invariant Back is violated"), ("early", "Invariant All is violated"))]
    return pool(legs)


def c09(ctx):
    exe = build("mtp")
    legs = [comp(ctx, exe, "slot", "", i, 3000, "SlotTrace") for i in range(6)]
    legs += [model_leg(ctx, "SlotMC.tla", "SlotMC.cfg")]
    legs += [model_leg(ctx, *m[:2], expect_error=m[2]) for m in bad("SlotMC", ("borrow", "Invariant Exact is violated"), ("lose", "Invariant Exact is violated"),
                                                                   ("same", "Invariant Exact is violated"))]
    return pool(legs)


def c11(ctx):
    exe = build("mtp")
    legs = [comp(ctx, exe, "leaf", "", i, 4000, "LeafTrace") for i in range(4)]
    legs += [comp(ctx, exe, "claim", "", 10 + i, 4000, "ClaimTrace") for i in range(3)]
    legs += [model_leg(ctx, "ClaimMC.tla", "ClaimMCDeep.cfg" if THOROUGH else "ClaimMC.cfg", workers=2)]
    legs += [model_leg(ctx, *m[:2], expect_error=m[2]) for m in bad("ClaimMC", ("early", "Invariant Whole is violated"), ("blind", "Invariant Whole is violated"),
                                                                   ("keep", "Invariant Clean is violated"), ("push", "Invariant Once is violated"))]
    return pool(legs)


def c06(ctx):
    exe = build("mtc")
    mtv = build("mtv")
    legs = [comp(ctx, exe, "lsplit", "", i, 3000, "LSplitTrace") for i in range(5)]
    legs += [model_leg(ctx, "LSplitMC.tla", "LSplitMC.cfg"),
             model_leg(ctx, "LSplitMC.tla", "LSplitMCBad.cfg", expect_error="Invariant Separated is violated")]
    # the same inside trees under concurrency
    for i, (k, m) in enumerate([("leafsplit", "arc"), ("layer", "inline")]):
        legs.append(conc(ctx, mtv, k, m, 60 + i, 600_000 if THOROUGH else 10_000, SNAP, hist=0, snaps=4000 if THOROUGH else 200, per=12))
    return pool(legs)


def lives(ctx, exe, plan, judge_, n=700, ms=14_000):
    """Runs with eager reclamation, every allocation followed."""
    legs = []
    for i, (k, m) in enumerate(plan):
        big = k in ("far", "innersplit", "deep")
        legs.append(conc(ctx, exe, k, m, 100 + i, 600_000 if THOROUGH else ms, {"life": ("LifeTrace.tla", f"Life{judge_}.cfg")},
                         hist=0, lives=(n // 4 if big else n) * (10 if THOROUGH else 1), per=12 if big else 40, spread=6 if big else 16, batch=[1, 1, 2, 1, 4, 1][i % 6]))
    return legs


def life_model(ctx, *faults):
    legs = [model_leg(ctx, "LifeMC.tla", "LifeMCDeep.cfg" if THOROUGH else "LifeMC.cfg")]
    return legs + [model_leg(ctx, *m[:2], expect_error=m[2]) for m in bad("LifeMC", *faults)]


def l01(ctx):
    exe = build("mtv")
    plan = [("hold", "arc"), ("update", "arc"), ("layer", "arc"), ("hold", "inline"), ("count", "arc"), ("duel", "arc"), ("far", "arc"), ("layer", "inline")]
    return pool(lives(ctx, exe, plan, "Values") + life_model(ctx, ("forget", "Invariant AllGone is violated"), ("copy", "Invariant NotTwice is violated"), ("steal", "Invariant Legal is violated")))


def l02(ctx):
    exe = build("mtv")
    plan = [("hold", "arc"), ("hold", "inline"), ("duel", "inline"), ("layer", "arc"), ("hold", "arc"), ("layer", "inline"), ("duel", "arc"), ("update", "inline")]
    return pool(lives(ctx, exe, plan, "Access") + life_model(ctx, ("now", "Invariant Legal is violated"), ("bagnow", "Invariant LegalBlocks is violated"), ("retirefirst", "Invariant Legal is violated")))


def l03(ctx):
    exe = build("mtv")
    plan = [("innersplit", "arc"), ("layer", "arc"), ("far", "inline"), ("hold", "inline"), ("count", "arc"), ("far", "arc"), ("any", "inline"), ("leafsplit", "arc"), ("deep", "arc")]
    return pool(lives(ctx, exe, plan, "Memory") + life_model(ctx, ("copy", "Invariant NotTwice is violated"), ("forget", "Invariant AllGone is violated")))


def p01(ctx):
    exe = build("mtv")
    ms = 600_000 if THOROUGH else 13_000
    plan = [("crowd", "arc"), ("far", "arc"), ("crowd", "inline"), ("innersplit", "arc"), ("far", "inline"), ("duel", "arc"), ("layer", "inline"), ("update", "arc"), ("deep", "arc"), ("pester", "arc"), ("pester", "inline")]
    legs = []
    for i, (k, m) in enumerate(plan):
        n = (200 if k in ("crowd", "deep") else 800) * (12 if THOROUGH else 1)
        legs.append(conc(ctx, exe, k, m, 120 + i, ms, {"hist": ("Progress.tla", "Progress.cfg")}, hist=n, per=25 if k in ("far", "crowd", "deep", "pester") else 120, **({"limit": 5_000_000} if k == "pester" else {})))
    legs += [seq(ctx, exe, "keys", 60, ms // 2, SEQ, traces=6, max=1200)]
    legs += [tall(ctx, exe, 5, TALL), tall(ctx, exe, 6, TALL, threads=4, max=40_000)]
    legs += tree_model(ctx, ["MTreeMCLive.cfg"], ["MTreeMCLiveSplit.cfg"], ("rounds", REFUTED))
    return pool(legs)


def o01(ctx):
    """Runs in which loads lag behind as far as the declared orderings let them."""
    exe = build("mtv")
    plan = [("duel", "arc"), ("layer", "inline"), ("leafsplit", "arc"), ("innersplit", "arc"), ("again", "inline"), ("update", "arc"), ("any", "arc"), ("hold", "arc"), ("duel", "inline"), ("layer", "arc"), ("again", "arc")]
    judges = {**LIN, **SNAP, "order": ("OrderTrace.tla", "OrderTrace.cfg"), "life": ("LifeTrace.tla", "LifeAccess.cfg")}
    t = 12 if THOROUGH else 1
    legs = []
    for i, (k, m) in enumerate(plan):
        legs.append(conc(ctx, exe, k, m, 160 + i, 600_000 if THOROUGH else 20_000, judges, weak=1, hist=700 * t, orders=60 * t, snaps=15 * t, lives=15 * t, per=60, spread=6))
    legs += [model_leg(ctx, "OrderMC.tla", "OrderMCDeep.cfg" if THOROUGH else "OrderMC.cfg", workers=3)]
    legs += [model_leg(ctx, *m[:2], expect_error=m[2]) for m in bad("OrderMC", ("nofence", "Invariant Whole is violated"), ("unlock", "Invariant Whole is violated"), ("data", "Invariant Whole is violated"),
                                                                   ("lock", "Invariant NoneLost is violated"), ("publish", "Invariant Known is violated"), ("follow", "Invariant Known is violated"))]
    return pool(legs)


CHECKS = {"O01": o01, "P01": p01, "L01": l01, "L02": l02, "L03": l03, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "V01": v01, "V02": v02, "M01": m01, "M02": m02, "M03": m03, "M04": m04, "M05": m05, "M06": m06, "T01": t01, "T02": t02}


def run(ctx):
    return CHECKS[ctx.pid](ctx)


def replay(path):
    """Run a recorded case again, then judge it."""
    c = json.load(open(path))
    ctx = Ctx(c["property"])
    exe = build(c["exe"])
    a = c["args"]
    run_ = c.get("run")
    if c["mode"] == "crash":
        log(f"recorded: {c['what']}")
        parts = c["status"].split()
        if a[0] in ("seq", "tall") and len(parts) >= 2:
            run_ = {"what": parts[0], "seed": int(parts[1])}
        if a[0] == "conc" and len(parts) >= 5:
            run_ = {"kind": parts[0], "seed": int(parts[1]), "mode": parts[2], "batch": int(parts[3]), "strategy": parts[4], "via": parts[5] if len(parts) > 5 else "", "weak": int(parts[6]) if len(parts) > 6 else 0}
    if a[0] == "conc" and run_:
        a = ["conc", "--kind", run_["kind"], "--seed", str(run_["seed"]), "--mode", run_["mode"], "--batch", str(run_["batch"]), "--via", run_.get("via", ""),
             "--weak", str(run_.get("weak", 0)), "--orders", "1", "--replay", run_["strategy"], "--hist", "1", "--nodes", "1", "--snaps", "1", "--lives", "1"]
    if a[0] in ("seq", "tall") and run_:
        a = a + ["--seed", str(run_["seed"]), "--one", "1", "--traces", "1", "--snaps", "1"]
    if os.path.basename(c["exe"]) in ("mtc", "mtp"):
        parts = c["status"].split() if c["mode"] == "crash" else [run_["what"], str(run_["seed"])]
        a = [x for x in a] + ["--seed", parts[-1], "--traces", "1"]
    if c["mode"] == "crash":
        run_driver(ctx, exe, a, "replay", 120)
    else:
        log("recorded line: " + c["line"][:3000])
        judge(ctx, c["module"], c["cfg"], [c["line"] + "\n"], "recorded", {"exe": c["exe"], "args": a})
        kind = json.loads(c["line"])["kind"]
        e = driver_leg(ctx, exe, a, "replay", {kind: (c["module"], c["cfg"])})
        e()
    for w, _ in ctx.viol:
        log("  " + w[:600])
    return 1 if ctx.viol else 0
