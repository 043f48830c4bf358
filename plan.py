"""What each check runs: TLC configurations (CFG) and stages per property (PLAN)."""
CFG = {}
PLAN = {}


def cfg(name, module, spec, consts, inv=(), prop=(), extra=()):
    CFG[name] = dict(module=module, spec=spec, consts=consts, inv=list(inv), prop=list(prop), extra=list(extra))


# --- Sequencer -----------------------------------------------------------------
SEQ_INV = ["InWindow", "TermsSane", "QueueSane", "Emit"]
SEQ_PROP = ["AliveMonotone", "EndsShrink"]


def seq(name, module, spec, replay, backend, rates, maxev, depth, sim, pre, soaks="{}"):
    cfg(name, module, spec, dict(Replay=replay, Backend=backend, Rates=rates, MaxEvents=maxev,
        Starts=f"<- {pre}Starts", Durs=f"<- {pre}Durs", Fades=f"<- {pre}Fades", Plays=f"<- {pre}Plays",
        Ends=f"<- {pre}Ends", Eases="<- SmoothOnly" if pre == "Tree" and module != "MC_S01" else "<- BothEases",
        Soaks=soaks, Depth=depth, Sim=sim), SEQ_INV, SEQ_PROP)


seq("S01_sim", "MC_S01", "SpecS01", False, False, False, 6, 16, True, "Sim")
seq("S01_tree", "MC_S01", "SpecS01", False, False, False, 2, 4, False, "Tree")
seq("S02_sim_replay", "MC_S02", "SpecS02", True, False, True, 5, 22, True, "Sim")
seq("S02_sim_once", "MC_S02", "SpecS02", False, False, True, 6, 22, True, "Sim")
seq("S02_tree", "MC_S02", "SpecS02", True, False, False, 2, 5, False, "Tree")
seq("S03_sim_replay", "MC_S02", "SpecS03", True, True, False, 6, 22, True, "Sim")
seq("S03_sim_once", "MC_S02", "SpecS03", False, True, False, 7, 22, True, "Sim")
seq("S03_sim_rates", "MC_S02", "SpecS03", False, True, True, 7, 24, True, "Sim")
seq("S03_tree", "MC_S02", "SpecS03", False, True, False, 2, 5, False, "Tree")

PLAN["S01"] = dict(stages=[
    dict(kind="tree", cfg="S01_tree", sys="seq", variants=3),
    dict(kind="sim", cfg="S01_sim", sys="seq", num=2400, variants=4),
])
PLAN["S02"] = dict(stages=[
    dict(kind="tree", cfg="S02_tree", sys="seq", flags="replay", variants=2),
    dict(kind="sim", name="once", cfg="S02_sim_once", sys="seq", flags="rates", num=1600, variants=4),
    dict(kind="sim", name="replay", cfg="S02_sim_replay", sys="seq", flags="replay,rates", num=1600, variants=4),
])
PLAN["S03"] = dict(stages=[
    dict(kind="tree", cfg="S03_tree", sys="seq", flags="backend", variants=2),
    dict(kind="sim", name="once", cfg="S03_sim_once", sys="seq", flags="backend", num=1600, variants=4),
    dict(kind="sim", name="replay", cfg="S03_sim_replay", sys="seq", flags="replay,backend", num=1600, variants=4),
    dict(kind="sim", name="rates", cfg="S03_sim_rates", sys="seq", flags="backend,rates", num=1200, variants=4),
])

# --- Network graph ---------------------------------------------------------------
NET_INV = ["WF", "CycleDef", "Split", "Emit"]


def net(name, spec, pre, maxn, acyclic, depth, sim):
    cfg(name, "MC_Net", spec, dict(Ios=f"<- {pre}Ios", Arities=f"<- {pre}Arities", Plays=f"<- {pre}Plays",
        MaxNodes=maxn, Acyclic=acyclic, Depth=depth, Sim=sim), NET_INV, ["Stable"])


net("N01_sim", "SpecN01", "Sim", 7, True, 26, True)
net("N02_sim", "SpecN02", "Sim", 8, False, 30, True)
net("N03_sim", "SpecN03", "Sim", 6, False, 34, True)
net("N03_tree", "SpecTree", "Tree", 3, False, 7, False)

PLAN["N01"] = dict(stages=[dict(kind="sim", cfg="N01_sim", sys="net", num=2000, variants=4)])
PLAN["N02"] = dict(stages=[dict(kind="sim", cfg="N02_sim", sys="net", num=2000, variants=4)])
PLAN["N03"] = dict(stages=[
    dict(kind="tree", cfg="N03_tree", sys="net", variants=1),
    dict(kind="sim", cfg="N03_sim", sys="net", num=2400, variants=4)])

# --- Frontend and backend ---------------------------------------------------------
RT_INV = ["WF", "Kept", "Converges", "Batches", "Emit"]


def netrt(name, spec, pre, maxn, depth, sim, before):
    cfg(name, "MC_NetRT", spec, dict(Ios=f"<- {pre}Ios", Arities=f"<- {pre}Arities", Plays=f"<- {pre}Plays",
        MaxNodes=maxn, Depth=depth, Sim=sim, Pre=before), RT_INV)


netrt("N05_sim", "Spec", "Sim", 8, 34, True, 2)
netrt("N05_tree", "SpecTree", "Tree", 2, 7, False, 1)
PLAN["N05"] = dict(stages=[
    dict(kind="tree", cfg="N05_tree", sys="net", flags="backend", variants=1),
    dict(kind="sim", cfg="N05_sim", sys="net", flags="backend", num=2400, variants=4)])

# --- Crossfades --------------------------------------------------------------------
def xf(name, spec, mode, pre, rates, depth, sim, soaks="{}"):
    cfg(name, "MC_Crossfade", spec, dict(Mode=mode, Lens=f"<- {pre}Lens", Sizes=f"<- {pre}Sizes", Rates=rates,
        Depth=depth, Sim=sim, Soaks=soaks), ["Waiting", "Phase", "Order", "Weights", "Emit"], ["Newer"])


PLAN["N06"] = dict(stages=[])
for m in ("slot", "net", "rt"):
    xf(f"N06_{m}", "Spec", m, "Sim", True, 26, True)
    xf(f"N06_{m}_tree", "SpecTree", m, "Tree", False, 6, False)
    PLAN["N06"]["stages"] += [
        dict(kind="tree", name=m + "_tree", cfg=f"N06_{m}_tree", sys="xfade", flags=m, variants=1),
        dict(kind="sim", name=m, cfg=f"N06_{m}", sys="xfade", flags=m, num=1600, variants=3)]

# --- Ownership ------------------------------------------------------------------------
SOAKS = "{700, 1100}"
seq("R01_seq", "MC_S02", "SpecSoak", False, True, False, 6, 16, True, "Sim", SOAKS)
xf("R01_slot", "Spec", "slot", "Sim", False, 20, True, SOAKS)
xf("R01_rt", "Spec", "rt", "Sim", False, 24, True, SOAKS)
PLAN["R01"] = dict(stages=[
    dict(kind="sim", name="net", cfg="N05_sim", sys="net", flags="backend,ledger", num=2400, variants=2),
    dict(kind="sim", name="slot", cfg="N06_slot", sys="xfade", flags="slot,ledger", num=1600, variants=2),
    dict(kind="sim", name="fades", cfg="N06_rt", sys="xfade", flags="rt,ledger", num=2400, variants=2),
    dict(kind="sim", name="seq_once", cfg="S03_sim_once", sys="seq", flags="backend,ledger", num=1600, variants=2),
    dict(kind="sim", name="seq_replay", cfg="S03_sim_replay", sys="seq", flags="replay,backend,ledger", num=1600, variants=2),
    dict(kind="sim", name="soak_slot", cfg="R01_slot", sys="xfade", flags="slot,ledger", num=200, variants=1),
    dict(kind="sim", name="soak_rt", cfg="R01_rt", sys="xfade", flags="rt,ledger", num=200, variants=1),
    dict(kind="sim", name="soak_seq", cfg="R01_seq", sys="seq", flags="backend,ledger", num=200, variants=1),
])

# --- Expressions -------------------------------------------------------------------------
def expr(name, spec, pre, maxar, maxpool, maxleaves, fronts, depth, sim, plays):
    cfg(name, "MC_Expr", spec, dict(Arities=f"<- {pre}Arities", MaxAr=maxar, MaxPool=maxpool, MaxLeaves=maxleaves,
        Plays=plays, Fronts=fronts, Depth=depth, Sim=sim), ["Shape", "Disjoint", "UniqueIds", "Laws", "Emit"])


expr("N04_sim", "Spec", "Sim", 3, 5, 24, True, 28, True, "{1, 3, 9}")
expr("N04_front", "SpecFront", "Sim", 3, 5, 24, True, 30, True, "{1, 3, 9}")
expr("G01_sim", "SpecSet", "Sim", 3, 5, 24, False, 28, True, "{1, 2, 9}")
PLAN["N04"] = dict(stages=[
    dict(kind="sim", cfg="N04_sim", sys="expr", num=2000, variants=3, procs=8),
    dict(kind="sim", name="front", cfg="N04_front", sys="expr", num=1600, variants=3, procs=8)])
PLAN["G01"] = dict(stages=[dict(kind="sim", cfg="G01_sim", sys="expr", num=2000, variants=3, procs=8)])

# --- Units ---------------------------------------------------------------------------------
def units(name, spec, plays, depth):
    cfg(name, "Units", spec, dict(Kinds="{" + ", ".join(map(str, range(NKINDS))) + "}", Seeds="{" + ", ".join(map(str, range(1, 60))) + "}",
        Plays=plays, Rates="{22050, 44100, 48000, 96000}", MaxInst=4, Depth=depth, Sim=True), ["Counted", "Emit"], ["Independent"])


NKINDS = 1000
units("B01_sim", "SpecB01", "{1, 2, 7, 8, 30, 64, 100, 300}", 14)
units("B02_sim", "SpecB02", "{1, 2, 7, 8, 30, 64, 100, 300}", 16)
PLAN["B01"] = dict(stages=[dict(kind="sim", cfg="B01_sim", sys="unit", num=100000, variants=2)])
PLAN["B02"] = dict(stages=[dict(kind="sim", cfg="B02_sim", sys="unit", num=100000, variants=2)])

cfg("A01_units", "RtMem", "Spec", dict(Kinds="{" + ", ".join(map(str, range(NKINDS))) + "}", Seeds="{" + ", ".join(map(str, range(1, 60))) + "}",
    Plays="{1, 2, 7, 8, 30, 64, 100, 300, 1500}", Rates="{22050, 44100, 48000, 96000}", MaxInst=3, Depth=14, Sim=True), ["Emit"], ["Stays"])
cfg("A01_graphs", "Routing", "SpecMem", dict(Kinds='{"pass", "mpass", "tick", "delay", "gain", "gen", "rev", "split", "join", "lim", "lp", "lim2", "res", "res2", "sj", "ms", "nz", "nu", "fb", "fb2", "fb3", "over", "flt"}',
    MaxAr=3, Rates="{8, 24}", Plays="{1, 3, 70, 400}", Depth=14, Sim=True), ["Series", "Emit"])
PLAN["A01"] = dict(stages=[dict(kind="sim", name="units", cfg="A01_units", sys="unit", num=40000, variants=2),
    dict(kind="sim", name="graphs", cfg="A01_graphs", sys="route", num=4000, variants=2, procs=8),
    dict(kind="sim", name="net", cfg="N05_sim", sys="net", flags="backend,mem", num=2400, variants=4),
    dict(kind="sim", name="slot", cfg="N06_slot", sys="xfade", flags="slot,mem", num=1600, variants=3),
    dict(kind="sim", name="fades", cfg="N06_rt", sys="xfade", flags="rt,mem", num=2400, variants=3),
    dict(kind="sim", name="seq_once", cfg="S03_sim_once", sys="seq", flags="backend,mem", num=1600, variants=4),
    dict(kind="sim", name="seq_replay", cfg="S03_sim_replay", sys="seq", flags="replay,backend,mem", num=1600, variants=4),
    dict(kind="sim", name="soak_slot", cfg="R01_slot", sys="xfade", flags="slot,mem", num=200, variants=1),
    dict(kind="sim", name="soak_rt", cfg="R01_rt", sys="xfade", flags="rt,mem", num=200, variants=1),
    dict(kind="sim", name="soak_seq", cfg="R01_seq", sys="seq", flags="backend,mem", num=200, variants=1)])

# --- Delays and feedback -----------------------------------------------------------------
DELAYS = ["tick1", "tick2", "delay", "neg", "fb", "fbs", "fb2", "unit", "chain", "bus", "fdn", "fdn2", "allnest", "tap1", "tap2", "lin1", "lin2"]
cfg("D01_sim", "Delay", "Spec", dict(Kinds="{" + ", ".join(f'"{k}"' for k in DELAYS) + "}",
    Times="{0, 1, 3, 5, 7, 9, 16, 29, 48, 77, 127, 160, 255, 333, 491, 528}", Rates="{512, 1024, 2048, 3000}",
    Plays="{1, 2, 9, 33, 64, 70, 130}", Depth=9, Sim=True), ["Causal", "Loop", "InStep", "Emit"])
PLAN["D01"] = dict(stages=[dict(kind="sim", cfg="D01_sim", sys="delay", num=1600, variants=4, procs=8)])

# --- Limiter --------------------------------------------------------------------------------
cfg("D02_sim", "Limiter", "Spec", dict(Times="{257, 300, 513, 1111}", Rates="{512, 1024, 1300, 2048}",
    Plays="{1, 9, 64, 70, 150}", Depth=9, Sim=True), ["LongEnough", "Emit"])
PLAN["D02"] = dict(stages=[dict(kind="sim", cfg="D02_sim", sys="limit", num=2000, variants=3, procs=8)])

# --- Shared controls -------------------------------------------------------------------------
cfg("M01_sim", "Shared", "Spec", dict(Rates="{512, 1024, 2048}", Plays="{1, 2, 7, 9, 33, 64, 65, 100}", Depth=14, Sim=True),
    ["Levels", "Quiet", "Emit"])
PLAN["M01"] = dict(stages=[dict(kind="sim", cfg="M01_sim", sys="shared", num=4000, variants=3, procs=8)])

# --- Snoop and ring ----------------------------------------------------------------------------
for name, spec in (("F01_sim", "Spec"), ("F01_flood", "SpecFlood")):
    cfg(name, "Queue", spec, dict(Size=64, Room=1000, Caps="{1, 2, 3, 50, 64, 100, 128, 500, 4096}", RingCaps="{2, 3, 7, 64, 1000}",
        Plays="{1, 2, 5, 33, 63, 64, 65, 100, 200}", Floods="{640, 1500, 6401}", Depth=30 if name == "F01_sim" else 12, Sim=True),
        ["InOrder", "Whole", "RingSane", "Emit"])
PLAN["F01"] = dict(stages=[
    dict(kind="sim", cfg="F01_sim", sys="queue", num=4000, variants=3, procs=8),
    dict(kind="sim", name="flood", cfg="F01_flood", sys="queue", num=200, variants=2)])

# --- Identifiers ----------------------------------------------------------------------------------
def idgen(name, spec, threads, calls, depth, sim, record, stress=False, inv=("Unique", "Emit"), starts="{0, 1, 2, 3}", danger=7):
    cfg(name, "IdGen", spec, dict(Threads=threads, Danger=danger, Calls=calls, MaxHigh=9, Starts=starts, Stress=stress,
        Depth=depth, Sim=sim, Record=record), inv, extra=[] if record else ["VIEW View"])


idgen("I01_mc", "Spec", "{1, 2, 3}", 2, 0, False, False, inv=("Unique",))
idgen("I01_tree2", "SpecTree", "{1, 2}", 2, 99, False, True)
idgen("I01_tree3q", "SpecTree", "{1, 2, 3}", 1, 99, False, True, starts="{1}")
idgen("I01_tree3", "SpecTree", "{1, 2, 3}", 1, 99, False, True, starts="{0, 1, 2}")
idgen("I01_sim", "Spec", "{1, 2, 3, 4}", 50, 60, True, True, danger=14)
idgen("I01_burst", "SpecBurst", "{1}", 1, 6, True, True, True)
PLAN["I01"] = dict(stages=[
    dict(kind="mc", cfg="I01_mc"),
    dict(kind="tree", name="tree2", cfg="I01_tree2", sys="idgen", variants=1),
    dict(kind="tree", name="tree3q", cfg="I01_tree3q", sys="idgen", variants=1),
    dict(kind="tree", name="tree3", cfg="I01_tree3", sys="idgen", variants=1, tier="thorough"),
    dict(kind="sim", cfg="I01_sim", sys="idgen", num=2000, variants=1),
    dict(kind="sim", name="burst", cfg="I01_burst", sys="idgen", num=64, variants=1),
    dict(kind="known", name="suspended", sys="idgen", file="known_I01.json",
         text="a call suspended while others are handed out a whole cycle of 2^32 identifiers returns one of theirs")])

# --- Buffers -----------------------------------------------------------------------------------------
cfg("U01_sim", "Buffers", "Spec", dict(MaxCh=5, Depth=16, Sim=True), ["Shape", "Emit"], ["Local"])
PLAN["U01"] = dict(stages=[dict(kind="sim", cfg="U01_sim", sys="buffers", num=5000, variants=1, procs=8)])

# --- Waves -------------------------------------------------------------------------------------------
cfg("W01_sim", "Wave", "Spec", dict(MaxCh=3, MaxLen=13, Long=150, Depth=24, Sim=True), ["Rectangular", "FadesRise", "Emit"])
cfg("W02_sim", "Wave", "SpecPlay", dict(MaxCh=2, MaxLen=9, Long=150, Depth=16, Sim=True), ["Rectangular", "Emit"])
cfg("W02_res", "Resample", "Spec", dict(MaxLen=140, Speeds="{0, 1, 2, 3, 4, 4, 4, 5, 8, 12, 29, 400}", Plays="{1, 5, 64, 100}", Depth=12, Sim=True), ["Start", "Interpolates", "Emit"], ["Forward"])
PLAN["W01"] = dict(stages=[dict(kind="sim", name="wave", cfg="W01_sim", sys="wave", num=4000, variants=2, procs=8)])
PLAN["W02"] = dict(stages=[
    dict(kind="sim", name="player", cfg="W02_sim", sys="wave", num=3000, variants=3, procs=8),
    dict(kind="sim", name="resample", cfg="W02_res", sys="resample", num=2000, variants=3, procs=8)])

# --- Signal flow analysis ------------------------------------------------------------------------------
cfg("L01_sim", "Routing", "Spec", dict(Kinds='{"pass", "mpass", "tick", "delay", "gain", "offs", "dc", "gen", "rev", "split", "join", "sink", "lim", "lp", "flt", "lim2", "shape", "fir", "mix", "res", "res2", "sj", "rj", "ms", "j3", "nz", "nu", "fb", "fb2", "over"}',
    MaxAr=3, Rates="{1, 2, 4}", Plays="{1, 20, 70}", Depth=16, Sim=True), ["LatencyIsReal", "Series", "Emit"])
cfg("Q01_sim", "Routing", "Spec", dict(Kinds='{"pass", "mpass", "tick", "delay", "gain", "offs", "dc", "gen", "rev", "split", "join", "fir", "mix", "sj", "rj", "ms", "j3", "nz", "nu", "shape", "flt", "flt2", "flt3", "flt4"}',
    MaxAr=3, Rates="{1, 2, 4}", Plays="{1, 20}", Depth=16, Sim=True), ["LatencyIsReal", "Series", "Emit"])
PLAN["Q01"] = dict(stages=[dict(kind="sim", name="route", cfg="Q01_sim", sys="route", num=4000, variants=2, procs=8)])
PLAN["L01"] = dict(stages=[dict(kind="sim", name="route", cfg="L01_sim", sys="route", num=4000, variants=2, procs=8)])

# --- Envelopes -----------------------------------------------------------------------------------------
cfg("E01_env", "Envelope", "Spec", dict(Kinds='{"env", "env32", "lfo", "env2", "env3", "in", "in2"}', Rates="{128, 512, 1024, 2048, 4096}",
    Plays="{1, 2, 9, 33, 64, 100}", Intervals="{9, 17, 40, 150}", Depth=12, Sim=True), ["Exact", "Emit"])
cfg("E01_adsr", "Adsr", "Spec", dict(Times="{0, 1, 90, 300, 1000, 2500}", Levels="{0, 250, 500, 1000}", Rates="{512, 1024, 2048, 4096}",
    Plays="{1, 9, 64, 100, 200}", Depth=24, Sim=True), ["InRange", "Silence", "Emit"])
PLAN["E01"] = dict(stages=[
    dict(kind="sim", name="env", cfg="E01_env", sys="env", num=3000, variants=3, procs=8),
    dict(kind="sim", name="adsr", cfg="E01_adsr", sys="adsr", num=3000, variants=3, procs=8)])
