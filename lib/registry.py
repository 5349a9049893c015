"""The checks: which specifications, configurations, harnesses and comparisons
decide each property."""
from mbt import Def


def qt_flags():
    base = "/usr/include/x86_64-linux-gnu/qt5"
    return ["-I" + base] + ["-I%s/Qt%s" % (base, m) for m in (
        "Core", "Gui", "Qml", "QmlModels", "Quick", "Network", "Concurrent", "Test")]


def dbg_srcs(g):
    return ["debug_%s.cpp" % g] + ["debug_%s_%s.cpp" % (g, x)
                                   for x in ("00", "01", "10", "11")]


# ----------------------------------------------------------------- harnesses
FLOW_SRCS = ["flow.cpp", "flow_chain_1Cur.cpp", "flow_chain_1Rea.cpp",
             "flow_chain_2Cur.cpp", "flow_chain_2Rea.cpp", "flow_chain_tRe2.cpp"]
H = {
    "flow": dict(name="flow", srcs=FLOW_SRCS),
    "flow_asan": dict(name="flow_asan", srcs=FLOW_SRCS,
                      flags=["-fsanitize=address"]),
    "watch": dict(name="watch", srcs=["watch.cpp"], flags=["-fsanitize=address"]),
    "store": dict(name="store", srcs=["store.cpp", "store_00.cpp", "store_01.cpp",
                                      "store_10.cpp", "store_11.cpp"],
                  flags=["-fsanitize=address"], libs=["-lpthread"]),
    "debug_lin": dict(name="debug_lin", srcs=dbg_srcs("lin"), libs=["-lpthread"]),
    "debug_tree": dict(name="debug_tree", srcs=dbg_srcs("tree"), libs=["-lpthread"]),
    "enh": dict(name="enh", srcs=["enh.cpp"] + ["enh_%d.cpp" % i for i in range(1, 7)],
                libs=["-lpthread"]),
    "context": dict(name="context",
                    srcs=["context.cpp"] + ["context_%d.cpp" % i for i in range(1, 9)]),
    "lens": dict(name="lens",
                 srcs=["lens.cpp"] + ["lens_%d.cpp" % i for i in range(1, 22)]),
    "lens_noexc": dict(name="lens_noexc", flags=["-DLAGER_NO_EXCEPTIONS"],
                       srcs=["lens.cpp"] + ["lens_%d.cpp" % i for i in (7, 8, 18, 20)]),
    "serial": dict(name="serial",
                   srcs=["serial.cpp"] + ["serial_%d.cpp" % i for i in range(1, 9)]),
    "deps": dict(name="deps", srcs=["deps.cpp"] + ["deps_%d.cpp" % i for i in range(1, 8)]),
    "http": dict(name="http", srcs=["http.cpp", "http_0.cpp", "http_3.cpp", "http_5.cpp"],
                 libs=["-lpthread"]),
    "trace_http": dict(name="trace_http", srcs=["trace_http.cpp"], libs=["-lpthread"]),
    "trace_http_tsan": dict(name="trace_http_tsan", srcs=["trace_http.cpp"],
                            flags=["-fsanitize=thread"], libs=["-lpthread"]),
    "loops": dict(name="loops", srcs=["loops.cpp"], flags=["-fsanitize=address"],
                  libs=["-lpthread"]),
    "trace_std": dict(name="trace_std", srcs=["trace_std.cpp"], libs=["-lpthread"]),
    "trace_tsan": dict(name="trace_tsan", srcs=["trace_std.cpp"],
                       flags=["-fsanitize=thread"], libs=["-lpthread"]),
    "trace_sdl": dict(name="trace_sdl", srcs=["trace_sdl.cpp"],
                      libs=["-lSDL2", "-lpthread"]),
    "trace_qt": dict(name="trace_qt", srcs=["trace_qt.cpp"], flags=["-fPIC"] + qt_flags(),
                     libs=["-lQt5Quick", "-lQt5Gui", "-lQt5Qml", "-lQt5Concurrent",
                           "-lQt5Core", "-lpthread"]),
    "qt_props": dict(name="qt_props", srcs=["qt_props.cpp"], moc=["qt_props.hpp"],
                     flags=["-fPIC"] + qt_flags(),
                     libs=["-lQt5Qml", "-lQt5Test", "-lQt5Core", "-lpthread"]),
    "future_tsan": dict(name="future_tsan", srcs=["future.cpp"],
                        flags=["-fsanitize=thread"], libs=["-lpthread"]),
    "future": dict(name="future", srcs=["future.cpp"], libs=["-lpthread"],
                   env=dict(ROUNDS="400")),
    "flow_nodef": dict(name="flow_nodef", srcs=FLOW_SRCS, flags=["-DNODEFAULT"]),
    "flow_eq": dict(name="flow_eq", srcs=FLOW_SRCS, flags=["-DONLYEQ"]),
}

# ------------------------------------------------------------ cursors (Flow)
FLOW_INV = ["InvDerived", "InvSnapshot", "InvSeen", "InvNotified", "InvOnce"]
FLOW_PROP = ["PropIsolated", "PropCommit", "PropWrite", "PropSensor", "PropSticky"]
TRANS = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 20, 21, 22, 24, 48, 49, 54, 55,
         58, 60}
FILTERS = {20, 21, 22, 23, 24, 48, 56}
READERS = set(range(1, 30)) | {48, 49} | set(range(54, 62))
K_TRANS = {"st", "co", "lens", "lens2", "map", "map2", "merge", "xinc", "xupd",
           "x2map", "x2upd", "filt", "filt2", "ch1", "ch2", "map3", "lens3", "filt3", "mapn"}
K_ALL = K_TRANS | {"sa", "se", "sut", "sua"}


def flow(name, topos, maxlen, ops, mask, harness="flow", quick=True, nodef=False,
         thorough_len=None, **kw):
    j = dict(name=name, module="FlowMC", view="view", inv=FLOW_INV, prop=FLOW_PROP,
             emit="Emit", harness=harness, mask=mask,
             consts=dict(TopoSet=set(topos), MaxLen=maxlen, Ops=set(ops),
                         NoDefault=nodef),
             thorough=dict(MaxLen=thorough_len or maxlen + 1))
    j.update(kw)
    return j


def flowsim(name, kinds, ops, mask, harness="flow", maxlen=12, gen=9, watch=6,
            progs=("no",), num=1200, tnum=12000, **kw):
    j = dict(name=name, module="FlowSim", spec="SimSpec", inv=FLOW_INV,
             emit="SimEmit", harness=harness, mask=mask,
             sim=dict(num=num, depth=gen + watch + maxlen + 2),
             thorough_sim=dict(num=tnum, depth=gen + watch + maxlen + 12),
             consts=dict(TopoSet=set(), MaxLen=maxlen, Ops=set(ops), GenSteps=gen,
                         WatchSteps=watch, Progs=set(progs), Kinds=set(kinds),
                         NoDefault=False),
             thorough=dict(MaxLen=maxlen + 8))
    j.update(kw)
    return j


def chain(name, maxlen, ops, mask):
    j = flow(name, set(), maxlen, ops, mask)
    j.update(module="FlowChain", spec="CSpec")
    return j


CHECKS = {}

CHECKS["C01"] = [
    flow("isolation", TRANS, 4, {"set", "upd", "com", "com1"}, "vi", thorough_len=6),
    flow("isolation_late", {1, 2, 3, 5, 7, 8, 9, 10}, 3,
         {"set", "com", "com1", "derive", "watch"}, "vi", thorough_len=4),
    flow("callbacks", {43, 50, 51, 52, 53}, 5, {"set", "upd", "com", "com1"}, "vc",
         thorough_len=6),
    flowsim("isolation_random", K_TRANS, {"set", "upd", "com", "com1"}, "vi"),
    flowsim("callbacks_random", K_TRANS, {"set", "upd", "com", "com1"}, "vc",
            gen=6, watch=9, progs=("no", "set", "no", "clamp")),
]
CHECKS["C02"] = [
    flow("derived", READERS, 4, {"set", "com", "com1", "comr", "env"}, "v",
         thorough_len=6),
    flow("derived_late", READERS, 3, {"set", "com", "derive"}, "v", thorough_len=4),
    flowsim("derived_random", K_TRANS | {"sa", "se"},
            {"set", "com", "com1", "env", "derive"}, "v", gen=11),
]
CHECKS["C03"] = [
    flow("notify", READERS, 4, {"set", "com", "com1", "comr", "env"}, "c",
         harness="flow_eq", thorough_len=6),
    flow("callbacks", {17, 19, 43, 44, 46, 50, 51, 52, 53}, 4,
         {"set", "upd", "com", "com1"}, "c", harness="flow_eq", thorough_len=5),
    flowsim("notify_random", K_TRANS | {"se", "sa"},
            {"set", "upd", "com", "com1", "env", "watch"}, "c", watch=9,
            harness="flow_eq"),
]
CHECKS["C04"] = [
    flow("snapshot", READERS | set(range(38, 48)) | {50, 51, 52, 53}, 4,
         {"set", "com", "com1", "comr", "env"}, "s", thorough_len=5),
    flowsim("snapshot_random", K_TRANS | {"se", "sa"},
            {"set", "upd", "com", "env"}, "s", watch=9),
]
CHECKS["C05"] = [
    flow("writes", {1, 5, 6, 7, 8, 9, 10, 11, 13, 15, 23, 30, 31, 35, 54, 55, 62}, 4,
         {"set", "upd", "com"}, "v", thorough_len=6),
    flow("writes_late", {1, 6, 9, 13}, 3, {"set", "upd", "com", "derive"}, "v",
         thorough_len=4),
    flowsim("writes_random",
            {"st", "sa", "lens", "lens2", "merge", "xinc", "xupd", "xmod", "x2map", "x2upd",
             "lens3", "ch1", "ch2"}, {"set", "upd", "com"}, "v", maxlen=16),
]
CHECKS["C06"] = [
    flow("auto", {12, 13, 15, 16, 17, 18, 19, 23, 29, 31, 32, 42, 57, 59, 61, 63}, 4,
         {"set", "upd", "com", "com1", "env"}, "vcs", thorough_len=6),
    flowsim("auto_random", (K_ALL - {"st", "co", "sut", "sua"}) | {"sa"},
            {"set", "upd", "com", "watch"}, "vcs",
            progs=("no", "set", "clamp", "no"), watch=8),
]
W_PROGS = {"unb", "des", "wat", "nud", "asg"}
W_OPS = {"watch", "bind", "nudge", "unbind", "assign", "move", "expr", "empty",
         "destroy", "make", "cursor"}


def watch(name, maxlen, ops, objs, srcs, fs, progs=(), maxcb=4, sim=None, **kw):
    j = dict(name=name, module="Watch", inv=["InvOwner", "InvOrder"],
             prop=["PropKeep", "PropCalls", "PropNudge"], view="view",
             harness="watch", emit="Emit",
             consts=dict(MaxLen=maxlen, Ops=set(ops), Objs=set(objs), Srcs=set(srcs),
                         Fs=set(fs), Progs=set(progs), MaxCb=maxcb))
    if sim:
        j.update(spec="SimSpec", emit="SimEmit", sim=dict(num=sim, depth=maxlen * 4),
                 thorough_sim=dict(num=sim * 10, depth=maxlen * 4))
    j.update(kw)
    return j


CHECKS["C07"] = [
    watch("lifetimes", 5, W_OPS, {1, 3, 4}, {1}, {"self", "par"}, maxcb=2,
          thorough=dict(MaxLen=6)),
    watch("lifetimes_auto", 5, W_OPS - {"bind", "nudge"}, {2, 3, 5}, {2},
          {"self", "inc"}, maxcb=2, thorough=dict(MaxLen=6)),
    watch("callbacks", 6, {"watch"}, {1, 3}, {1}, {"self", "par"},
          progs=W_PROGS, maxcb=3, thorough=dict(MaxLen=7)),
    watch("lifetimes_random", 24, W_OPS, {1, 2, 3, 4, 5}, {1, 2},
          {"self", "inc", "par"}, progs=W_PROGS, maxcb=9, sim=1500),
]
CHECKS["C08"] = [
    flow("graph_change", set(range(38, 48)) | {16, 17, 19}, 4,
         {"set", "com", "com1", "drop"}, "vc", harness="flow_asan", thorough_len=5),
    flow("graph_late", set(range(38, 48)), 3,
         {"set", "com", "drop", "derive", "watch"}, "vc", harness="flow_asan",
         thorough_len=4),
    flowsim("graph_random", K_TRANS | {"sa", "se"},
            {"set", "com", "com1", "drop", "derive", "watch"}, "vc",
            harness="flow_asan",
            progs=("no", "mk", "drop", "mkdrop", "com", "setc", "set"), watch=9),
]
CHECKS["C09"] = [
    chain("chains", 3, {"set", "upd", "com"}, "vcm"),
    flowsim("chains_random", {"st", "sa", "se", "ch1", "ch2", "lens", "map"},
            {"set", "upd", "com", "env"}, "vcm", num=800),
]
CHECKS["C10"] = [
    flow("filters", FILTERS, 5, {"set", "com", "com1"}, "vc", thorough_len=7),
    flow("no_value", {1, 2, 9, 13, 26}, 3, {"set", "com", "derive", "env"}, "vc",
         harness="flow_nodef", nodef=True, thorough_len=4),
    flowsim("filters_random",
            {"st", "sa", "se", "lens", "map", "map2", "filt", "filt2", "filt3", "ch1"},
            {"set", "com", "com1", "env", "derive"}, "vc", maxlen=16),
]
CHECKS["C11"] = [
    flow("sensors", {25, 26, 27, 28, 29, 56}, 5, {"set", "com", "com1", "comr", "env"},
         "vce", thorough_len=7),
    flowsim("sensors_random", {"se", "co", "st", "map", "map2", "lens2", "merge", "mapn",
                               "filt", "map3", "ch1", "ch2"},
            {"set", "com", "com1", "env", "derive"}, "vce", maxlen=16),
]
CHECKS["C12"] = [
    flow("setters", set(range(30, 38)), 5, {"set", "upd", "com"}, "vcw",
         thorough_len=6),
    flowsim("setters_random", {"st", "sa", "sut", "sua", "lens", "map", "xinc"},
            {"set", "upd", "com"}, "vcw", maxlen=16),
]

# ------------------------------------------------------------ stores (Store)
ALL_KINDS = set(range(8))   # 4 transactional + 2 futures + 1 effects
S_INV = ["InvPublished", "InvPrefix", "InvEffSees", "InvEffOnce", "InvWatch",
         "InvCount", "InvOnce", "InvComplete", "InvDone"]
S_PROP = ["PropTrans", "PropCommit", "PropFold", "PropQueued"]


def store(name, progs, maxlen, ops, loops, kinds, mask, acts=7, sim=None, thunks=False,
          harness="store", **kw):
    j = dict(name=name, module="StoreMC", inv=S_INV, prop=S_PROP, view="view",
             harness=harness, emit="Emit", mask=mask,
             consts=dict(MaxLen=maxlen, MaxActs=acts, Ops=set(ops), Progs=set(progs),
                         Loops=set(loops), Kinds=set(kinds), Thunks=thunks),
             thorough=dict(MaxLen=maxlen + 1))
    if sim:
        j.update(spec="SimSpec", emit="SimEmit", inv=S_INV,
                 sim=dict(num=sim, depth=maxlen * 10),
                 thorough_sim=dict(num=sim * 10, depth=maxlen * 10), thorough={})
        j["consts"]["MaxActs"] = 20
    j.update(kw)
    return j


NO_THUNK = set(range(1, 19)) | {22, 23, 24, 25}
LOOPS = {"one", "manual", "queue", "safe", "asio"}

def future(name, harness):
    return dict(name=name, module="Future", spec="FairSpec",
                inv=["InvOnce", "InvAll", "InvAfter", "InvHeld"], prop=["Live"],
                emit="Emit", harness=harness, group=("p", "r", "outcomes"),
                threads=True, consts=dict(Progs=set(range(1, 8)), Size=3))


S_RND = {"d", "dt", "hold", "step"}
FUT_KINDS = {2, 3, 6, 7}
EFF_KINDS = {1, 3, 5, 7}
CHECKS["C13"] = [
    store("actions", NO_THUNK, 4, {"d", "step"}, LOOPS, {0, 1, 5}, "rn"),
    store("actions_random", {1}, 14, S_RND, LOOPS, ALL_KINDS, "rn", sim=1500),
]
CHECKS["C14"] = [
    store("effects", NO_THUNK, 4, {"d", "step"}, LOOPS, EFF_KINDS, "reg"),
    store("effects_random", {1}, 14, S_RND, LOOPS, EFF_KINDS, "reg", sim=1500),
]
CHECKS["C15"] = [
    store("publication", {1, 2, 3, 4, 9, 10, 11, 15, 16, 17, 22, 24}, 4, {"d", "step"}, LOOPS,
          ALL_KINDS, "wecg"),
    store("publication_random", {1}, 14, S_RND, LOOPS, ALL_KINDS, "wecg", sim=1500),
]
CHECKS["C16"] = [
    store("futures", set(range(5, 16)) | {22, 23, 24, 25}, 3, {"d", "dt", "hold", "step"},
          {"one", "manual"}, FUT_KINDS, "ec", acts=5),
    store("futures_loops", {11, 13, 15, 22}, 3, {"d", "dt"},
          {"queue", "safe", "asio"}, ALL_KINDS, "ec", acts=5),
    future("threads", "future"), future("threads_tsan", "future_tsan"),
    store("futures_random", {1}, 14, S_RND, LOOPS, FUT_KINDS, "ec", sim=1500),
]

# -------------------------------------------------------- event loops (Loops)
L_INV = ["InvFifo", "InvThread", "InvKept"]
L_PROP = ["PropManual", "PropQueue", "PropQueueAll", "PropThrow"]


def loops(name, kinds, progs, maxlen, sim=None, ops=()):
    j = dict(name=name, module="Loops", inv=L_INV, prop=L_PROP, view="view",
             harness="loops", emit="Emit", thorough=dict(MaxLen=maxlen + 2),
             consts=dict(MaxLen=maxlen, Kinds=set(kinds), Progs=set(progs), Ops=set(ops)))
    if sim:
        j.update(spec="SimSpec", emit="SimEmit", thorough={},
                 sim=dict(num=sim, depth=maxlen + 3),
                 thorough_sim=dict(num=sim * 10, depth=maxlen + 3))
    return j


def trace(name, harness, kind, num, tnum, **kw):
    """Traces of real threads, judged with LoopMonitor.tla."""
    return dict(dict(type="trace", name=name, harness=harness, kind=kind, num=num,
                     tnum=tnum), **kw)


CHECKS["C20"] = [
    loops("manual", {"manual"}, set(range(1, 7)), 6),
    loops("manual_random", {"manual"}, {1}, 20, sim=1500),
]
CHECKS["C21"] = [
    loops("queue", {"queue"}, set(range(1, 7)), 6),
    loops("queue_random", {"queue"}, {1}, 30, sim=1500),
]
CHECKS["C22"] = [
    loops("safe", {"safe"}, set(range(1, 9)), 4, ops={"tpost"}),
    loops("safe_random", {"safe"}, {1}, 30, sim=1500, ops={"tpost"}),
    dict(type="model", name="algorithm", module="SafeQueue", inv=["InvGood", "InvKept"],
         consts=dict(Threads=2, Posts=2, Steps=3, Body="mix"),
         thorough=dict(Threads=3, Posts=2, Steps=3)),
    trace("threads", "trace_std", "safe", 16000, 400000),
    trace("threads_tsan", "trace_tsan", "safe", 4000, 80000),
]
CHECKS["C23"] = [
    trace("asio", "trace_std", "asio", 8000, 200000),
    trace("asio_tsan", "trace_tsan", "asio", 2000, 40000),
    trace("sdl", "trace_sdl", "sdl", 2400, 40000),
    trace("qt", "trace_qt", "qt", 4000, 80000),
    trace("qml", "trace_qt", "qml", 800, 16000),
]

# --------------------------------------------------------- debuggers (Debug)
D_INV = ["InvLin", "InvTree", "InvSummary", "InvAct", "InvPend", "InvEff", "InvShown", "InvOnce",
         "InvComplete"]
D_PROP = ["PropTree", "PropPaused", "PropTrunc", "PropTrunc1"]


def debug(name, g, progs, maxlen, ops, loops, kinds, mask, sim=None, harness=None, **kw):
    j = dict(name=name, module="DebugMC", spec="DSpec", inv=D_INV, prop=D_PROP,
             view="dview", harness=harness or "debug_" + g, emit="Emit", mask=mask,
             consts=dict(MaxLen=maxlen, MaxActs=7, Ops=set(ops), Progs=set(progs),
                         Loops=set(loops), Kinds=set(kinds), Thunks=False, Dbgs={g}),
             thorough=dict(MaxLen=maxlen + 1))
    if sim:
        j.update(spec="DSimSpec", emit="SimEmit", sim=dict(num=sim, depth=maxlen * 8),
                 thorough_sim=dict(num=sim * 10, depth=maxlen * 8), thorough={})
        j["consts"]["MaxActs"] = 20
    j.update(kw)
    return j


CHECKS["C24"] = [
    debug("history", "lin", {1, 2, 4, 9, 25}, 4, (), {"manual", "queue"}, {0, 1, 3, 5}, "Dre"),
    debug("history_deep", "lin", {1}, 6, (), {"manual"}, {0}, "Dre"),
    debug("history_random", "lin", {1}, 24, (), LOOPS, ALL_KINDS, "Drec", sim=700),
]
CHECKS["C25"] = [
    debug("pauses", "lin", {1, 3, 5, 7, 13}, 4, {"pause"}, {"manual", "queue"}, {1, 3},
          "Drep"),
    debug("pauses_tree", "tree", {1, 3, 5, 7, 13}, 4, {"pause"}, {"manual"}, {1, 3},
          "Drep"),
    debug("pauses_random", "lin", {1}, 24, {"pause"}, LOOPS, ALL_KINDS, "Drecp", sim=500),
    debug("pauses_random_tree", "tree", {1}, 24, {"pause"}, LOOPS, ALL_KINDS, "Drecp",
          sim=300),
]
CHECKS["C26"] = [
    debug("tree", "tree", {1, 2, 4, 9}, 4, (), {"manual", "queue"}, {0, 1, 3, 5}, "Dre"),
    debug("tree_deep", "tree", {1}, 5, (), {"manual"}, {0}, "Dre"),
    debug("tree_random", "tree", {1}, 24, (), LOOPS, ALL_KINDS, "Drec", sim=700),
]


N_ENH = 21


def enh(name, progs, maxlen, ops, loops, sim=None, **kw):
    return debug(name, "lin", progs, maxlen, ops, loops, {0}, "recwgp", sim,
                 harness="enh", module="EnhMC",
                 inv=["InvAll", "InvTree", "InvLin", "InvPend", "InvEff", "InvShown", "InvOnce",
                      "InvComplete", "InvDone", "InvWatch"],
                 prop=["PropTree", "PropPausedE", "PropThunk"],
                 spec="ESimSpec" if sim else "ESpec", **kw)


CHECKS["C19"] = [
    enh("orders", {1, 2, 13, 18, 19, 20, 21}, 4, (), {"manual", "queue"}),
    enh("orders_debug", {1, 19}, 4, ("dbg",), {"manual"}),
    enh("orders_random", {1}, 16, (), LOOPS, sim=600),
]
for j in CHECKS["C19"]:
    j["consts"]["Enhs"] = set(range(1, N_ENH + 1))


def lens(name, absent, maxlen, depth, wholes, sim=None, **kw):
    j = dict(name=name, module="Lens", inv=["InvPutGet", "InvGetPut", "InvPutPut", "InvNone",
                                            "InvAbsent", "InvShape"],
             view="view", harness="lens", emit="Emit", thorough=dict(MaxLen=maxlen + 1),
             consts=dict(MaxLen=maxlen, MaxDepth=depth, Wholes=set(wholes), Absent=absent))
    if sim:
        j.update(spec="SimSpec", emit="SimEmit", thorough={},
                 sim=dict(num=sim, depth=maxlen + 2),
                 thorough_sim=dict(num=sim * 10, depth=maxlen + 2))
    j.update(kw)
    return j


N_WHOLE = 22
for p, absent in (("C28", False), ("C29", True)):
    CHECKS[p] = [lens("lenses", absent, 1, 2, range(1, N_WHOLE + 1)),
                 lens("lenses_random", absent, 6, 2, range(1, N_WHOLE + 1), sim=1500),
                 # as in programs that are built without exceptions
                 lens("lenses_noexc", absent, 1, 2, {4, 5, 6, 10, 11, 13, 17},
                      harness="lens_noexc")]


def context(name, maxlen, nctx, roots, atypes, sim=None, **kw):
    j = dict(name=name, module="Context", inv=["InvContents", "InvWays", "InvCompat", "InvQueue"],
             view="view", harness="context", emit="Emit",
             thorough=dict(MaxLen=maxlen + 1),
             consts=dict(MaxLen=maxlen, MaxCtx=nctx, Roots=set(roots), Lists=set(range(1, 14)),
                         Convs={"inc", "swap", "wrap"}, ATypes=set(atypes)))
    if sim:
        j.update(spec="SimSpec", emit="SimEmit", thorough={},
                 sim=dict(num=sim, depth=maxlen * 4),
                 thorough_sim=dict(num=sim * 10, depth=maxlen * 4))
    j.update(kw)
    return j


CHECKS["C17"] = [
    context("derive", 3, 3, {1, 2, 3, 4}, "ABCVW"),
    context("derive_random", 20, 6, {1, 2, 3, 4, 5}, "ABCVW", sim=2000),
]


def deps(name, maxlen, slots, makes, sim=None, **kw):
    j = dict(name=name, module="Deps", inv=["InvRequired", "InvKinds", "InvKeys"],
             prop=["PropCalls", "PropMerge"], view="view", harness="deps", emit="Emit",
             thorough=dict(MaxLen=maxlen + 1),
             consts=dict(MaxLen=maxlen, Slots=slots, Makes=set(makes),
                         Merges={1, 2, 4, 5, 6, 7, 10, 12, 13},
                         Dests=set(range(1, 16)), BothDests={1, 2, 4, 6, 12, 13, 14}))
    if sim:
        j.update(spec="SimSpec", emit="SimEmit", thorough={},
                 sim=dict(num=sim, depth=maxlen * 6),
                 thorough_sim=dict(num=sim * 10, depth=maxlen * 6))
    j.update(kw)
    return j


CHECKS["C18"] = [
    deps("bags", 4, 2, set(range(1, 16))),
    deps("bags_random", 16, 3, set(range(1, 16)), sim=3000),
    enh("effects", {2, 19}, 3, (), {"manual"}),
]
CHECKS["C18"][-1]["consts"]["Enhs"] = set(range(1, N_ENH + 1))


def serial(name, maxlen, archive, sim=None, **kw):
    j = dict(name=name, module="Serial", inv=["InvTyped"], prop=["PropLoad"], view="view",
             harness="serial", emit="Emit", thorough=dict(MaxLen=maxlen + 1),
             consts=dict(MaxLen=maxlen, Types=set(range(1, 29)), MaxArchive=archive))
    if sim:
        j.update(spec="SimSpec", emit="SimEmit", thorough={},
                 sim=dict(num=sim, depth=maxlen * 4),
                 thorough_sim=dict(num=sim * 10, depth=maxlen * 4))
    j.update(kw)
    return j


CHECKS["C31"] = [
    serial("archives", 5, 2),
    serial("archives_random", 20, 5, sim=1500),
]


QT_OPS = {"asg", "copy", "pw", "sw", "commit", "con", "prog", "qml", "del"}


def qt_props(name, maxlen, objs, ops=QT_OPS, sim=None, **kw):
    j = dict(name=name, module="QtProps", inv=["InvSame"],
             prop=["PropTold", "PropQml", "PropWritten"], view="view", harness="qt_props",
             emit="Emit", thorough=dict(MaxLen=maxlen + 1),
             consts=dict(MaxLen=maxlen, NObj=objs, Ops=set(ops)))
    if sim:
        j.update(spec="SimSpec", emit="SimEmit", thorough={},
                 sim=dict(num=sim, depth=maxlen * 4),
                 thorough_sim=dict(num=sim * 10, depth=maxlen * 4))
    j.update(kw)
    return j


CHECKS["C30"] = [
    qt_props("objects", 3, 2),
    qt_props("one", 5, 1, {"asg", "pw", "sw", "commit", "prog", "qml"},
             thorough=dict(MaxLen=6)),
    qt_props("objects_random", 24, 3, sim=400),
]


def http(name, progs, maxlen, ops, loops, sim=None, **kw):
    j = debug(name, "lin", progs, maxlen, ops, loops, {0, 3, 5}, "hrp", sim,
              harness="http", module="HttpMC",
              prop=D_PROP + ["PropReq"], spec="HSimSpec" if sim else "HSpec")
    j.update(kw)
    return j


CHECKS["C27"] = [
    http("requests", {1}, 3, {"req", "pause"}, {"manual"}),
    http("api", {1, 2}, 4, {"pause"}, {"manual"}),
    http("api_random", {1}, 20, {"req", "pause"}, LOOPS - {"safe"}, sim=400),
    trace("clients", "trace_http", "http", 3200, 40000, monitor="HttpTrace"),
    trace("clients_tsan", "trace_http_tsan", "http", 400, 8000, monitor="HttpTrace"),
]

# defects of the library that are recorded instead of repaired; see
# known_findings.txt
KNOWN = {
    "C31": [dict(harness="serial", file="C31-empty-root.beh", mask="",
                 what="lager::to_json() of an empty container or of a struct without "
                      "members gives an empty text, which lager::from_json() rejects "
                      "(known/C31-empty-root.beh)")],
    "C02": [dict(harness="flow", file="C02-partial-commit.beh", mask="v",
                 what="lager::commit(a) with a pending write to b: with(a, b).map(f) "
                      "shows the uncommitted value of b "
                      "(known/C02-partial-commit.beh)")],
    "C23": [dict(harness="trace_sdl", trace="flood",
                 what="functions posted to an SDL event loop while its queue of 65535 "
                      "events is full are lost silently")],
    "C10": [dict(harness="flow", file="C10-glitch.beh", mask="v",
                 what="with(s.map(f), s.map(g)).filter(p) keeps a pair of values "
                      "that never existed together (known/C10-glitch.beh)")],
}

ASSUMPTIONS = [
    "the bounds of the configurations (number of nodes, actions, values) are "
    "large enough to show a defect",
    "the harness maps specification actions to calls of the library faithfully",
]

TECHNIQUE = {
    "*": "TLA+ specification checked with TLC; its behaviours are replayed into the "
         "library and compared step by step",
}
NOTE = {
    "*": "TLC explores the specification within the bounds given in DESIGN.md; every "
         "transition (and random longer behaviours) is replayed into code compiled "
         "from the current tree",
}
NOT_APPLICABLE = {
}
