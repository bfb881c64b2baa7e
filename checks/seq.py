"""Sequential parts of the runtime: every operation sequence within a bound on the real code, compared with ideal counterparts."""
import vbuild as vb
from driver import Job, prop

E = vb.VERIF + "/enum/"
ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
_b = {}


def exe(name, harness, flags=ASAN, cc="clang", defines=(), incs=(), archive=None, libs=(), threaded=False, federated=False):
    if name not in _b:
        def b():
            arch = archive if archive is not None else vb.runtime_sources(threaded=threaded, federated=federated) + vb.glob_src("util/deque.c")
            return vb.plain(name, [E + h for h in harness] + [E + "en.cpp", E + "stubs.c"], (["LF_REACTION_GRAPH_BREADTH=1"] if threaded else ["LF_SINGLE_THREADED=1"]) + ["LOG_LEVEL=0", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10"] + list(defines),
                            vb.inc(E, vb.REPO + "/util", *incs), flags=flags, hflags=None if "-fsanitize=address,undefined" in flags else ["-O1"], cc=cc,
                            dep=[E + "en.h"], archive=arch, libs=["-lm"] + list(libs))
        _b[name] = b
    return _b[name]


CONT = exe("containers", ["containers.cpp", "hm.c"])


def case(c, build=CONT, cost=1, **env):
    return Job(c, build, "enum", env=dict(env, CASE=c), qlimit=60, tlimit=400, cost=cost)


@prop("U03")
def u03(tier):
    return [case("pqueue", cost=3), case("pqtag", cost=3)]


@prop("U04")
def u04(tier):
    return [case(c) for c in ("vector", "hashset", "hashmap", "deque", "radix")]

TAGS = exe("tags", ["tags.cpp"])
TAGV = {n: exe("tags-" + n, ["tags.cpp"], flags=f, cc=cc) for n, f, cc in
        (("gcc0", ["-O0"], "gcc"), ("gcc2", ["-O2"], "gcc"), ("gcc3", ["-O3"], "gcc"), ("clang2", ["-O2"], "clang"), ("clang3", ["-O3"], "clang"))}


@prop("U01")
def u01(tier):
    return [case("arith", TAGS)] + [Job("arith " + n, b, "enum", env={"CASE": "arith"}, qlimit=60, tlimit=400) for n, b in TAGV.items()]


@prop("U02")
def u02(tier):
    return [case("readable", TAGS), case("separators", TAGS)]

PORTS = exe("ports", ["ports.cpp", "mp.c"])


@prop("R14")
def r14(tier):
    return [case("multiport", PORTS, cost=3)]


@prop("R10")
def r10(tier):
    return [case("tokens", PORTS)]


@prop("R11")
def r11(tier):
    return [case("tokens", PORTS)]

FEDDEF = ['_LF_FEDERATE_NAMES_COMMA_SEPARATED="a,b"', "NUMBER_OF_WORKERS=1", "FEDERATED=1", "FEDERATED_CENTRALIZED=1", "NUMBER_OF_FEDERATES=2", "FEDERATE_ID=0", "LF_CLOCK_SYNC=3", "ADVANCE_MESSAGE_INTERVAL=10000000"]
RTIDEF = ["STANDALONE_RTI=1", "FEDERATED=1", "LOG_LEVEL=0"]


def rti_sources(main=False):
    return vb.glob_src("core/federated/RTI/rti_common.c", "core/federated/RTI/rti_remote.c", "core/tracepoint.c", "core/utils/util.c", "core/tag.c", "core/clock.c", "core/federated/network/net_util.c",
                       "core/utils/pqueue*.c", "low_level_platform/impl/src/lf_unix_clock_support.c", "low_level_platform/impl/src/lf_linux_support.c", "low_level_platform/impl/src/lf_atomic_gcc_clang.c",
                       "low_level_platform/impl/src/lf_platform_util.c", "platform/impl/*.c", "trace/impl/src/*.c", *(["core/federated/RTI/main.c"] if main else []))


def rti_exe(name, harness, defines=(), libs=(), flags=ASAN):
    if name not in _b:
        _b[name] = lambda: vb.plain(name, [E + h for h in harness] + [E + "en.cpp"], RTIDEF + list(defines), vb.inc(E, vb.REPO), flags=flags, cc="clang", dep=[E + "en.h"] + [E + "cli.h"], archive=rti_sources(), libs=["-lm", "-lpthread"] + list(libs))
    return _b[name]


CLI_P = exe("cli-program", ["cli.cpp", "cli_prog.c"], defines=["NUMBER_OF_WORKERS=1"])
CLI_F = exe("cli-federate", ["cli.cpp", "cli_prog.c"], defines=["CLI_FED=1"] + FEDDEF, archive=None, threaded=True, federated=True)
CLI_R = rti_exe("cli-coordinator", ["cli.cpp", "cli_rti.c"], ["CLI_RTI=1"])
CLI_A = rti_exe("cli-coordinator-auth", ["cli.cpp", "cli_rti.c"], ["CLI_RTI=1", "CLI_AUTH=1", "__RTI_AUTH__=1"], ["-lssl", "-lcrypto"])


@prop("R17")
def r17(tier):
    return [Job("%s %s" % (n, c), b, "enum", env={"CASE": c, "EN_SPLIT": 3}, qlimit=60, tlimit=400, cost=2) for n, b in (("program", CLI_P), ("federate", CLI_F), ("coordinator", CLI_R), ("coordinator with authentication", CLI_A)) for c in ("vectors", "options")]

WRAP = ["-Wl," + ",".join("--wrap=" + f for f in "read recv write send shutdown close nanosleep clock_nanosleep exit".split())]
NET = rti_exe("net", ["net.cpp", "net_glue.c"], libs=WRAP, flags=ASAN + ["-fno-sanitize=shift", "-fexceptions"])
NETF = rti_exe("netfast", ["net.cpp", "net_glue.c"], libs=WRAP, flags=["-O2", "-fexceptions"])


@prop("F12")
def f12(tier):
    return [Job(c, NETF if "address" in c else NET, "enum", env={"CASE": c, "EN_SPLIT": n}, qlimit=90, tlimit=400, cost=2) for c, n in (("encode", 4), ("socket", 4), ("peek", 1), ("address strings", 3), ("address parts", 2), ("hosts", 1))]


def coordinator(name, harness, dep=()):
    r = vb.VERIF + "/rti/"
    if name not in _b:
        _b[name] = lambda: vb.island(name, rti_sources(), [r + "glue.c"], [r + h for h in harness] + [r + "island.cpp"], RTIDEF, vb.inc(r), dep=[r + "glue.h", r + "island.h"] + list(dep))
    return _b[name]


RTI = coordinator("coordinator", ["explore.cpp"])
DELAYS = coordinator("delays", ["delays.cpp", "../enum/en.cpp"], [E + "en.h"])


def coord(name, judge, quick=True, ql=200, tl=600, cost=5, **env):
    """quick: in both tiers."""
    return Job(name, RTI, "enum", env=dict(env, JUDGE=judge, EN_SHARDS=8), qlimit=ql, tlimit=tl, cost=cost, mem_mb=16000, tiers=("quick", "thorough") if quick else ("thorough",))


def grants(judge):
    two = [("no delay", 4259909), ("after 0", 4259913), ("after 1", 4259917)]
    return [coord("2 nodes deep", judge, NODES=2, MESSAGES=3, EVENTS=2, LOCALS=2),
            coord("3 nodes", judge, NODES=3, MESSAGES=1, EVENTS=0, STOP=16),
            coord("3 nodes own events", judge, NODES=3, MESSAGES=0, EVENTS=1, STOP=16),
            coord("3 nodes few connections", judge, NODES=3, MESSAGES=2, EVENTS=0, MAXEDGES=3),
            coord("3 nodes few connections events", judge, NODES=3, MESSAGES=1, EVENTS=1, MAXEDGES=3, STOP=16),
            coord("4 nodes few connections", judge, NODES=4, MESSAGES=1, EVENTS=0, MAXEDGES=3, DELAYS=2),
            coord("3 nodes events", judge, False, NODES=3, MESSAGES=1, EVENTS=1, CAP=20000000),
            coord("3 nodes messages", judge, False, NODES=3, MESSAGES=2, EVENTS=0, LOCALS=1, MAXEDGES=4, CAP=20000000),
            coord("2 nodes deeper", judge, False, NODES=2, MESSAGES=4, EVENTS=2, LOCALS=3, STOP=48),
            ] + [coord("4 nodes two cycles " + n, judge, True, 60, 600, NODES=4, MESSAGES=1, EVENTS=0, STOP=16, ONLY=i) for n, i in two]


@prop("F01")
def f01(tier):
    return grants("S") + [coord("messages at the stop tag", "S", NODES=2, MESSAGES=1, STOPS=1, STOPSENDS=1)]


@prop("F02")
def f02(tier):
    return grants("L")


@prop("F03")
def f03(tier):
    def d(name, both=True, **env):
        return Job(name, DELAYS, "enum", env=dict(env, EN_SHARDS=8, EN_SPLIT=5), qlimit=150, tlimit=700, cost=3, tiers=("quick", "thorough") if both else ("thorough",))
    return [d("2 nodes", NODES=2, DELAYS=4), d("3 nodes", NODES=3, DELAYS=4), d("3 nodes reversed", NODES=3, DELAYS=4, REVERSED=1), d("4 nodes", NODES=4, DELAYS=3, FLAGS=0),
            d("4 nodes some not connected", False, NODES=4, DELAYS=2), d("5 nodes few connections", False, NODES=5, DELAYS=2, FLAGS=0, MAXEDGES=6)]


@prop("F05")
def f05(tier):
    return [coord("2 nodes", "PL", NODES=2, MESSAGES=2, EVENTS=2, STOPS=2), coord("3 nodes no messages", "PL", NODES=3, MESSAGES=0, EVENTS=0, STOPS=1, MAXEDGES=3),
            coord("3 nodes", "PL", NODES=3, MESSAGES=1, EVENTS=0, STOPS=1, MAXEDGES=2), coord("3 nodes two requests", "PL", NODES=3, MESSAGES=0, EVENTS=0, STOPS=2, MAXEDGES=3, DELAYS=2),
            coord("2 nodes one fails", "PL", NODES=2, MESSAGES=1, EVENTS=0, STOPS=1, LEAVES=1), coord("2 nodes one is lost", "PL", NODES=2, MESSAGES=1, EVENTS=0, STOPS=1, LEAVES=1, LEAVEKIND=1),
            coord("2 nodes deeper", "PL", False, NODES=2, MESSAGES=3, EVENTS=2, STOPS=2, LOCALS=1), coord("3 nodes all", "PL", False, NODES=3, MESSAGES=1, EVENTS=0, STOPS=1, CAP=20000000),
            coord("3 nodes one fails", "PL", False, NODES=3, MESSAGES=0, EVENTS=0, STOPS=1, LEAVES=1, MAXEDGES=3)]


@prop("F08")
def f08(tier):
    r = []
    for n, k in (("fails", 0), ("is lost", 1)):
        r += [coord("2 nodes one " + n, "SPL", NODES=2, MESSAGES=2, EVENTS=1, LEAVES=1, LEAVEKIND=k), coord("3 nodes one " + n, "SPL", NODES=3, MESSAGES=1, EVENTS=0, LEAVES=1, LEAVEKIND=k, MAXEDGES=3, DELAYS=2),
              coord("3 nodes cycle one " + n, "SPL", NODES=3, MESSAGES=1, EVENTS=0, LEAVES=1, LEAVEKIND=k, MAXEDGES=3, CYCLES=2),
              coord("3 nodes all one " + n, "SPL", False, NODES=3, MESSAGES=1, EVENTS=0, LEAVES=1, LEAVEKIND=k, CAP=20000000), coord("3 nodes two leave, first " + n, "SPL", False, NODES=3, MESSAGES=1, EVENTS=0, LEAVES=2, LEAVEKIND=k, MAXEDGES=2),
              coord("2 nodes stop one " + n, "SPL", False, NODES=2, MESSAGES=1, EVENTS=0, STOPS=1, LEAVES=1, LEAVEKIND=k)]
    return r + [coord("input of a node that left", "L", NODES=3, MESSAGES=0, EVENTS=0, LEAVES=1, GONE=1, CYCLES=3, MAXEDGES=4)]
