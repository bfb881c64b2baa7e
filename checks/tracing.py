"""Tracing: the recorder under every schedule, whole programs, the conversion tools."""
import glob, re
import rt
import vbuild as vb
from driver import Job, prop

D = vb.VERIF + "/trace/"
BASE = ["NUMBER_OF_WORKERS=2", "SCHEDULER=SCHED_NP", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "LOG_LEVEL=0", "LF_TRACE"]
KEEP = ["tg_" + x for x in "capacity objects init id start reg point stop".split()]


def small():
    """Directory with the trace buffer's header in which the buffer and the object table are small."""
    def b(d):
        t = open(vb.REPO + "/trace/impl/include/trace_impl.h").read()
        t = re.sub(r"(#define\s+TRACE_BUFFER_CAPACITY\s+)\d+", r"\g<1>4", t)
        t = re.sub(r"(#define\s+TRACE_OBJECT_TABLE_SIZE\s+)\d+", r"\g<1>40", t)
        open(d + "/trace_impl.h", "w").write(t)
    return vb.cached("trace-inc", vb.fhash(vb.tree_hash(), "v1"), b)


def build_api(full=False):
    inc = vb.inc() if full else [small()] + vb.inc()
    o = vb.sut("trace", vb.runtime_sources(trace=True) + [vb.VERIF + "/enum/stubs.c", D + "glue.c"], BASE, inc, keep=KEEP)
    return vb.link("trace", [o], [D + "api.cpp"], incs=[D], dep=[D + "lftread.h"])


_builds = {}


def build_prog(cfg):
    """A whole program with tracing."""
    def b():
        defs = rt.CFG[cfg] + ["INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "LOG_LEVEL=2", "LF_TRACE"]
        o = vb.sut("lft-" + cfg, vb.runtime_sources(trace=True, threaded="LF_SINGLE_THREADED=1" not in defs) + [rt.H + "lfgen.c"], defs, [small()] + vb.inc(rt.H),
                   keep=["lf_gen_main"], flags=["-Wno-incompatible-pointer-types"], extra_dep=vb.hfile(rt.H + "lfspec.h"))
        return vb.link("lft-" + cfg, [o], [rt.H + "lfh.cpp", rt.H + "lfref.cpp", rt.H + "lfspec.cpp"] + sorted(glob.glob(rt.H + "scen_*.cpp")), defines=["TRACED"], incs=[rt.H],
                       dep=sorted(glob.glob(rt.H + "*.h") + glob.glob(D + "*")))
    return _builds.setdefault(cfg, b)


def p(cfgs, scens, q=1, t=2, sets=(), ql=15, tl=100, cost=1, tag=""):
    out = []
    for c in cfgs.split():
        for s in scens.split():
            a = [x for kv in sets for x in ("--set", kv)]
            out.append(Job("%s/%s%s" % (c, s, "/" + tag if tag else ""), build_prog(c), env={"SCEN": s}, quick=["--bound", str(q)] + a, thorough=["--bound", str(t)] + a, qlimit=ql, tlimit=tl, cost=cost))
    return out


def j(name, q, t, ql=40, tl=300, cost=1, full=False, **sets):
    a = [x for k, v in sets.items() for x in ("--set", "%s=%d" % (k, v))]
    return Job(name, lambda: build_api(full), "mc", quick=["--bound", str(q)] + a, thorough=["--bound", str(t)] + a, qlimit=ql, tlimit=tl, cost=cost)


def _tools():
    return vb.plain("lftcsv", [D + "tools.cpp", vb.VERIF + "/enum/en.cpp"] + [vb.REPO + "/util/tracing/" + f for f in ("trace_to_csv.c", "trace_util.c")], ["LF_SINGLE_THREADED=1"], vb.inc(vb.REPO + "/util/tracing"),
                    flags=["-O1", "-fsanitize=address", "-fwrapv", "-fno-omit-frame-pointer", "-Dmain=tool_main"], hflags=["-O1", "-fsanitize=address"], cc="clang", dep=[vb.VERIF + "/enum/en.h", D + "lftread.h"])


def tool(case, **env):
    return Job("csv " + case, _tools, "enum", env=dict(env, CASE=case, ASAN_OPTIONS="detect_leaks=0"), qlimit=100, tlimit=600, cost=2)


@prop("U05")
def u05(tier):
    return ([j("recorder/2 threads 2 records", 1, 2, cost=4, ql=60, threads=2, ops=2), j("recorder/1 thread 2 records", 2, 3, cost=2, threads=1, ops=2),
             j("recorder/2 threads 1 record", 1, 2, cost=2, threads=2, ops=1), j("recorder/full capacity", 0, 1, full=True, cost=3, threads=1, ops=1)] +
            [tool("seqs", EN_SPLIT=2), tool("types", EN_SPLIT=2), tool("window", EN_SPLIT=1), tool("blocks", EN_SPLIT=2)] +
            p("st np gedf adp", "timers actions diamond chain wide feedback presence deadline", 1, 2) +
            p("np gedf adp", "async1 async2 stop_async stop_parallel stop_reaction barrier_message", 1, 2) + p("st np", "topo gen_micro", 0, 1, ql=30) +
            p("modal modalst", "modes_ports modes_pending modes_self modes_stop", 1, 2) + p("wd wdadp", "wd_again wd_action wd_busy wd_end", 1, 2) + p("wd2", "wd_two wd_pair", 1, 2))
