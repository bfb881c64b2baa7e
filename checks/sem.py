"""Counting semaphores: every small program of operations under every schedule."""
import vbuild as vb
from driver import Job, prop

S = vb.VERIF + "/sem/"
KEEP = ["lf_semaphore_" + x for x in ("new", "release", "acquire", "wait", "destroy")]


def build():
    o = vb.sut("sem", vb.runtime_sources() + [vb.VERIF + "/enum/stubs.c"], ["NUMBER_OF_WORKERS=2", "SCHEDULER=SCHED_NP", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "LOG_LEVEL=0"], vb.inc(), keep=KEEP)
    return vb.link("sem", [o], [S + "sem.cpp"])


def build_ports():
    o = vb.sut("ports", vb.runtime_sources() + [vb.VERIF + "/enum/stubs.c", vb.VERIF + "/enum/mp.c"], ["NUMBER_OF_WORKERS=1", "SCHEDULER=SCHED_NP", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "LOG_LEVEL=0"], vb.inc(),
               keep=["mp_" + x for x in "init set step present iterate workers".split()])
    return vb.link("ports", [o], [S + "ports.cpp"])


def j(name, q, t, ql=40, tl=300, cost=1, b=build, **sets):
    a = [x for k, v in sets.items() for x in ("--set", "%s=%d" % (k, v))]
    return Job(name, b, "mc", quick=["--bound", str(q)] + a, thorough=["--bound", str(t)] + a, qlimit=ql, tlimit=tl, cost=cost)


@prop("R16")
def r16(tier):
    big = [j("4 threads, 1 operation", 2, 4, threads=4, ops=1), j("3 threads, 2 operations", 1, 3, threads=3, ops=2, cost=3), j("2 threads, 3 operations", 2, 4, threads=2, ops=3, cost=3)]
    return big + [j("2 threads, 2 operations", 4, 8, threads=2, ops=2), j("3 threads, 1 operation", 4, 9, threads=3, ops=1),
                  j("2 threads, 2 operations, spurious", 3, 5, threads=2, ops=2, spurious=1)]


@prop("R14")
def r14(tier):
    return [j("parallel writers 2x2", 2, 5, b=build_ports, threads=2, ops=2, cost=2), j("parallel writers 3x1", 2, 4, b=build_ports, threads=3, ops=1, cost=2), j("parallel writers 3x2", 0, 2, b=build_ports, threads=3, ops=2, cost=2)]
