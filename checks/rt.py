"""Checks of the runtime of one program: scenarios executed on the real runtime under the controlled scheduler."""
import glob
import vbuild as vb
from driver import Job, prop

H = vb.VERIF + "/lf/"
CFG = {
    "st": ["LF_SINGLE_THREADED=1"],
    "np": ["NUMBER_OF_WORKERS=2", "SCHEDULER=SCHED_NP"],
    "gedf": ["NUMBER_OF_WORKERS=2", "SCHEDULER=SCHED_GEDF_NP"],
    "adp": ["NUMBER_OF_WORKERS=2", "SCHEDULER=SCHED_ADAPTIVE"],
    "modal": ["NUMBER_OF_WORKERS=2", "SCHEDULER=SCHED_NP", "MODAL_REACTORS"],
    "modalst": ["LF_SINGLE_THREADED=1", "MODAL_REACTORS"],
    "modalgedf": ["NUMBER_OF_WORKERS=2", "SCHEDULER=SCHED_GEDF_NP", "MODAL_REACTORS"],
    "wd": ["NUMBER_OF_WORKERS=2", "SCHEDULER=SCHED_NP", "NUMBER_OF_WATCHDOGS=1"],
    "wd2": ["NUMBER_OF_WORKERS=2", "SCHEDULER=SCHED_NP", "NUMBER_OF_WATCHDOGS=2"],
    "wdgedf": ["NUMBER_OF_WORKERS=2", "SCHEDULER=SCHED_GEDF_NP", "NUMBER_OF_WATCHDOGS=1"],
    "wdadp": ["NUMBER_OF_WORKERS=2", "SCHEDULER=SCHED_ADAPTIVE", "NUMBER_OF_WATCHDOGS=1"],
    "wdmodal": ["NUMBER_OF_WORKERS=2", "SCHEDULER=SCHED_NP", "NUMBER_OF_WATCHDOGS=1", "MODAL_REACTORS"],
}
_builds = {}


def build(cfg):
    if cfg in _builds:
        return _builds[cfg]
    defs = CFG[cfg]

    def b():
        o = vb.sut("lf-" + cfg, vb.runtime_sources(threaded="LF_SINGLE_THREADED=1" not in defs) + [H + "lfgen.c"],
                   defs + ["INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "LOG_LEVEL=2"], vb.inc(H), keep=["lf_gen_main"],
                   flags=["-Wno-incompatible-pointer-types"], extra_dep=vb.hfile(H + "lfspec.h"))
        return vb.link("lf-" + cfg, [o], [H + "lfh.cpp", H + "lfref.cpp", H + "lfspec.cpp"] + sorted(glob.glob(H + "scen_*.cpp")), incs=[H],
                       dep=sorted(glob.glob(H + "*.h")))
    _builds[cfg] = b
    return b


def jobs(cfgs, scens, q=2, t=3, sets=(), qlimit=12, tlimit=60, tag="", extra=(), cost=1, tiers=("quick", "thorough")):
    out = []
    for c in cfgs.split():
        for s in scens.split():
            a = []
            for kv in sets:
                a += ["--set", kv]
            out.append(Job("%s/%s%s" % (c, s, "/" + tag if tag else ""), build(c), env={"SCEN": s}, quick=["--bound", str(q)] + a + list(extra),
                           thorough=["--bound", str(t)] + a + list(extra), qlimit=qlimit, tlimit=tlimit, cost=cost, tiers=tiers))
    return out


ALL = "st np gedf adp"
THR = "np gedf adp"
SEQ = "timers timers2 diamond actions actions2 chain fan feedback presence passthrough wide levelgap deadlines_order"
STOP = "starve0 starve1 timeout0 timeout_edge timeout_gap timeout_keepalive stop_reaction stop_parallel stop_start stop_timeout"
ASYNC = "async1 async_timer async2 async_idle async_end"
ASTOP = "stop_async stop_idle stop_two"
DL = "deadline deadline2 deadline_chain deadlines_order"
BAR = "barrier1 barrier2 barrier_message barrier_messages barrier_stop"


@prop("R01")
def r01(tier):
    return (jobs(ALL, SEQ + " timeout_edge timeout_gap", q=2, t=3) + jobs(THR, "topo", q=1, t=3, cost=5, tlimit=120) +
            jobs("st", "gen_time gen_micro", q=0, t=0, cost=4, tlimit=120) + jobs("np", "gen_micro", q=0, t=1, cost=4, tlimit=200) +
            jobs("np gedf adp", "gen_time", q=0, t=1, cost=5, tlimit=200))


@prop("R02")
def r02(tier):
    return (jobs(ALL, SEQ, q=2, t=4) + jobs(THR, "topo", q=1, t=3, cost=5, tlimit=120) +
            jobs(THR, "gen_flow gen_multi", q=1, t=2, cost=5, tlimit=200) + jobs("st", "gen_flow gen_multi topo", q=0, t=0) +
            jobs(THR, "wide diamond fan levelgap", q=1, t=3, sets=["workers=3"], tag="w3", cost=3, tlimit=200) +
            jobs(THR, "wide diamond fan levelgap topo", q=1, t=2, sets=["workers=1"], tag="w1") +
            jobs(THR, "wide", q=1, t=2, sets=["workers=4"], tag="w4", cost=3, tlimit=200))


@prop("R03")
def r03(tier):
    s = "diamond fan chain wide levelgap deadlines_order presence feedback"
    return (jobs(THR, s, q=2, t=4, tlimit=120) + jobs(THR, "topo", q=2, t=3, cost=9, tlimit=240) + jobs(THR, "gen_flow", q=1, t=2, cost=5, tlimit=200) +
            jobs(THR, s, q=1, t=3, sets=["workers=3"], tag="w3", cost=3, tlimit=200))


@prop("R04")
def r04(tier):
    return (jobs(ALL, "presence passthrough feedback diamond actions actions2 wide", q=2, t=4, tlimit=120) + jobs("st", "gen_multi gen_flow gen_micro gen_many", q=0, t=0) +
            jobs(THR, "gen_multi gen_flow", q=1, t=2, cost=5, tlimit=200) + jobs(THR, "gen_many", q=0, t=1, cost=3, tlimit=200) + jobs(THR, "presence passthrough feedback wide", q=1, t=3, sets=["workers=3"], tag="w3", cost=2, tlimit=200))


@prop("R05")
def r05(tier):
    return (jobs("st", "gen_spacing3 gen_micro gen_time", q=0, t=0, cost=4, tlimit=100) + jobs("st", "gen_spacing4", q=0, t=0, cost=8, tlimit=100) +
            jobs("np", "gen_spacing3 gen_micro", q=0, t=1, cost=8, tlimit=300) + jobs(THR, "actions actions2", q=2, t=3) + jobs(ALL, "phys_reaction", q=2, t=3))


@prop("R06")
def r06(tier):
    return (jobs(THR, ASYNC, q=3, t=4, tlimit=300, cost=3) + jobs(ALL, "phys_reaction", q=3, t=4) +
            jobs(THR, ASYNC + " phys_reaction", q=2, t=3, sets=["time_dev=0"], tag="td0", cost=2) +
            jobs(THR, ASYNC + " phys_reaction", q=2, t=3, sets=["tick=1000"], tag="tick", cost=2) +
            jobs("np", ASYNC, q=1, t=3, sets=["spurious=1"], tag="spurious", cost=2) + jobs("np", ASYNC, q=1, t=2, sets=["workers=1"], tag="w1"))


@prop("R07")
def r07(tier):
    s = "timers timers2 actions actions2 chain timeout_gap waits lagging fast async_timer"
    return (jobs(THR, s, q=3, t=4, sets=["time_dev=0"], tag="td0") + jobs(THR, s, q=2, t=3) + jobs(THR, s, q=2, t=3, sets=["time_dev=0", "spurious=1"], tag="spurious") +
            jobs("st", "timers timers2 actions actions2 chain timeout_gap waits lagging fast", q=2, t=3, sets=["time_dev=0"], tag="td0") +
            jobs(ALL, "gen_time", q=0, t=0, sets=["time_dev=0"], tag="td0", cost=5, tlimit=200) + jobs(THR, s, q=1, t=3, sets=["tick=1000"], tag="tick"))


@prop("R08")
def r08(tier):
    return (jobs(ALL, STOP, q=3, t=4, tlimit=200) + jobs(THR, ASTOP, q=3, t=4, cost=3, tlimit=300) + jobs(ALL, "gen_time", q=0, t=0, cost=3) +
            jobs(THR, STOP + " " + ASTOP, q=1, t=3, sets=["workers=3"], tag="w3", cost=2, tlimit=200) +
            jobs("np", ASTOP, q=1, t=3, sets=["spurious=1"], tag="spurious"))


@prop("R09")
def r09(tier):
    return jobs(ALL, DL, q=3, t=4, tlimit=200) + jobs(ALL, "gen_deadline", q=1, t=2, cost=5, tlimit=300) + jobs(THR, DL, q=2, t=3, sets=["time_dev=0"], tag="td0")


@prop("R15")
def r15(tier):
    s = "wide levelgap fan diamond deadlines_order"
    return (jobs(THR, s + " topo", q=2, t=4, cost=6, tlimit=300) + jobs(THR, s, q=1, t=3, sets=["workers=3"], tag="w3", cost=4, tlimit=200) +
            jobs(THR, s, q=1, t=2, sets=["workers=4"], tag="w4", cost=3, tlimit=200) + jobs(THR, s, q=2, t=2, sets=["workers=1"], tag="w1") +
            jobs(THR, s, q=1, t=3, sets=["spurious=1"], tag="spurious", tlimit=120) + jobs(THR, "stop_parallel stop_reaction starve1", q=2, t=3))


@prop("R18")
def r18(tier):
    return (jobs(THR, BAR, q=2, t=3, cost=3, tlimit=300) + jobs(THR, BAR, q=1, t=2, sets=["spurious=1"], tag="spurious", tlimit=100) +
            jobs(THR, ASTOP, q=2, t=4, tlimit=200) + jobs("np", BAR, q=1, t=2, sets=["workers=1"], tag="w1"))


MODES = "gen_modes gen_nested modes_ports modes_pending modes_self modes_stop"


@prop("R12")
def r12(tier):
    return (jobs("modalst", MODES, q=0, t=0, tlimit=120) + jobs("modal modalgedf", "gen_modes gen_nested", q=1, t=2, cost=7, qlimit=40, tlimit=300) +
            jobs("modal modalgedf", "modes_ports modes_pending modes_self modes_stop", q=2, t=3, cost=3, qlimit=30, tlimit=200) +
            jobs("modal", "modes_ports modes_pending modes_self modes_stop", q=1, t=2, sets=["workers=3"], tag="w3", tlimit=200))


WDS = "wd_again wd_action wd_busy wd_end wd_unused wd_stop"


@prop("R13")
def r13(tier):
    return (jobs("wd", "gen_wd", q=1, t=2, cost=6, qlimit=40, tlimit=300) + jobs("wd wdgedf wdadp", WDS, q=2, t=3, cost=2, tlimit=200) +
            jobs("wd wdadp", "gen_wd", q=0, t=1, sets=["time_dev=0"], tag="td0", cost=3, qlimit=40, tlimit=200) +
            jobs("wd", WDS, q=2, t=3, sets=["time_dev=0"], tag="td0", tlimit=100) + jobs("wd", WDS, q=1, t=2, sets=["spurious=1"], tag="spurious", tlimit=100) +
            jobs("wd2", "wd_pair wd_two", q=1, t=3, cost=3, tlimit=300) + jobs("wd2", "wd_pair wd_two", q=2, t=3, sets=["time_dev=0"], tag="td0", cost=3, tlimit=300))


TOK = "gen_token gen_token_fan gen_token_loop gen_token_action gen_token_policy"


@prop("R10")
def r10(tier):
    return (jobs("st", TOK, q=0, t=0) + jobs(THR, "gen_token_fan gen_token_loop", q=2, t=3, cost=4, qlimit=30, tlimit=300) + jobs(THR, "gen_token gen_token_action gen_token_policy", q=1, t=2, cost=6, qlimit=40, tlimit=300) +
            jobs("np", "gen_token gen_token_fan", q=1, t=2, sets=["workers=3", "consumers=2"], tag="w3", cost=4, qlimit=30, tlimit=300) + jobs("st", "gen_token", q=0, t=0, sets=["consumers=3"], tag="c3") +
            jobs(ALL, "gen_spacing3", q=0, t=0, cost=3))


@prop("R11")
def r11(tier):
    return (jobs("st", "gen_token gen_token_fan gen_token_loop", q=0, t=0) + jobs("st", "gen_token", q=0, t=0, sets=["consumers=3"], tag="c3") +
            jobs(THR, "gen_token_fan gen_token_loop", q=2, t=3, cost=4, qlimit=30, tlimit=300) + jobs(THR, "gen_token", q=1, t=2, cost=6, qlimit=40, tlimit=300))


@prop("R17")
def r17(tier):
    return jobs(ALL, "cli_effect cli_reject", q=0, t=1)
