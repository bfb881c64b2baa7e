"""Federations: the real coordinator and real federates as processes of one controlled execution."""
import glob, os
import vbuild as vb
from driver import Job, prop
from rt import CFG
from seq import RTIDEF, rti_sources

H = vb.VERIF + "/lf/"
BASE = ['_LF_FEDERATE_NAMES_COMMA_SEPARATED="a,b,c"', "FEDERATED=1", "NUMBER_OF_FEDERATES=3", "FEDERATE_ID=0", "ADVANCE_MESSAGE_INTERVAL=10000000", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "LOG_LEVEL=2"]
KIND = {"c": ["FEDERATED_CENTRALIZED=1"], "d": ["FEDERATED_DECENTRALIZED=1"], "a": ["FEDERATED_CENTRALIZED=1", "FEDERATED_AUTHENTICATED=1"],
        "i": ["FEDERATED_CENTRALIZED=1", "LF_CLOCK_SYNC=2"], "o": ["FEDERATED_CENTRALIZED=1", "LF_CLOCK_SYNC=3", "_LF_CLOCK_SYNC_EXCHANGES_PER_INTERVAL=2"], "e": ["FEDERATED_DECENTRALIZED=1", "LF_CLOCK_SYNC=2"],
        "j": ["FEDERATED_CENTRALIZED=1", "LF_CLOCK_SYNC=2", "_LF_CLOCK_SYNC_EXCHANGES_PER_INTERVAL=2"]}
_b = {}


def build(kind, sched="np"):
    key = kind + sched
    if key in _b:
        return _b[key]

    def fed(kind):
        return vb.sut("fed-" + kind + sched, vb.runtime_sources(federated=True) + [H + "lfgen.c"], BASE + ([] if kind in "ioej" else ["LF_CLOCK_SYNC=1"]) + KIND[kind] + CFG[sched], vb.inc(H), keep=["lf_gen_main"], flags=["-Wno-incompatible-pointer-types"],
                      extra_dep=vb.hfile(H + "lfspec.h", H + "lfgen_fed.inc"))

    def b():
        # m: the federates are built with clock synchronization on, initial and off
        copies = [vb.renamed(fed("ojc"[i] if kind == "m" else kind), "lf_gen_main", "lf_gen_main_%d" % i) for i in range(3)]
        auth = kind == "a"
        r = vb.sut("fed-rti-auth" if auth else "fed-rti", rti_sources(main=True), ["STANDALONE_RTI=1", "FEDERATED=1", "LOG_LEVEL=2"] + (["__RTI_AUTH__=1"] if auth else []), vb.inc(vb.REPO), keep=["rti_main"], drop_main="rti_main")
        v = vb.sut("fed-visit", [H + "fvisit.c"], [], vb.inc(H), keep=["visit_main"], extra_dep=vb.hfile(H + "fvisit.h"))
        return vb.link("fed-" + key, copies + [r, v], [H + h for h in ("fedh.cpp", "lfh.cpp", "lfref.cpp", "lfspec.cpp")] + sorted(glob.glob(H + "fscen_*.cpp")), defines=["FED=1"] + (["DECENTRALIZED=1"] if kind in "de" else ["AUTH=1"] if auth else []), incs=[H],
                       dep=sorted(glob.glob(H + "*.h") + glob.glob(H + "*.inc")), libs=["-lcrypto"] if auth else [])
    _b[key] = b
    return b


def jobs(kind, scens, sched="np", q=1, t=2, sets=(), qlimit=60, tlimit=200, tag="", cost=2, tiers=("quick", "thorough")):
    a = [x for kv in sets for x in ("--set", kv)]
    return [Job("%s%s/%s%s" % ({"c": "centralized", "d": "decentralized", "a": "authenticated", "i": "initial clock sync", "o": "clock sync", "e": "initial clock sync, decentralized", "m": "mixed clock sync"}[kind], "" if sched == "np" else " " + sched, s, "/" + tag if tag else ""), build(kind, sched), env={"SCEN": s},
                quick=["--bound", str(q)] + a, thorough=["--bound", str(t)] + a, qlimit=qlimit, tlimit=tlimit, cost=cost, tiers=tiers) for s in scens.split()]


PLAIN = "two two_after0 two_after two_local two_micro two_lines chain3 chain3_after diamond3 join3 fork3 loop_after loop_after0 loop3_after apart physical_source physical_sink physical_link physical_link_after slow_source start_message"
CYCLE = "zdc_ring zdc_ring_some zdc_exchange zdc_micro zdc_twice zdc_three zdc_outside zdc_mixed"
STOP = "stop_sender stop_receiver stop_both stop_apart stop_loop stop_zdc stop_three stop_outside stop_timeout"
BYTES = "bytes_small bytes_edge bytes_large bytes_physical bytes_two"


def variants(scens, few, two):
    """every scenario; a few with other timing, spurious wake-ups and schedulers; two: deeper in the quick tier"""
    r = jobs("c", scens)
    r += jobs("c", few, sets=["spurious=1"], tag="spurious")
    for k in (1, 2, 3):
        r += jobs("c", few, sets=["slow=%d" % k], tag="process %d slow" % k)
    r += jobs("c", few, sets=["latency=1000000"], tag="latency 1 ms") + jobs("c", few, sets=["latency=7000000"], tag="latency 7 ms")
    r += jobs("c", few, "gedf") + jobs("c", few, "adp")
    r += jobs("c", two, q=2, t=2, qlimit=150, tlimit=150, tag="deeper", tiers=("quick",))
    return r


@prop("F04")
def f04(tier):
    return variants(PLAIN, "two two_local chain3_after diamond3 loop_after loop3_after start_message", "two_after loop_after0 apart")


@prop("F13")
def f13(tier):
    return variants(CYCLE, "zdc_ring zdc_ring_some zdc_exchange zdc_twice zdc_three zdc_mixed", "zdc_ring")


@prop("F05")
def f05f(tier):
    return variants(STOP, "stop_both stop_loop stop_zdc stop_outside", "stop_apart")


@prop("F07")
def f07(tier):
    r = []
    for io in ("short_io", "eintr_io"):
        r += jobs("c", BYTES, sets=[io + "=1"], tag=io, q=1, t=2)
    r += jobs("c", BYTES) + jobs("c", "bytes_huge", sets=["short_io=1"], q=1, t=1, tag="short_io", qlimit=100) + jobs("c", "bytes_edge bytes_two", sets=["latency=1000000"], tag="latency 1 ms")
    return r


@prop("F08")
def f08f(tier):
    """one federate is lost (the process ends, its connections close) at any point of the execution"""
    three = "chain3 chain3_after diamond3 join3 fork3 loop3_after zdc_three zdc_outside stop_three stop_outside"
    r = []
    for k in (2, 3, 4):
        r += jobs("c", three if k == 4 else three + " two two_after0 two_after two_local two_micro two_lines loop_after apart physical_source physical_sink physical_link physical_link_after zdc_ring zdc_ring_some zdc_exchange zdc_twice zdc_mixed "
                  "stop_sender stop_receiver stop_both stop_apart stop_loop stop_zdc bytes_small bytes_one", sets=["kill=%d" % k], tag="federate %d lost" % (k - 2))
    r += jobs("c", "two two_after stop_both zdc_exchange", sets=["kill=2", "latency=1000000"], tag="federate 0 lost, latency 1 ms") + jobs("c", "two stop_both zdc_ring", "gedf", sets=["kill=3"], tag="federate 1 lost")
    r += jobs("c", "two stop_both", sets=["kill=2", "slow=3"], tag="federate 0 lost, other slow")
    return r


JOINS = [("together", []), ("coordinator late", ["at0=700"]), ("federate 0 late", ["at1=3000"]), ("federate 1 late", ["at2=3000"]), ("federate 2 late", ["at3=3000"]), ("all at other times", ["at0=200", "at1=1500", "at2=100"]),
         ("one after the other", ["at1=100", "at2=1300", "at3=2700"])]


@prop("F06")
def f06(tier):
    r = []
    for n, a in JOINS:
        for k in "cd":
            r += jobs(k, "apart chain3 physical_link", sets=["loud=1"] + a, q=1, t=2, tag="joining " + n)
    r += jobs("c", "apart two", sets=["loud=1"], q=2, t=3, tag="joining together, deeper", qlimit=120) + jobs("c", "apart", sets=["loud=1", "spurious=1"], q=1, t=2, tag="joining together, spurious")
    # clocks that differ: the first to propose a start time may propose the latest
    for n, a in (("differ by ms", ["skew1=5000000", "skew2=-7000000"]), ("differ by ms, reversed", ["skew1=-5000000", "skew2=7000000", "skew3=6000000"]), ("differ by s", ["skew1=3000000000", "skew2=1", "skew3=-2000000000"])):
        for k in "cd":
            r += jobs(k, "apart chain3 physical_link", sets=["loud=1"] + a, q=1, t=2, tag="clocks " + n)
    r += jobs("c", "apart", sets=["loud=1", "skew1=5000000", "at2=50"], q=2, t=3, tag="clocks differ, deeper")
    # every malformed request once; a selection of them with other schedules
    V = [("c", "two chain3", "before", ["visit=1"]), ("c", "two", "while joining", ["visit=1", "vat=100", "at1=100", "at2=100"]), ("c", "two chain3", "after federate 0", ["visit=2", "vat=50", "at2=100", "at3=100"]), ("c", "two chain3", "after the start", ["visit=3", "vat=1002"]),
         ("c", "physical_link", "at a peer", ["visit=4", "vat=50", "at1=100"]), ("d", "two", "at a peer", ["visit=4", "vat=50", "at1=100"]), ("d", "join3", "at a peer, another connected", ["visit=5", "vfed=2", "vat=400", "at2=600"])]
    for k, sc, n, a in V:
        r += jobs(k, sc, sets=["loud=1"] + a, q=0, t=0, tag="visitor " + n)
        r += jobs(k, sc.split()[0], sets=["loud=1", "vstep=61", "vlo=1"] + a, q=1, t=1, tag="visitor %s, schedules" % n)
        r += jobs(k, sc.split()[0], sets=["loud=1", "visits=2"] + a, q=0, t=0, tag="two visitors " + n, tiers=("thorough",))
    return r


@prop("F09")
def f09(tier):
    r = jobs("a", "apart two chain3", sets=["loud=1"], q=1, t=2, tag="honest") + jobs("a", "stop_both zdc_ring", q=1, t=2, tag="honest") + jobs("a", "two", sets=["loud=1", "eintr_io=1"], tag="honest, eintr_io") + jobs("a", "two", sets=["loud=1", "short_io=1"], tag="honest, short_io")
    V = [("two chain3", "before the federates", ["visit=6"]), ("two", "before the federates, these late", ["visit=6", "at1=50", "at2=50"]), ("two chain3", "between the federates", ["visit=6", "vat=50", "at2=100", "at3=100"]), ("two chain3", "after the start", ["visit=6", "vat=1002"]), ("two", "as the coordinator", ["visit=7"])]
    for sc, n, a in V:
        r += jobs("a", sc, sets=["loud=1"] + a, q=0, t=0, tag="attacks " + n)
        r += jobs("a", "two", sets=["loud=1", "zero=1"] + a, q=0, t=0, tag="attacks %s, codes that begin with zero" % n)
        r += jobs("a", "two", sets=["loud=1", "vstep=40"] + a, q=1, t=1, tag="attacks %s, schedules" % n)
        r += jobs("a", "two", sets=["loud=1", "vstep=5", "vlo=3"] + a, q=1, t=1, tag="more attacks %s, schedules" % n, tiers=("thorough",), tlimit=300)
        r += jobs("a", "two", sets=["loud=1", "short_io=1", "vstep=40", "vlo=2"] + a, q=1, t=1, tag="attacks %s, short_io" % n)
    return r


LATE = "sta_enough sta_short sta_after late late_idle late_after late_after0 staa_enough staa_short staa_sta staa_ports staa_beside late_micro late_busy late_pile late_meets late_meets_deep late_relay late_handled late_handled3 late_then_prompt late_join late_end late_ring late_bytes"


@prop("F10")
def f10(tier):
    few = "sta_after late_after staa_ports late_micro late_meets late_ring"
    r = []
    for n, a in (("", []), ("exact clock", ["time_dev=0"]), ("slow sender", ["slow=2"]), ("slow sender, exact clock", ["slow=2", "time_dev=0"])):
        r += jobs("d", LATE, sets=a, tag=n)
    r += jobs("d", few, sets=["slow=2", "spurious=1"], tag="slow sender, spurious") + jobs("d", few, "gedf", sets=["slow=2"], tag="slow sender") + jobs("d", few, "adp", sets=["slow=2"], tag="slow sender")
    r += jobs("d", "staa_busy staa_beside", "gedf") + jobs("d", "staa_beside staa_busy", "adp") + jobs("d", "staa_busy", tiers=("thorough",))
    r += jobs("d", few, sets=["slow=2", "slow_latency=7000000"], tag="slower sender") + jobs("d", few, sets=["slow=2", "slow_latency=7000000", "time_dev=0"], tag="slower sender, exact clock")
    r += jobs("d", "two two_after0 two_after two_local two_micro two_lines chain3 join3 fork3 loop_after loop_after0 apart physical_source physical_sink physical_link slow_source zdc_ring zdc_ring_some zdc_exchange zdc_twice stop_sender stop_receiver stop_both stop_loop stop_zdc stop_outside")
    r += jobs("d", "late_after late_idle", sets=["slow=2"], q=2, t=2, qlimit=100, tag="slow sender, deeper", tiers=("quick",))
    return r


@prop("F11")
def f11(tier):
    """clocks that differ; every write may be delayed, every datagram lost (sched=0: no other alternatives); schedules"""
    A = ["sync=1", "time_dev=0", "loud=1"]
    C = ["sync=2", "exchanges=2", "time_dev=0", "loud=1"]
    SK = [("equal clocks", []), ("clocks differ by ms", ["skew1=5000000", "skew2=-7000000"]), ("clocks differ by s", ["skew1=-3000000000", "skew2=1", "skew3=2000000000"])]
    r = []
    for n, sk in SK:
        for lat in (0, 1, 200000, 1000000):
            r += jobs("i", "clock_two clock_after clock_three two stop_both", sets=A + sk + ["latency=%d" % lat], q=0, t=1, tag="%s, latency %d" % (n, lat), qlimit=20)
            r += jobs("o", "clock_two clock_long clock_long_apart", sets=C + sk + ["latency=%d" % lat], q=0, t=1, tag="%s, latency %d" % (n, lat), qlimit=20)
        r += jobs("i", "clock_two clock_three clock_parallel", sets=A + sk, q=1, t=2, tag=n + ", schedules")
        r += jobs("i", "clock_two", sets=A + sk + ["short_io=1", "latency=200000"], q=1, t=2, tag=n + ", short_io")
        r += jobs("e", "clock_two clock_after", sets=A + sk + ["latency=200000"], q=1, t=2, tag=n + ", schedules")
        r += jobs("o", "clock_two", sets=C + sk + ["latency=200000"], q=1, t=2, tag=n + ", schedules")
        for d in (40000, 150000):
            r += jobs("i", "clock_two clock_three", sets=A + sk + ["latency=200000", "sched=0", "lat_dev=%d" % d], q=2, t=3 if d == 40000 else 2, tag="%s, messages delayed by %d" % (n, d))
            r += jobs("o", "clock_long_apart", sets=C + sk + ["latency=200000", "sched=0", "lat_dev=%d" % d], q=1, t=2, tag="%s, messages delayed by %d" % (n, d), tlimit=150)
    r += jobs("i", "clock_two", sets=A + ["slow=2", "slow_latency=16000", "skew1=3000000"], q=1, t=2, tag="slow federate") + jobs("i", "clock_two", sets=A + ["slow=1", "slow_latency=16000", "skew1=3000000"], q=1, t=2, tag="slow coordinator")
    for n, st in (("forward", ["step1=1000000"]), ("backward", ["step1=-2000000"])):
        S = C + st + ["stepat1=1700000000", "skew2=4000000"]
        for lat in (0, 500000):
            r += jobs("o", "clock_long clock_long_apart", sets=S + ["latency=%d" % lat], q=0, t=1, tag="a clock is set %s, latency %d" % (n, lat), qlimit=20)
            r += jobs("o", "clock_long_apart", sets=S + ["latency=%d" % lat, "sched=0", "udp_loss=1"], q=1, t=1, tag="a clock is set %s, latency %d, losses" % (n, lat))
        r += jobs("m", "clock_mixed", sets=S, q=0, t=1, tag="a clock is set " + n) + jobs("o", "clock_longer", sets=S + ["latency=200000", "sched=0", "udp_loss=1"], q=1, t=2, tag="a clock is set %s, losses" % n)
        r += jobs("o", "clock_long_apart", sets=S + ["latency=200000", "sched=0", "lat_dev=150000"], q=1, t=1, tag="a clock is set %s, messages delayed" % n)
    return r
