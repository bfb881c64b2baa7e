import sys, os, subprocess, json, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vbuild as vb
o = vb.sut("selftest", [vb.VERIF + "/selftest/t1.c"], [], [])
e = vb.link("selftest", [o], [vb.VERIF + "/selftest/h1.c"])
def run(prog, *a):
    st = tempfile.mktemp(dir=vb.BUILD)
    r = subprocess.run([e, "--stats", st] + list(a), env=dict(os.environ, PROG=prog), capture_output=True, text=True)
    js = json.load(open(st)); os.unlink(st)
    return r.returncode, r.stdout.strip(), js
bad = 0
def expect(prog, rc, outcomes, *a):
    global bad
    r = run(prog, *a)
    ok = r[0] == rc and (outcomes is None or set(r[2]["counters"]) == set(outcomes))
    print("%s %-8s %-18s rc=%d execs=%d pruned=%d outcomes=%s %s" % ("ok " if ok else "BAD", prog, " ".join(a), r[0], r[2]["executions"], r[2]["pruned"], sorted(r[2]["counters"]), r[1][:140] if r[0] else ""))
    if not ok: bad = 1
for extra in ([], ["--nocache"]):
    expect("race", 0, ["code1", "code2"], "--bound", "2", *extra)
    expect("race", 0, ["code2"], "--bound", "0", *extra)
    expect("locked", 0, ["code3"], "--bound", "2", *extra)
    expect("dead", 1, None, "--bound", "1", *extra)
    expect("pc", 0, ["code2"], "--bound", "2", *extra)
    expect("lost", 1, None, "--bound", "1", *extra)
    expect("sb", 0, ["code1", "code2", "code3"], "--bound", "2", *extra)
    expect("tw", 0, ["code1", "code2"], "--bound", "2", *extra)
    expect("rmw3", 0, ["code1", "code2", "code3"], "--bound", "2", *extra)
    expect("rmw3", 0, ["code1", "code2", "code3"], "--bound", "3", *extra)
for p in ("uaf", "oob", "df", "leak"):
    expect(p, 1, None, "--bound", "0")
expect("pc", 0, ["code2"], "--bound", "2", "--det")
sys.exit(bad)
