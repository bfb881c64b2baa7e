#!/usr/bin/env python3
"""mkpatch.py ID [FILE]...: reads from stdin edits 'file\n<<<<\nold\n====\nnew\n>>>>' and writes seeded/ID/patch.diff against /repo's HEAD."""
import sys, subprocess, os, re, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
w = tempfile.mkdtemp()
subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (w, w), shell=True)
for m in re.finditer(r"^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$", sys.stdin.read(), re.S | re.M):
    f, old, new = m.groups()
    s = open(w + "/" + f).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(w + "/" + f, "w").write(s.replace(old, new))
os.makedirs(V + "/seeded/" + sid, exist_ok=True)
d = subprocess.check_output(["git", "-C", w, "diff"]).decode()
open(V + "/seeded/%s/patch.diff" % sid, "w").write(d)
shutil.rmtree(w)
print(len(d.splitlines()), "lines")
