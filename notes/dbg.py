#!/usr/bin/env python3
"""Development aid: build one job, run cbmc with unwinding messages, summarise."""
import sys, os, tempfile, subprocess, collections, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
sys.dont_write_bytecode = True
import vfcheck, registry
name = sys.argv[1]; limit = int(sys.argv[2]) if len(sys.argv) > 2 else 60
j = [x for x in registry.JOBS if x["name"] == name][0]
jj = dict(vfcheck.DEFAULTS); jj.update(j)
sc = tempfile.mkdtemp(prefix="dbg.")
b = vfcheck.Builder(sc)
full = vfcheck.build_goto(b, jj, sc)
cmd = vfcheck.cbmc_cmd(full, jj, jj["unwind"], vfcheck.loops_of(full))
cmd = [c for c in cmd if c != "--json-ui"]
cmd[cmd.index("--verbosity") + 1] = "9"
print(" ".join(cmd))
out = open(os.path.join(sc, "out"), "w")
try:
    subprocess.run(cmd + sys.argv[3:], stdout=out, stderr=out, timeout=limit)
except subprocess.TimeoutExpired:
    print("TIMEOUT")
t = open(os.path.join(sc, "out")).read()
c = collections.Counter(re.findall(r"(?:Unwinding|Not unwinding) (?:loop|recursion) (\S+)", t))
for k, v in c.most_common(25): print(v, k)
print(t[-600:])
print(sc)
