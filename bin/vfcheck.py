#!/usr/bin/env python3
"""Solver-based check of one property: see DESIGN.md, "Harness machinery"."""
import sys, os, re, json, time, shutil, subprocess, tempfile, fnmatch, signal, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
HARN = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4
sys.path.insert(0, HARN)

GENERATED = ["config.h", "src/include/paths.h", "src/include/cf_funcs.h",
             "src/common/cf_funcs.c", "src/common/cf_abbrev.c",
             "src/common/cf_env.c"]
# not part of the library (or fully modelled)
SKIP = {"cf_abbrev", "cf_env", "getopt", "getopt1"}
# logging has no effect on any property: bodies empty in every harness
ALWAYS_STUB = ["fglog", "debug", "log_file", "log_program"]


class Inconclusive(Exception):
    pass


def run(cmd, timeout=None, cwd=None, env=None, mem_gb=None):
    t0 = time.time()
    try:
        return run_(cmd, timeout, cwd, env, mem_gb)
    finally:
        if os.environ.get("VF_PROF"):
            print("%6.1f %s" % (time.time() - t0, " ".join(cmd)[:100]), file=sys.stderr)


def run_(cmd, timeout=None, cwd=None, env=None, mem_gb=None):
    def preexec():
        os.setsid()
        if mem_gb:
            import resource
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, env=env, preexec_fn=preexec)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", "timeout"


# ------------------------------------------------------------------ source tree
def prepare_tree(scratch):
    """A scratch copy of /repo's current sources, with the generated files."""
    dst = os.path.join(scratch, "repo")
    keep = ("*.c", "*.h", "*.y", "*.m4", "*.mak")
    missing = [g for g in GENERATED if not os.path.exists(os.path.join(REPO, g))]
    if not missing:
        for root, dirs, files in os.walk(REPO):
            rel = os.path.relpath(root, REPO)
            dirs[:] = [d for d in dirs if d not in (".git", "autom4te.cache", "doc", "debian", "packages", "scripts", "configs")]
            for f in files:
                if any(fnmatch.fnmatch(f, k) for k in keep):
                    os.makedirs(os.path.join(dst, rel), exist_ok=True)
                    shutil.copy2(os.path.join(root, f), os.path.join(dst, rel, f))
    else:
        rc, o, e = run(["cp", "-a", REPO, dst])
        if rc != 0:
            raise Inconclusive("copy of the tree failed: " + e)
        env = dict(os.environ, CC="gcc", PERL="/usr/bin/perl", LC_ALL="C.UTF-8")
        for v in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS"):
            env.pop(v, None)
        script = ("sh ./autogen.sh && ./configure --without-news "
                  "--with-sendmail=/usr/sbin/sendmail --disable-extraversion && "
                  "(cd src && make %s)" % " ".join(g[4:] for g in GENERATED if g.startswith("src/")))
        rc, o, e = run(["sh", "-c", script], cwd=dst, env=env, timeout=600)
        for g in GENERATED:
            if not os.path.exists(os.path.join(dst, g)):
                raise Inconclusive("generated file %s missing and not rebuilt: %s" % (g, e[-2000:]))
    y = os.path.join(dst, "src/common/parsedate.y")
    if os.path.exists(y):
        c = os.path.join(dst, "src/common/parsedate.c")
        rc, o, e = run(["bison", "-y", "-o", c, y], cwd=scratch)
        if rc != 0 and not os.path.exists(c):
            raise Inconclusive("bison: " + e)
    return dst


def cflags(tree, defs):
    fl = ["-DHAVE_CONFIG_H", "-I" + LIB, "-I" + tree, "-I" + tree + "/src/include",
          "-I" + tree + "/src/common", "-include", LIB + "/vf_redirect.h", "-w", "-g"]
    for k, v in sorted(defs.items()):
        fl.append("-D%s=%s" % (k, v) if v is not None else "-D%s" % k)
    return fl


def shrink_headers(tree, shrink):
    """Reduce named array-size constants (stated bound) in a private tree copy."""
    files = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(tree, "src")) for f in fs if f.endswith((".c", ".h"))]
    for p in files:
        s = n = open(p, errors="surrogateescape").read()
        for name, val in shrink.items():
            n = re.sub(r"(?m)^(\s*#\s*define\s+%s)\b[ \t]+\S.*$" % re.escape(name), r"\1 %s" % val, n)
        if n != s:
            open(p, "w", errors="surrogateescape").write(n)
    return tree


class Builder:
    """Compiles the library (once per set of defines/shrinks) and programs."""
    def __init__(self, scratch):
        self.scratch = scratch
        self.tree0 = prepare_tree(scratch)
        self.cache = {}
        self.lcache = {}
        self.lock = threading.Lock()
        self.n = 0

    def linked(self, job, objs):
        """The library as one goto binary, without the bodies of the stubbed functions."""
        key = (tuple(objs), tuple(job["remove"]))
        with self.lock:
            ent = self.lcache.setdefault(key, [threading.Lock(), None, len(self.lcache)])
        with ent[0]:
            if ent[1] is None:
                lib = os.path.join(self.scratch, "lib%d.gb" % ent[2])
                nxt = os.path.join(self.scratch, "lib%d_s.gb" % ent[2])
                rc, so, se = run(["goto-cc", "-r", "-o", lib] + objs, timeout=300)
                if rc != 0 or not os.path.exists(lib):
                    raise Inconclusive("goto link failed: " + (so + se)[-3000:])
                cmd = ["goto-instrument"]
                for f in ALWAYS_STUB + job["remove"]:
                    cmd += ["--remove-function-body", f]
                rc, so, se = run(cmd + [lib, nxt], timeout=300)
                if rc != 0:
                    raise Inconclusive("goto-instrument: " + (so + se)[-3000:])
                ent[1] = nxt
            return ent[1]

    def sources(self, tree, progs):
        src = sorted(os.path.join(tree, "src/common", f) for f in os.listdir(os.path.join(tree, "src/common"))
                     if f.endswith(".c") and f[:-2] not in SKIP)
        for p in progs:
            src.append(os.path.join(tree, "src", p))
        return src

    def lib(self, job, native):
        key = (tuple(sorted(job["defs"].items())), tuple(sorted(job["shrink"].items())),
               tuple(job["prog"]), tuple(job["units"] or ()), native)
        if key in self.cache:
            return self.cache[key]
        self.n += 1
        tree = self.tree0
        if job["shrink"]:
            tree = os.path.join(self.scratch, "tree%d" % self.n)
            shutil.copytree(self.tree0, tree)
            shrink_headers(tree, job["shrink"])
        out = os.path.join(self.scratch, "obj%d" % self.n)
        os.makedirs(out)
        srcs = self.sources(tree, job["prog"])
        if job["units"]:
            srcs = [s for s in srcs if os.path.basename(s)[:-2] in job["units"] or not s.startswith(os.path.join(tree, "src/common"))]
        jobs = []
        for s in srcs:
            o = os.path.join(out, os.path.basename(s)[:-2] + ".o")
            d = dict(job["defs"])
            if any(s.endswith("/" + p) for p in job["prog"]):
                d["main"] = "prog_main"
            jobs.append((s, o, d))

        def comp(t):
            s, o, d = t
            if native:
                cmd = ["gcc", "-std=gnu17", "-O0", "-fno-inline", "-fsanitize=address", "-fno-omit-frame-pointer", "-fcommon"]
            else:
                cmd = ["goto-cc", "-D__CPROVER"]
            rc, so, se = run(cmd + cflags(tree, d) + ["-c", s, "-o", o], timeout=300)
            return s, rc, so + se
        with ThreadPoolExecutor(NCPU) as ex:
            for s, rc, msg in ex.map(comp, jobs):
                if rc != 0:
                    raise Inconclusive("compiling %s failed:\n%s" % (s, msg[-3000:]))
        self.cache[key] = (tree, [o for _, o, _ in jobs])
        return self.cache[key]


def build_goto(b, job, wd):
    tree, objs = b.lib(job, False)
    hd = dict(job["defs"])
    hd.update(job["hdefs"])
    h = os.path.join(wd, "harness.gb")
    m = os.path.join(wd, "model.gb")
    for s, o in ((os.path.join(HARN, job["src"]), h), (os.path.join(LIB, "vf_model.c"), m)):
        rc, so, se = run(["goto-cc", "-D__CPROVER"] + cflags(tree, hd) + ["-c", s, "-o", o], timeout=300)
        if rc != 0:
            raise Inconclusive("compiling %s failed:\n%s" % (s, (so + se)[-3000:]))
    nxt = b.linked(job, objs)
    full = os.path.join(wd, "full.gb")
    rc, so, se = run(["goto-cc", "--function", job["entry"], "-o", full, h, m, nxt], timeout=300)
    if rc != 0:
        raise Inconclusive("goto link failed: " + (so + se)[-3000:])
    f2 = os.path.join(wd, "f2.gb")
    f3 = os.path.join(wd, "f3.gb")
    rc, so, se = run(["goto-instrument", "--drop-unused-functions", full, f2], timeout=300)
    if rc == 0:
        rc, so, se = run(["goto-instrument", "--slice-global-inits", f2, f3], timeout=300)
        if rc == 0:
            return f3
    raise Inconclusive("goto-instrument: " + (so + se)[-3000:])


MODEL_LOOPS = [  # constant-bounded loops of the models: (pattern, bound)
    ("vf_doprnt.*", 200), ("vf_onum.*", 26), ("vf_bytes.*", 600),
    ("vf_newdent.*", 20), ("vf_newstream.*", 20), ("vf_lookup.*", 20),
    ("vf_same.*", 200), ("vf_setname.*", 200), ("vf_vsscanf.*", 60),
]


def loops_of(full):
    rc, o, e = run(["cbmc", "--show-loops", "--json-ui", full], timeout=120)
    out = []
    try:
        for m in json.loads(o):
            for l in m.get("loops", []):
                out.append(l["name"])
    except Exception:
        out = re.findall(r"^Loop (\S+):", o, re.M)
    return out


def cbmc_cmd(full, job, unwind, loops):
    us = {}
    pats = [(k, v) for k, v in job["unwindset"].items()] + MODEL_LOOPS
    for l in loops:
        for pat, n in pats:
            if fnmatch.fnmatch(l, pat) or fnmatch.fnmatch(l, pat + ".*"):
                us[l] = n
                break
    cmd = ["cbmc", full, "--json-ui", "--verbosity", "8", "--no-malloc-may-fail", "--object-bits", str(job["object_bits"]),
           "--no-signed-overflow-check", "--no-undefined-shift-check", "--no-pointer-primitive-check",
           "--drop-unused-functions", "--unwind", str(unwind),
           "--max-field-sensitivity-array-size", str(job["fsens"])]
    if us:
        cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in sorted(us.items()))]
    if job["solver"]:
        cmd += ["--sat-solver", job["solver"]]
    cmd += job["flags"]
    return cmd


def parse_cbmc(o):
    try:
        d = json.loads(o)
    except Exception:
        return None
    r = {"results": None, "msgs": []}
    for m in d:
        if "result" in m:
            r["results"] = m["result"]
        if "messageText" in m:
            r["msgs"].append(m["messageText"])
        if "cProverStatus" in m:
            r["status"] = m["cProverStatus"]
    return r


def stats(msgs):
    s = {"steps": 0, "vccs": 0, "vccs_remaining": 0, "variables": 0, "clauses": 0, "solver_s": 0.0, "queries": 0}
    for t in msgs:
        m = re.search(r"size of program expression: (\d+) steps", t)
        if m: s["steps"] += int(m.group(1))
        m = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
        if m:
            s["vccs"] += int(m.group(1)); s["vccs_remaining"] += int(m.group(2))
        m = re.search(r"(\d+) variables, (\d+) clauses", t)
        if m:
            s["variables"] = max(s["variables"], int(m.group(1)))
            s["clauses"] = max(s["clauses"], int(m.group(2)))
        m = re.search(r"Runtime (?:Solver|decision procedure): ([0-9.e+-]+)s", t, re.I)
        if m and "decision" in t.lower():
            s["solver_s"] += float(m.group(1))
        if "SAT checker" in t or "Running propositional" in t:
            s["queries"] += 1
        m = re.search(r"Runtime Symex: ([0-9.e+-]+)s", t)
        if m: s["symex_s"] = float(m.group(1))
    return s


def draws_from_trace(trace):
    vals = []
    for st in trace:
        if st.get("stepType") == "assignment" and st.get("lhs") == "vf_draw":
            fn = st.get("sourceLocation", {}).get("function", "")
            if not fn.startswith("vf_u"):
                continue      # static initialisation
            v = st.get("value", {})
            if "binary" in v:
                vals.append(int(v["binary"], 2))
            else:
                vals.append(int(re.sub(r"[^0-9]", "", v.get("data", "0")) or 0))
    return vals


def native_build(b, job, wd):
    exe = os.path.join(wd, "replay")
    if os.path.exists(exe):
        return exe
    tree, objs = b.lib(job, True)
    hd = dict(job["defs"])
    hd.update(job["hdefs"])
    hs = []
    for s, n in ((os.path.join(HARN, job["src"]), "nh.o"), (os.path.join(LIB, "vf_model.c"), "nm.o")):
        o = os.path.join(wd, n)
        rc, so, se = run(["gcc", "-std=gnu17", "-O0", "-fsanitize=address", "-fno-omit-frame-pointer"] + cflags(tree, hd) + ["-c", s, "-o", o], timeout=300)
        if rc != 0:
            raise Inconclusive("native compile of %s: %s" % (s, se[-3000:]))
        hs.append(o)
    nl = []
    for o in objs:
        w = os.path.join(wd, "w_" + os.path.basename(o))
        cmd = ["objcopy"]
        for f in ALWAYS_STUB + job["remove"]:
            cmd += ["--weaken-symbol=" + f]
        run(cmd + [o, w])
        nl.append(w)
    mainc = os.path.join(wd, "nmain.c")
    with open(mainc, "w") as f:
        f.write("""#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <stdio.h>
void %s(void);
const char *__asan_default_options(void){return "detect_leaks=0:exitcode=75:handle_abort=1:detect_stack_use_after_return=0";}
int main(void){ %s(); fprintf(stderr,"VF-END\\n"); fflush(stderr); _exit(0);} 
""" % (job["entry"], job["entry"]))
    stub = os.path.join(wd, "nstub.c")
    with open(stub, "w") as f:
        for fn in ALWAYS_STUB:
            f.write("void %s(){}\n" % fn)
    rc, so, se = run(["gcc", "-std=gnu17", "-w", "-fsanitize=address", "-no-pie", "-Wl,--unresolved-symbols=ignore-all", "-o", exe, mainc, stub] + hs + nl + ["-lm"], timeout=300)
    if rc != 0:
        raise Inconclusive("native link: " + se[-4000:])
    return exe


def replay(b, job, wd, draws, tag, timeout=20):
    exe = native_build(b, job, wd)
    f = os.path.join(wd, "replay_%s.txt" % re.sub(r"\W", "_", tag))
    with open(f, "w") as h:
        h.write("\n".join(str(d) for d in draws) + "\n")
    rc, o, e = run([exe], timeout=timeout, env=dict(os.environ, VF_REPLAY=f))
    return rc, e, f


DEFAULTS = dict(prog=[], units=None, defs={}, hdefs={}, shrink={}, remove=[], unwind=20, unwindset={}, flags=[],
                object_bits=10, fsens=256, solver=None, tier="quick", timeout=700, mem_gb=12,
                weight=1, unwind_retry=2, bounds="", slice=True, slice_s=250)


def portfolio(cmd, job, left):
    """cbmc with a sliced formula; cbmc sometimes never ends that way, so after a while also unsliced: first answer wins."""
    if not job["slice"]:
        return run(cmd, timeout=left, mem_gb=job["mem_gb"])
    rc, o, e = run(cmd + ["--slice-formula"], timeout=min(left, job["slice_s"]), mem_gb=job["mem_gb"])
    if rc is not None:
        return rc, o, e
    left -= job["slice_s"]
    if left < 5:
        return rc, o, e
    return run(cmd, timeout=left, mem_gb=job["mem_gb"])


def run_job(b, job, scratch):
    """Returns a dict: status ok|violation|inconclusive, plus statistics."""
    t0 = time.time()
    wd = os.path.join(scratch, "job_" + re.sub(r"\W", "_", job["name"]))
    os.makedirs(wd)
    res = {"name": job["name"], "status": "ok", "entry": job["entry"], "bounds": job["bounds"], "unwind": job["unwind"]}
    try:
        full = build_goto(b, job, wd)
        native_build(b, job, wd)
        loops = loops_of(full)
        unwind = job["unwind"]
        tries = 0
        while True:
            left = job["timeout"] - (time.time() - t0)
            if left < 5:
                raise Inconclusive("time budget exhausted")
            cmd = cbmc_cmd(full, job, unwind, loops)
            res["cmd"] = " ".join(cmd)
            rc, o, e = portfolio(cmd, job, left)
            if rc is None:
                res["timeout"] = True
                raise Inconclusive("solver timeout after %.0fs" % (time.time() - t0))
            r = parse_cbmc(o)
            if r is None or r["results"] is None:
                raise Inconclusive("cbmc failed rc=%s: %s %s" % (rc, "; ".join((r or {"msgs": []})["msgs"][-5:]), (o if r is None else "")[-500:] + e[-500:]))
            res["stats"] = stats(r["msgs"])
            warn = [m for m in r["msgs"] if "no body for function" in m or "no body for callee" in m]
            res["no_body"] = sorted(set(re.findall(r"(?:function|callee) '?(\w+)", " ".join(warn))))
            reach, fails, unw, unk = [], [], [], []
            reach_total = 0
            nprop = 0
            for p in r["results"]:
                d = p.get("description", "")
                if d.startswith("REACH: "):
                    reach_total += 1
                    if p["status"] == "FAILURE":
                        reach.append(p)
                    continue
                nprop += 1
                if p["status"] == "FAILURE":
                    (unw if ".unwind." in p["property"] or "unwinding assertion" in d or "recursion" in p["property"] else fails).append(p)
                elif p["status"] not in ("SUCCESS",):
                    unk.append(p)
            res["properties"] = nprop
            res["reach"] = "%d/%d" % (len(reach), reach_total)
            if unw and not fails and tries < job["unwind_retry"]:
                tries += 1
                unwind = unwind * 2
                res["unwind"] = unwind
                res["unw_failed"] = [p["property"] for p in unw]
                continue
            break
        if unk and not fails:
            raise Inconclusive("undecided properties: " + ", ".join(p["property"] for p in unk[:5]))

        def trace_for(pid):
            left = max(30, job["timeout"] - (time.time() - t0))
            rc, o, e = run(cmd + ["--trace", "--property", pid], timeout=left, mem_gb=job["mem_gb"])
            if rc is None:
                return None
            r2 = parse_cbmc(o)
            if not r2 or not r2["results"]:
                return None
            for p in r2["results"]:
                if p["property"] == pid and p["status"] == "FAILURE":
                    return draws_from_trace(p.get("trace", []))
            return None

        # ---- violations: confirm against the real code
        unconfirmed = []
        order = sorted(fails, key=lambda p: 0 if p["description"].startswith("VF: ") else 1)
        for p in order[:6] + unw[:2]:
            dr = trace_for(p["property"])
            if dr is None:
                unconfirmed.append((p, "no trace"))
                continue
            rc, e, f = replay(b, job, wd, dr, p["property"])
            hang = rc is None
            ok = (rc in (77, 75)) or (rc is not None and rc < 0) or hang
            if p in unw and not hang and rc not in (75, 77) and not (rc is not None and rc < 0):
                unconfirmed.append((p, "bound too small, replay terminates"))
                continue
            if ok:
                what = "hang (no end within the replay time limit)" if hang else \
                    next((l for l in e.splitlines() if "VF-CHECK-FAILED" in l or "ERROR: AddressSanitizer" in l), "crash rc=%s" % rc)
                res["status"] = "violation"
                res["violation"] = dict(property=p["property"], description=p["description"],
                                        location=p.get("sourceLocation", {}), draws=dr, replay=what, stderr=e[-3000:])
                break
            unconfirmed.append((p, "replay rc=%s %s" % (rc, e.strip().splitlines()[-1:] if e else "")))
        res["unconfirmed"] = [(p["property"], p["description"], str(p.get("sourceLocation", {}).get("line")), why) for p, why in unconfirmed]
        if res["status"] == "ok":
            if fails:
                raise Inconclusive("counterexample not confirmed by the replay: %s" % res["unconfirmed"][:4])
            if unw:
                raise Inconclusive("unwinding bound %d too small: %s" % (unwind, [p["property"] for p in unw]))
            if reach_total == 0 or len(reach) < reach_total:
                missing = [p["description"] for p in r["results"] if p.get("description", "").startswith("REACH: ") and p["status"] != "FAILURE"]
                res["missing_reach"] = missing
                raise Inconclusive("vacuous: not reachable: %s" % missing)
            # ---- witness: the same marker is reached natively
            val = 0
            for p in reach[:job.get("witnesses", 1)]:
                dr = trace_for(p["property"])
                if dr is None:
                    continue
                rc, e, f = replay(b, job, wd, dr, "w_" + p["property"])
                lab = p["description"][len("REACH: "):]
                if ("VF-REACH: " + lab) in e and (rc == 0 or "VF-ASSUME-FAILED" in e[e.index("VF-REACH: " + lab):]):   # inputs behind the marker are not in the trace
                    val += 1
                    res.setdefault("samples", []).append({"job": job["name"], "marker": lab, "inputs": dr[:60]})
                else:
                    res.setdefault("witness_mismatch", []).append((lab, rc, e[-500:]))
            res["witness_validated"] = val
            if res.get("witness_mismatch"):
                raise Inconclusive("encoding and native code disagree on a witness: %s" % res["witness_mismatch"])
        # functions encoded
        rc, o, e = run(["goto-instrument", "--reachable-call-graph", full], timeout=120)
        fn = set()
        for l in o.splitlines():
            m = re.match(r"\s*(\S+) -> (\S+)", l)
            if m:
                fn.update(m.groups())
        res["functions"] = sorted(f for f in fn if not f.startswith(("vf_", "__", "h_", "nondet", "malloc", "free", "memcpy", "memset")) and f not in job["remove"] and f not in ALWAYS_STUB)
    except Inconclusive as x:
        res["status"] = "inconclusive"
        res["why"] = str(x)
    res["wall_s"] = round(time.time() - t0, 2)
    if not os.environ.get("VF_KEEP"):
        for f in os.listdir(wd):
            if f.endswith((".gb", ".o")):
                os.unlink(os.path.join(wd, f))
    return res


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import registry
    jobs = []
    for j in registry.JOBS:
        if j["p"] != a.pid:
            continue
        jj = dict(DEFAULTS)
        jj.update(j)
        if a.job:
            if not fnmatch.fnmatch(jj["name"], a.job):
                continue
        elif jj["tier"] == "thorough" and a.tier != "thorough":
            continue
        elif jj["tier"] == "quickonly" and a.tier == "thorough":
            continue
        jobs.append(jj)
    if not jobs:
        print("no jobs for", a.pid)
        return 2
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vf.", dir=os.environ.get("VF_TMP", "/tmp"))
    results = []
    rc = 0
    try:
        try:
            b = Builder(scratch)
            done = set()
            for j in jobs:       # compile sequentially (each is parallel inside)
                b.lib(j, False)
                b.lib(j, True)
        except Inconclusive as x:
            print("INCONCLUSIVE property=%s build: %s" % (a.pid, x))
            return 2
        order = sorted(jobs, key=lambda j: -j["weight"])
        with ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(lambda j: run_job(b, j, scratch), order))
        known = load_known(a.pid)
        viol, kn = [], []
        for r in results:
            if r["status"] == "violation":
                k = match_known(known, r)
                (kn if k else viol).append((r, k))
        for r, k in kn:
            print("KNOWN-FINDING: property=%s %s" % (a.pid, k["what"]))
        tiers = {j["name"]: j["tier"] for j in jobs}
        inc = [r for r in results if r["status"] == "inconclusive"]
        und = [r for r in inc if tiers[r["name"]] == "thorough" and r.get("timeout")]
        for r in und:       # deeper exploration that did not finish: reported, claims nothing
            r["status"] = "undecided"
            print("UNDECIDED within the time budget (not claimed): " + r["name"])
        inc = [r for r in inc if r not in und]
        for r in results:
            s = r.get("stats", {})
            line = "%-34s %-12s %6.1fs unwind=%s props=%s reach=%s steps=%s vars=%s clauses=%s" % (
                r["name"], r["status"], r["wall_s"], r.get("unwind"), r.get("properties"), r.get("reach"), s.get("steps"), s.get("variables"), s.get("clauses"))
            print(line)
            if r["status"] == "inconclusive":
                print("    " + r["why"][:1500])
            if a.v:
                print("    no_body:", r.get("no_body"))
                print("    functions:", r.get("functions"))
                if r.get("unw_failed"): print("    unw_failed:", r["unw_failed"])
                if r.get("unconfirmed"): print("    unconfirmed:", r["unconfirmed"])
        if viol:
            rc = 1
            for r, _ in viol:
                v = r["violation"]
                os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
                path = os.path.join(VERIF, "evidence", "replay_%s_%s.json" % (a.pid, re.sub(r"\W", "_", r["name"])))
                with open(path, "w") as f:
                    json.dump(dict(v, cbmc_property=v["property"], property=a.pid, job=r["name"]), f, indent=1)
                print("  %s: %s [%s] %s:%s" % (r["name"], v["description"], v["replay"], v["location"].get("function"), v["location"].get("line")))
                print("VIOLATION property=%s replay=%s" % (a.pid, path))
        elif inc:
            rc = 2
            print("INCONCLUSIVE property=%s: %d of %d jobs gave no verdict" % (a.pid, len(inc), len(results)))
        else:
            print("OK property=%s: %d jobs, %.1fs" % (a.pid, len(results), time.time() - t0))
        if not a.job:
            write_evidence(a, seed, registry, results, viol, kn, time.time() - t0)
    finally:
        if a.keep:
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    return rc


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def match_known(known, r):
    v = r["violation"]
    for k in known:
        if k.get("job") and not fnmatch.fnmatch(r["name"], k["job"]):
            continue
        if k["description"] == v["description"]:
            return k
    return None


def write_evidence(a, seed, registry, results, viol, kn, wall):
    prop = registry.PROPS.get(a.pid, {})
    fns = sorted(set(f for r in results for f in r.get("functions", [])))
    tot = lambda k: sum(r.get("stats", {}).get(k, 0) for r in results)
    ok = [r for r in results if r["status"] == "ok"]
    ev = dict(property=a.pid, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed,
              level=prop.get("level", "model_checking"), wall_s=round(wall, 2), violations=len(viol),
              assumptions=prop.get("assumptions", []) + registry.COMMON_ASSUMPTIONS,
              coverage=dict(
                  states=tot("steps"), transitions=tot("clauses"),
                  traces_validated_against_impl=sum(r.get("witness_validated", 0) for r in results),
                  samples=[s for r in results for s in r.get("samples", [])][:12],
                  explanation="Bounded model checking of the compiled source (goto-cc + CBMC, SAT back end): "
                              "every value of the symbolic inputs within the stated bounds, not sampling. "
                              "states = SSA steps of the symbolic program, transitions = clauses of the discharged formulas; "
                              "traces_validated = solver witnesses replayed on the natively compiled code.",
                  queries=len(results), queries_discharged=len(ok),
                  assertions_checked=sum(r.get("properties", 0) or 0 for r in results),
                  vccs=tot("vccs"), vccs_after_simplification=tot("vccs_remaining"),
                  solver_s=round(tot("solver_s"), 2),
                  functions_encoded=fns,
                  jobs=[dict(name=r["name"], status=r["status"], bounds=r.get("bounds"), unwind=r.get("unwind"),
                             assertions=r.get("properties"), reach=r.get("reach"), wall_s=r["wall_s"],
                             stats=r.get("stats"), why=r.get("why"), no_body=r.get("no_body")) for r in results],
                  known_findings=[k["what"] for _, k in kn]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
