#!/usr/bin/env python3
"""cov.py [FRACTION] [PROP...]: builds the library with coverage counters, drives the workloads with a
fraction of their quick cases, and writes .build/cov/lines.txt: the library lines no workload reaches.
A measure of reach for whoever extends the workloads; it decides nothing."""
import concurrent.futures as cf, glob, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from config import PROPS
frac = float(sys.argv[1]) if len(sys.argv) > 1 else 0.1
props = sys.argv[2:] or sorted(PROPS)
exe = B.build("cov")
d = os.path.join(B.OUT, "cov")
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
def run(a):
    p, first, n = a
    w = os.path.join(d, "%s-%d" % (p, first))
    os.makedirs(w)
    subprocess.run([exe, p, "--seed", "5", "--from", str(first), "--count", str(n), "--out", w + ".rep", "--tmp", w], cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                   env=dict(os.environ, LLVM_PROFILE_FILE=w + ".profraw"), timeout=900)
    shutil.rmtree(w, ignore_errors=True)
    os.unlink(w + ".rep")
jobs = []
for p in props:
    n = max(50, int(PROPS[p]["quick"] * frac))
    jobs += [(p, k * (n // 8 + 1), n // 8 + 1) for k in range(8)]
with cf.ThreadPoolExecutor(8) as ex:
    list(ex.map(run, jobs))
subprocess.run(["llvm-profdata-18", "merge", "-sparse", "-o", d + "/all.profdata"] + glob.glob(d + "/*.profraw"), check=True)
for f in glob.glob(d + "/*.profraw"):
    os.unlink(f)
r = subprocess.run(["llvm-cov-18", "show", exe, "-instr-profile=" + d + "/all.profdata", "-sources", B.REPO], stdout=subprocess.PIPE, text=True, errors="replace").stdout
open(d + "/show.txt", "w").write(r)
r = subprocess.run(["llvm-cov-18", "report", exe, "-instr-profile=" + d + "/all.profdata", "-sources", B.REPO], stdout=subprocess.PIPE, text=True).stdout
open(d + "/report.txt", "w").write(r)
print(r.splitlines()[-1])
