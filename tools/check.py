#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--count N] [--from N] [--seed S]
   check.py --replay FILE
Builds the instrumented library from /repo's tree, drives the property's workload under the
monitors, classifies what they observed, and writes evidence/PROP.json.
Exit 0: held on everything explored (listed findings are printed as KNOWN-FINDING lines).
Exit 1: a VIOLATION line.  Exit 2: no verdict (build or harness trouble)."""
import argparse, json, os, queue, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from config import PROPS

VERIF = B.VERIF
REPO = B.REPO
KNOWN = os.path.join(VERIF, "known_findings.json")
WORKERS = int(os.environ.get("FCMON_WORKERS", str(os.cpu_count() or 4)))

_src = {}


def source_line(base, ln):
    """The trimmed text of BASE:ln, so a key survives code moving up or down."""
    if base not in _src:
        _src[base] = None
        for d in ("FCollada", "FCollada/FCDocument", "FCollada/FMath", "FCollada/FUtils", "FColladaPlugins/FArchiveXML"):
            p = os.path.join(REPO, d, base)
            if os.path.exists(p):
                _src[base] = open(p, errors="replace").read().split("\n")
                break
    t = _src[base]
    if not t or not (0 < ln <= len(t)):
        return "?"
    return re.sub(r"\s+", " ", t[ln - 1].strip())[:120]


def norm_key(k):
    m = re.match(r"(assert@|ubsan:[^@]*@)([\w.]+):(\d+)$", k)
    if m:
        return "%s%s `%s`" % (m.group(1), m.group(2), source_line(m.group(2), int(m.group(3))))
    return k


def crash_key(err, rc):
    """A key for a run that died: the sanitizer's class and the innermost FCollada functions."""
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", err)
    kind = m.group(2) if m else ("signal-%d" % -rc if isinstance(rc, int) and rc < 0 else "exit-%s" % rc)
    frames = []
    for l in err.splitlines():
        f = re.match(r"\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)$", l)
        if f and f.group(2).startswith(REPO + "/"):
            fn = re.sub(r"\(.*", "", f.group(1))
            frames.append(fn)
            if len(frames) == 2:
                break
        elif frames and re.match(r"\s*$", l):
            break
    return "crash:%s:%s" % (kind, "<".join(frames) if frames else "?")


class Run:
    def __init__(self, prop, cfg, exe, seed, tier, total, first=0, flavour="asan"):
        self.prop, self.cfg, self.exe, self.seed, self.tier = prop, cfg, exe, seed, tier
        self.total, self.first, self.flavour = total, first, flavour
        self.viol, self.sigs, self.samples, self.hits = {}, set(), [], {}
        self.evals = self.nt = 0
        self.inconclusive, self.errors = [], []
        self.lock = threading.Lock()
        self.q = queue.Queue()
        chunk = cfg.get("chunk") or max(1, min(500, total // (WORKERS * 3) or 1))
        i = first
        while i < first + total:
            n = min(chunk, first + total - i)
            self.q.put((i, n, False))
            i += n
        self.crashes = self.fresh = 0
        self.known = load_known()
        self.pending = self.q.qsize()
        self.tmp = tempfile.mkdtemp(prefix="fcmon-")

    def add(self, key, case, detail, extra=""):
        key = norm_key(key)
        with self.lock:
            if key not in self.viol and not any(k["property"] == self.prop and k["status"] == "known" and re.fullmatch(k["key"], key) for k in self.known):
                self.fresh += 1
            v = self.viol.setdefault(key, {"key": key, "count": 0, "case": case, "detail": detail, "extra": extra})
            v["count"] += 1
            if case < v["case"]:
                v["case"], v["detail"] = case, detail

    def command(self, case, n=1, extra=()):
        a = [self.exe, self.prop, "--seed", str(self.seed), "--from", str(case), "--count", str(n)]
        if self.tier == "thorough":
            a.append("--thorough")
        return a + list(extra)

    def launch(self, first, n, extra=()):
        d = tempfile.mkdtemp(dir=self.tmp)
        rep = os.path.join(d, "report")
        w = os.path.join(d, "w")
        os.mkdir(w)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN", "UBSAN", "LSAN", "MALLOC"))}
        env.update(LANG="C.UTF-8", HOME=w, TMPDIR=w,
                   ASAN_OPTIONS="exitcode=77:detect_leaks=1:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0:"
                                "symbolize=1:hard_rss_limit_mb=3000:quarantine_size_mb=16:malloc_context_size=12:handle_abort=1:handle_sigtrap=1:"
                                "external_symbolizer_path=/usr/bin/llvm-symbolizer-18:" + self.cfg.get("asan", ""),
                   UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=0",
                   LSAN_OPTIONS="max_leaks=5")
        env.pop("LD_PRELOAD", None)
        cmd = self.command(first, n, ["--out", rep, "--tmp", w] + list(extra))
        if self.flavour == "vg":
            cmd = ["valgrind", "--error-exitcode=0", "--leak-check=no", "--num-callers=14", "-q"] + cmd
        errf = os.path.join(d, "err")
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=w)
            try:
                rc = p.wait(timeout=self.cfg.get("wall", 420))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
        lines = []
        if os.path.exists(rep):
            for l in open(rep, errors="replace"):
                try:
                    lines.append(json.loads(l))
                except ValueError:
                    pass
        with open(errf, "rb") as ef:
            err = ef.read()[:400000].decode("utf8", "replace")
        shutil.rmtree(d, ignore_errors=True)
        return rc, lines, err

    def absorb(self, lines):
        last, ended, leak = None, None, None
        with self.lock:
            for l in lines:
                t = l["t"]
                if t == "begin":
                    last = l["c"]
                elif t == "end":
                    ended = l["c"]
                    self.evals += 1
                    if l["nt"]:
                        self.sigs.add(l["sig"])
                        self.nt += 1
                elif t == "sample":
                    if len(self.samples) < 12:
                        self.samples.append({"case": l["c"], "what": l["d"]})
                elif t == "stat":
                    for k, v in l["hits"].items():
                        self.hits[k] = self.hits.get(k, 0) + v
                elif t == "leakchunk":
                    leak = l
        for l in lines:
            if l["t"] == "viol":
                self.add(l["key"], l["c"], l["d"])
        return last, ended, leak

    def find_leak(self, first, n):
        rc, lines, err = self.launch(first, n, ["--leak-each"])
        for l in lines:
            if l["t"] == "leak":
                fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (%s/\S+)" % re.escape(REPO), err)
                m = re.search(r"(?:Direct|Indirect) leak.*?\n((?:\s+#.*\n)+)", err)
                names = []
                if m:
                    for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (\S+)\n", m.group(1)):
                        if f[1].startswith(REPO):
                            names.append(re.sub(r"\(.*", "", f[0]))
                names = [x for x in names if not re.search(r"fm::|stringT|operator new|Construct", x)][:2] or names[:2]
                self.add("leak:" + "<".join(names), l["c"], "memory still unreachable after the case released everything it made: " +
                         err[:1200])
                return l["c"]
        return None

    def worker(self):
        while True:
            try:
                first, n, rerun = self.q.get(timeout=0.2)
            except queue.Empty:
                with self.lock:
                    if self.pending == 0:
                        return
                continue
            try:
                self.chunk(first, n, rerun)
            except Exception as e:  # a bug of this driver
                with self.lock:
                    self.errors.append(repr(e))
            with self.lock:
                self.pending -= 1

    def put(self, first, n, rerun=False):
        with self.lock:
            self.pending += 1
        self.q.put((first, n, rerun))

    def chunk(self, first, n, rerun):
        if self.fresh > 60 or self.crashes > 60:
            return
        rc, lines, err = self.launch(first, n)
        last, ended, leak = self.absorb(lines)
        if self.flavour == "vg":
            self.memcheck(err, last if last is not None else first)
        if rc == 0 and not any(l["t"] == "stat" for l in lines):
            rc = "gone"  # the process left without reaching the end of its workload
        if rc == "timeout":
            if rerun:
                with self.lock:
                    self.inconclusive.append("wall-clock watchdog fired on cases %d..%d" % (first, first + n - 1))
            else:
                s = last if last is not None and (ended is None or last > ended) else first
                self.put(s, 1, True)
                if s + 1 < first + n:
                    self.put(s + 1, first + n - s - 1)
            return
        if rc == 96:  # CPU limit
            c = last if last is not None else first
            if rerun:
                m = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) %s/" % re.escape(REPO), err)
                self.add("hang", c, "the case used %ss of CPU without finishing; in %s" %
                         (self.cfg.get("cpu", "its limit"), "<".join(re.sub(r"\(.*", "", x) for x in m[:4])))
            else:
                self.put(c, 1, True)
            if c + 1 < first + n:
                self.put(c + 1, first + n - c - 1)
            return
        if rc in (93, 94, 95, 97):
            with self.lock:
                self.errors.append("harness exit %s: %s" % (rc, err[-300:]))
            return
        if rc != 0:
            with self.lock:
                self.crashes += 1
            if last is None:
                with self.lock:
                    self.errors.append("died before the first case: rc=%s %s" % (rc, err[-600:]))
                return
            if "LeakSanitizer has encountered a fatal error" in err:
                with self.lock:
                    self.errors.append("leak detection cannot run here")
                return
            if "hard rss limit exhausted" in err or rc == -9:
                if not rerun:
                    self.put(last, 1, True)
                else:
                    self.add("memory", last, "the case grew past the memory limit: " + err[-500:])
            elif ended is not None and ended >= last:
                self.add(crash_key(err, rc), last, "died while tearing down after case %d: %s" % (last, err[:1500]))
            else:
                self.add(crash_key(err, rc), last, err[:3000])
            if last + 1 < first + n:
                self.put(last + 1, first + n - last - 1)
            return
        if leak:
            # find the case, then go on after it: every chunk's leaks are reported once per site
            c = self.find_leak(first, n)
            if c is None:
                self.add("leak:teardown", first, "leak only visible at library teardown of cases %d..%d: %s" % (first, first + n - 1, err[:1200]))

    def memcheck(self, err, case):
        for blk in re.split(r"\n==\d+== \n", err):
            if "ninitialised" in blk or "Invalid" in blk:
                fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (.+?) \((\S+?):(\d+)\)", blk)
                fr = [re.sub(r"\(.*", "", f[0]) for f in fr][:3]
                kind = "uninitialised" if "ninitialised" in blk else "invalid"
                self.add("memcheck:%s:%s" % (kind, "<".join(fr)), case, blk[:1500])

    def go(self):
        ts = [threading.Thread(target=self.worker) for _ in range(WORKERS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        shutil.rmtree(self.tmp, ignore_errors=True)


def load_known():
    if not os.path.exists(KNOWN):
        return []
    return json.load(open(KNOWN))["findings"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--count", type=int)
    ap.add_argument("--from", dest="first", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--all-keys", action="store_true")
    a = ap.parse_args()
    if a.replay:
        rp = json.load(open(a.replay))
        exe = B.build(rp.get("flavour", "asan"))
        r = Run(rp["property"], PROPS[rp["property"]], exe, rp["seed"], rp["tier"], 1, rp["case"], rp.get("flavour", "asan"))
        rc, lines, err = r.launch(rp["case"], 1, ["--leak-each", "--verbose"])
        for l in lines:
            print(json.dumps(l))
        print(err)
        print("exit", rc)
        return 0
    t0 = time.time()
    prop, cfg = a.prop, PROPS[a.prop]
    total = a.count or cfg["quick" if a.tier == "quick" else "thorough"]
    runs = []
    try:
        plan = [("asan", total)]
        if a.tier == "thorough" and not a.count:
            plan.append(("rel", max(1, total // 4)))
            if cfg.get("vg"):
                plan.append(("vg", cfg["vg"]))
        for fl, n in plan:
            exe = B.build(fl)
            r = Run(prop, cfg, exe, a.seed, a.tier, n, a.first, fl)
            r.go()
            runs.append(r)
    except RuntimeError as e:
        print("no verdict: %s" % e)
        return 2
    rule = ""
    for l in subprocess.run([exe, "--rule"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        if l.startswith(prop + "\t"):
            rule = l.split("\t", 1)[1]
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    new, seen_known = [], {}
    for r in runs:
        for v in r.viol.values():
            v["flavour"] = r.flavour
            for k in known:
                if re.fullmatch(k["key"], v["key"]):
                    seen_known.setdefault(k["key"], (k, v))
                    break
            else:
                new.append(v)
    errors = sum((r.errors for r in runs), [])
    inc = sum((r.inconclusive for r in runs), [])
    evals = sum(r.evals for r in runs)
    sigs = set().union(*[r.sigs for r in runs])
    hits = {}
    for r in runs:
        for k, v in r.hits.items():
            hits[k] = hits.get(k, 0) + v
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
          "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": rule,
                       "samples": sum((r.samples for r in runs), [])[:8],
                       "observed_events": hits, "builds": {r.flavour: r.evals for r in runs},
                       "inconclusive": inc, "listed_findings_seen": sorted(seen_known)},
          "assumptions": cfg.get("assumptions", []) + ["only the executions driven here are judged; a clean sanitizer run is not memory safety"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for key, (k, v) in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    new.sort(key=lambda v: v["case"])
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for i, v in enumerate(new[:200 if a.all_keys else 8]):
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": a.seed, "tier": a.tier, "case": v["case"], "flavour": v["flavour"], "key": v["key"],
                       "count": v["count"], "detail": v["detail"], "how": "python3 tools/check.py --replay <this file>"}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  key=%s cases=%d first=%d: %s" % (v["key"], v["count"], v["case"], v["detail"][:300].replace("\n", " | ")))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d new violation keys, %d listed, %.1fs" %
          (prop, a.tier, a.seed, evals, len(sigs), len(new), len(seen_known), time.time() - t0))
    if new:
        return 1
    if errors:
        print("no verdict: %s" % errors[:3])
        return 2
    if evals < total * 0.9 or len(sigs) == 0:
        print("no verdict: only %d of %d cases ran to the end (%s)" % (evals, total, inc[:3]))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
