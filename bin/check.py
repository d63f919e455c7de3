#!/usr/bin/env python3
"""Run the check of one property.

  bin/check.py ID [quick|thorough]          build harnesses against /repo's working tree, run, judge, write evidence
  bin/check.py ID replay FILE               re-run the single case of a replay file
Environment: VERIF_SEED (default 1), NWV_REPO (default /repo), NWV_CACHE (development only: cache of built harnesses),
NWV_FAMILIES (development only: regular expression selecting families is not supported; use replay).
Exit: 0 held on everything explored; 1 with VIOLATION lines; 3 the check itself failed.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NWV_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 1)
COMMON = ["-w", "-std=c++20", "-include", "cstdint", "-include", "functional", "-I" + VERIF + "/include", "-fno-omit-frame-pointer"]
INIT = ["-ftrivial-auto-var-init=pattern"]
MODES = {
    "plain": {"flags": ["-O2", "-g1"] + INIT, "libs": ["-ltbb"]},
    "asan": {"flags": ["-Og", "-g1", "-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-D_GLIBCXX_ASSERTIONS"] + INIT, "libs": ["-ltbb"]},
    "ubsan": {"flags": ["-O0", "-g1", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow","-fno-sanitize=vptr,null,alignment", "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-D_GLIBCXX_ASSERTIONS"], "libs": ["-ltbb"]},
    "leak": {"flags": ["-O0", "-g1", "-DNWV_LEAK"] + INIT, "libs": ["-ltbb"]},
    "memcheck": {"flags": ["-O0", "-g1"], "libs": ["-ltbb"], "prefix": ["valgrind", "-q", "--tool=memcheck", "--leak-check=no", "--error-exitcode=96", "--exit-on-first-error=yes", "--num-callers=20", "--fair-sched=yes"]},
    "tsan": {"flags": ["-O1", "-g1", "-fsanitize=thread"], "libs": ["-pthread", "-ltbb"], "shim": True},
    "shim": {"flags": ["-O1", "-g1"] + INIT, "libs": ["-pthread", "-ltbb"], "shim": True},
    "ashim": {"flags": ["-Og", "-g1", "-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-D_GLIBCXX_ASSERTIONS"] + INIT, "libs": ["-pthread", "-ltbb"], "shim": True},
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:handle_abort=1:exitcode=97:hard_rss_limit_mb=3500:max_malloc_fill_size=1048576:detect_stack_use_after_return=0:"
                    "detect_odr_violation=0:allocator_release_to_os_interval_ms=-1:quarantine_size_mb=64:thread_local_quarantine_size_kb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=3:second_deadlock_stack=1:report_thread_leaks=0:report_destroy_locked=0",
}


def err(msg):
    print("check.py: " + msg, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Harness:
    def __init__(self, unit, bdir):
        self.unit, self.bdir = unit, bdir
        self.name = unit["src"].rsplit(".", 1)[0] + unit.get("tag", "") + "-" + unit["mode"]
        self.bin = os.path.join(bdir, self.name)
        self.limit = unit.get("case_limit", 40)
        self.workers = unit.get("workers", NCPU)

    def build(self):
        m = MODES[self.unit["mode"]]
        inc = []
        if m.get("shim"):
            inc = ["-include", VERIF + "/shim/nwv_shim.h"]
        cmd = ["g++"] + COMMON + m["flags"] + [f.replace("{VERIF}", VERIF).replace("{REPO}", REPO) for f in self.unit.get("flags", [])] + inc + ["-I" + REPO + "/include", "-I" + REPO + "/bench"]
        src = os.path.join(VERIF, "checks", self.unit["src"])
        libs = m["libs"] + self.unit.get("libs", [])
        cache = os.environ.get("NWV_CACHE")
        key = None
        if cache:
            os.makedirs(cache, exist_ok=True)
            pp = subprocess.run(cmd + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if pp.returncode == 0:
                h = hashlib.sha256(pp.stdout.replace(self.bdir.encode(), b"B") + " ".join(cmd + libs).replace(self.bdir, "B").encode()).hexdigest()
                key = os.path.join(cache, h)
                if os.path.exists(key):
                    os.utime(key)
                    shutil.copy(key, self.bin)
                    return None
        p = sh(cmd + [src, "-o", self.bin] + libs)
        if p.returncode:
            lines = [l[:400] for l in p.stdout.split("\n") if " error: " in l or "required from here" in l]
            return "compiling %s failed:\n%s" % (self.name, "\n".join(lines[:6]) or p.stdout[-1500:])
        if key:
            shutil.copy(self.bin, key)
        return None

    def env(self):
        e = dict(os.environ)
        e.update(SAN_ENV)
        e["LC_ALL"] = "C"
        e.update(self.unit.get("env", {}))
        if "scale" in self.unit:
            e["NWV_SCALE"] = str(self.unit["scale"])
        if "skip" in self.unit:
            e["NWV_SKIP"] = self.unit["skip"]
        return e

    def prefix(self, i=0):
        if self.unit["mode"] == "memcheck":    # one processor each: the scheduler then starts no idle threads
            cpus = sorted(os.sched_getaffinity(0))
            return ["taskset", "-c", str(cpus[i % len(cpus)])] + MODES["memcheck"]["prefix"]
        return (["setarch", "-R"] if self.unit.get("noaslr") else []) + MODES[self.unit["mode"]].get("prefix", [])


SUMMARY = [
    (re.compile(r"^==\d+== ((?:Conditional jump|Use of uninitialised|Invalid (?:read|write|free)|Syscall param|Mismatched free|Jump to|Argument|Source and destination overlap)[^\n(]{0,50})", re.M), "memcheck-"),
    (re.compile(r"WARNING: ThreadSanitizer: ([\w -]+?)(?: \(|$)", re.M), "tsan-"),
    (re.compile(r"runtime error: ([^\n]{0,60})"), "ubsan-"),
    (re.compile(r"(Assertion) [`'].*failed"), "assert-"),
    (re.compile(r"(hard rss limit exhausted)"), "memory-"),
    (re.compile(r"terminate called after throwing an instance of '([^']+)'"), "terminate-"),
    (re.compile(r"(terminate called)"), "terminate-"),
    (re.compile(r"ERROR: AddressSanitizer: ([\w-]+)"), "asan-"),
]


def summarise(text, rc):
    for rx, pre in SUMMARY:
        m = rx.search(text)
        if m:
            return pre + re.sub(r"[^A-Za-z0-9_.:-]+", "-", re.sub(r"\d+", "N", m.group(1))).strip("-")
    if rc is not None and rc < 0:
        return "signal-%d" % -rc
    return "exit-%s" % rc


def frames(text):
    """The first few stack frames of a sanitizer report or the assertion text, for the message."""
    out = []
    m = re.search(r"[^\n]*(Assertion|runtime error|what\(\)|terminate)[^\n]*", text)
    if m:
        out.append(m.group(0)[-300:])
    for m in re.finditer(r"(?:#\d+|==\d+==    (?:at|by)) (?:0x[0-9A-Fa-f]+(?: in|:) )?(.+)", text):
        s = m.group(1)
        if "/repo/" in s or "nwgraph" in s or ".hpp:" in s:
            out.append(s[:200])
        if len(out) >= 6:
            break
    return " | ".join(out) or text.strip()[-400:]


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.fails, self.counters, self.samples = [], {}, []
        self.evals, self.digests, self.inconclusive = 0, set(), []
        self.families = {}
        self.harness_errors = []
        self.truncated = False
        self.other = 0

    def spawn(self, h, d, i, gen):
        log = os.path.join(d, "log.%d" % i)
        errf = os.path.join(d, "err.%d.%d" % (i, gen))
        tmp = os.path.join(d, "tmp.%d" % i)
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        cmd = h.prefix(i) + [h.bin, "work", str(self.seed), self.tier, log, os.path.join(d, "ctr"), tmp]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(errf, "wb"), env=h.env(), cwd=tmp)
        return {"p": p, "log": log, "err": errf, "i": i, "gen": gen, "pos": 0, "cur": None, "t": time.time(), "done": False, "buf": b""}

    def poll_log(self, h, w):
        try:
            with open(w["log"], "rb") as f:
                f.seek(w["pos"])
                data = f.read()
        except FileNotFoundError:
            return
        if not data:
            return
        w["pos"] += len(data)
        data = w["buf"] + data
        lines = data.split(b"\n")
        w["buf"] = lines.pop()
        for l in lines:
            self.line(h, w, l.decode("utf-8", "replace"))

    def line(self, h, w, l):
        if l.startswith("S "):
            _, gid, fam, idx = l.split(" ")
            w["cur"] = (fam, int(idx))
            w["t"] = time.time()
        elif l.startswith("F "):
            head, msg, desc = (l[2:].split("\t") + ["", ""])[:3]
            key = head.split(" ", 1)[1]
            self.add_fail(h, w["cur"], key, msg, desc)
        elif l.startswith("D "):
            parts = l.split(" ", 4)
            self.evals += 1
            fam = w["cur"][0]
            f = self.families.setdefault(h.name + ":" + fam, [0, 0])
            f[0] += 1
            if parts[2] == "1":
                f[1] += 1
                self.digests.add(fam + parts[3])
            if len(parts) > 4 and parts[4] and len(self.samples) < 60:
                self.samples.append({"family": fam, "index": w["cur"][1], "case": parts[4][:400]})
            w["cur"] = None
            w["t"] = time.time()
        elif l.startswith("C "):
            k, v = l[2:].split("\t")
            self.counters[k] = self.counters.get(k, 0) + int(v)
        elif l == "E":
            w["done"] = True

    def add_fail(self, h, cur, key, msg, desc):
        # units marked "crash" take part for the sanitizers: what their result oracles say is decided by another property's check
        if h.unit.get("only") == "crash" and not re.search(r"(^|:)(crash|at-exit|between-cases|hang)(:|$)", key):
            self.other += 1
            return
        if h.unit["mode"] == "leak" and ":leak-" not in key:
            self.other += 1
            return
        self.fails.append({"unit": h.unit, "seed": self.seed, "family": cur[0] if cur else None, "index": cur[1] if cur else None, "key": key, "msg": msg, "desc": desc})

    def one(self, h, d, fam, idx, limit):
        log = os.path.join(d, "one.log")
        if os.path.exists(log):
            os.unlink(log)
        tmp = os.path.join(d, "tmp.one")
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        errf = os.path.join(d, "one.err")
        p = subprocess.Popen(h.prefix() + [h.bin, "one", str(self.seed), self.tier, log, tmp, fam, str(idx)],
                             stdout=subprocess.DEVNULL, stderr=open(errf, "wb"), env=h.env(), cwd=tmp)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "hang"
        return rc, open(log, errors="replace").read() if os.path.exists(log) else "", open(errf, errors="replace").read()

    def run(self, h, bdir, budget):
        d = os.path.join(bdir, "run-%s-%d" % (h.name, self.seed))
        os.makedirs(d)
        with open(os.path.join(d, "ctr"), "wb") as f:
            f.write(b"\0" * 4096)
        p = sh(h.prefix() + [h.bin, "list", self.tier], env=h.env())
        if p.returncode:
            if "unexpected memory mapping" in p.stdout and not h.unit.get("noaslr"):
                h.unit["noaslr"] = True
                p = sh(h.prefix() + [h.bin, "list", self.tier], env=h.env())
            if p.returncode:
                self.harness_errors.append("%s list failed: %s" % (h.name, p.stdout[-500:]))
                return
        total = sum(int(l.split()[1]) for l in p.stdout.split("\n") if len(l.split()) == 2)
        n = max(1, min(h.workers, total))
        ws = [self.spawn(h, d, i, 0) for i in range(n)]
        start = time.time()
        nfail0 = len(self.fails)
        hangs = []
        stop = False
        while any(w for w in ws if w):
            time.sleep(0.05)
            for k, w in enumerate(ws):
                if not w:
                    continue
                self.poll_log(h, w)
                rc = w["p"].poll()
                if rc is None:
                    if w["cur"] and time.time() - w["t"] > h.limit:
                        w["p"].kill()
                        w["p"].wait()
                        self.poll_log(h, w)
                        if w["cur"]:
                            hangs.append(w["cur"])
                        ws[k] = None if (stop or len(hangs) >= 4) else self.respawn(h, d, w)
                    continue
                self.poll_log(h, w)
                if w["done"]:
                    ws[k] = None
                    if rc not in (0, None):    # a report at exit
                        text = open(w["err"], errors="replace").read()
                        self.add_fail(h, None, "at-exit:" + summarise(text, rc), frames(text), "at process exit")
                    continue
                text = open(w["err"], errors="replace").read()
                cur = w["cur"]
                if cur is None:
                    if rc != 0 and ("unexpected memory mapping" in text) and not h.unit.get("noaslr"):
                        h.unit["noaslr"] = True
                    elif rc == 3 or w["gen"] > 40:
                        self.harness_errors.append("%s worker failed outside a case (rc %s): %s" % (h.name, rc, text[-500:]))
                        stop = True
                    else:
                        self.add_fail(h, None, "between-cases:" + summarise(text, rc), frames(text), "between cases")
                elif rc == -9 and "Sanitizer" not in text:
                    hangs.append(cur)    # killed from outside (memory): decide alone
                else:
                    self.add_fail(h, cur, cur[0] + ":crash:" + summarise(text, rc), frames(text), "")
                ws[k] = None if stop else self.respawn(h, d, w)
            if not stop and (len(self.fails) - nfail0 >= 12 or len(hangs) >= 4 or time.time() - start > budget):
                if time.time() - start > budget:
                    self.truncated = True
                stop = True
                for w in ws:    # let running cases end on their own by exhausting the counter
                    pass
                with open(os.path.join(d, "ctr"), "r+b") as f:
                    f.write((1 << 40).to_bytes(8, "little"))
        seen = set()
        for fam, idx in hangs:
            if fam in seen:
                continue
            rc, log, text = self.one(h, d, fam, idx, max(60, h.limit * 2))
            if rc == "hang":
                seen.add(fam)
                self.add_fail(h, (fam, idx), fam + ":hang", "case does not terminate (limit %d s alone)" % max(60, h.limit * 2), "")
            elif rc != 0:
                seen.add(fam)
                self.add_fail(h, (fam, idx), fam + ":crash:" + summarise(text, rc), frames(text), "")
            else:
                for l in log.split("\n"):
                    if l.startswith("F "):
                        head, msg, desc = (l[2:].split("\t") + ["", ""])[:3]
                        self.add_fail(h, (fam, idx), head.split(" ", 1)[1], msg, desc)
                self.inconclusive.append("%s %d took longer than %d s under load, ended alone" % (fam, idx, h.limit))
        if not self.keep:
            shutil.rmtree(d, ignore_errors=True)

    keep = False

    def respawn(self, h, d, w):
        x = self.spawn(h, d, w["i"], w["gen"] + 1)
        x["pos"] = w["pos"]
        return x


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#"):
                continue
            x = json.loads(l)
            if x.get("property") == pid and x.get("status") == "known":
                out.append(x)
    return out


def is_known(f, known):
    for k in known:
        if f["key"] == k["key"] and (not k.get("unit") or k["unit"] == f["unit"]["src"]) and re.search(k.get("match", ""), f["msg"] + "\t" + f["desc"]):
            return k
    return None


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 3
    pid = sys.argv[1]
    conf = json.load(open(os.path.join(VERIF, "checks", "checks.json")))
    if pid not in conf:
        err("unknown property " + pid)
        return 3
    c = conf[pid]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    if tier == "replay":
        replay = json.load(open(sys.argv[3]))
        tier, seed = replay["tier"], replay["seed"]
    if tier not in ("quick", "thorough"):
        err("tier must be quick or thorough")
        return 3
    t0 = time.time()
    base = os.path.join(VERIF, "_build")
    os.makedirs(base, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=pid + "-", dir=base)
    try:
        units = [replay["unit"]] if replay else [u for u in c["units"] if tier == "thorough" or not u.get("thorough_only")]
        hs = [Harness(u, bdir) for u in units]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            built = list(zip(hs, ex.map(lambda h: h.build(), hs)))
        errs = [e for h, e in built if e and not h.unit.get("may_not_compile")]
        if errs:
            for e in errs:
                err(e)
            return 3
        absent = [h.name for h, e in built if e]    # units for uses of the library that it does not promise by itself (a user's own graph type)
        hs = [h for h, e in built if not e]
        if not hs:
            err("nothing could be built for %s" % pid)
            return 3
        tb = time.time() - t0
        r = Runner(pid, tier, seed)
        r.keep = bool(os.environ.get("NWV_KEEP"))
        if replay:
            rc, log, text = r.one(hs[0], bdir, replay["family"], replay["index"], max(60, hs[0].limit * 2))
            print("rc", rc)
            print(log)
            print(text[-60000:])
            return 1 if rc != 0 or "\nF " in "\n" + log else 0
        total_budget = 760 if tier == "quick" else float(os.environ.get("NWV_BUDGET", "14000"))
        rounds, trun = 0, time.time()    # at least a few seconds after compilation
        min_time = float(os.environ.get("NWV_MIN_TIME", c.get("thorough_s", 600))) if tier == "thorough" else float(os.environ.get("NWV_QUICK_TIME", c.get("quick_s", 30)))
        while True:    # again with further seeds until the time is used
            for h in hs:
                tu = time.time()
                r.run(h, bdir, max(20, total_budget - (time.time() - t0)))
                if os.environ.get("NWV_TIMING"):
                    print("  %-28s %.1fs" % (h.name, time.time() - tu), flush=True)
            rounds += 1
            if r.fails or r.harness_errors or (time.time() - t0 > min_time and time.time() - trun > c.get("run_s", 0)):
                break
            r.seed = seed + 1000003 * rounds
        known = load_known(pid)
        edir = os.path.join(VERIF, "evidence")
        rdir = os.path.join(edir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(pid + "-"):
                os.unlink(os.path.join(rdir, f))
        new, seen, hit = [], set(), {}
        for f in r.fails:
            k = is_known(f, known)
            if k:
                hit[k["key"] + k.get("match", "")] = hit.get(k["key"] + k.get("match", ""), 0) + 1
            else:
                new.append(f)
        for k in known:
            print("KNOWN-FINDING: property=%s %s%s" % (pid, k["what"], "" if hit.get(k["key"] + k.get("match", "")) else " (not observed in this run)"))
        shown = 0
        for f in new:
            if f["key"] in seen:
                continue
            seen.add(f["key"])
            shown += 1
            path = os.path.join(rdir, "%s-%d.json" % (pid, shown))
            json.dump({"property": pid, "tier": tier, "seed": f["seed"], "unit": {k: v for k, v in f["unit"].items()}, "family": f["family"], "index": f["index"],
                       "key": f["key"], "message": f["msg"], "case": f["desc"],
                       "how": "python3 bin/check.py %s replay <this file>" % pid}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s: %s [%s]" % (f["key"], f["msg"][:600], f["desc"][:400]))
            if shown >= 8:
                break
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": r.evals, "distinct_nontrivial": len(r.digests), "rule": c["rule"],
                "samples": pick_samples(r.samples),
                "observed": dict(sorted(r.counters.items())),
                "families": {k: {"cases": v[0], "nontrivial": v[1]} for k, v in sorted(r.families.items())},
                "builds": [h.name for h in hs], "inconclusive": r.inconclusive, "truncated": r.truncated, "rounds": rounds,
                "build_s": round(tb, 1),
            },
            "wall_s": round(time.time() - t0, 2),
            "assumptions": c.get("assumptions", []) + ["not compilable against this tree and left out: " + n for n in absent],
            "violations": len(seen),
        }
        json.dump(ev, open(os.path.join(edir, pid + ".json"), "w"), indent=1)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %d inconclusive, build %.1fs, total %.1fs" %
              (pid, tier, seed, r.evals, len(r.digests), len(seen), len(r.inconclusive), tb, time.time() - t0), flush=True)
        if new:
            return 1
        if r.harness_errors:
            for e in r.harness_errors:
                err(e)
            return 3
        if r.evals == 0 or len(r.digests) == 0 or not r.counters:
            err("nothing was observed")
            return 3
        return 0
    finally:
        if not os.environ.get("NWV_KEEP"):
            shutil.rmtree(bdir, ignore_errors=True)


def pick_samples(s):
    by = {}
    for x in sorted(s, key=lambda x: (x["family"], x["index"])):
        by.setdefault(x["family"], []).append(x)
    out = []
    for k in sorted(by):
        out.append(by[k][0])
    return out[:20]


sys.exit(main())
