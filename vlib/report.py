"""Collects what the parts of a check did, writes the evidence file, prints verdict lines."""
import glob, json, os, shutil, subprocess, sys, tempfile, time
from . import build, registry

class Report:
    def __init__(self, pid, tier, seed, cfg):
        self.pid, self.tier, self.seed, self.cfg = pid, tier, seed, cfg
        self.t0 = time.time()
        self.evals = 0
        self.nontrivial = 0
        self.sub = {}
        self.labels = {}
        self.samples = []
        self.viol = []
        self.notes = []
        self.error = None
        self.rdir = os.path.join(build.BUILD, "replay")
        os.makedirs(self.rdir, exist_ok=True)
        os.makedirs(os.path.join(build.BUILD, "tmp"), exist_ok=True)
        for d in glob.glob(os.path.join(build.BUILD, "tmp", "run-*")):       # of runs that were killed
            if os.path.getmtime(d) < time.time() - 7200:
                shutil.rmtree(d, ignore_errors=True)
        self.tmp = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=os.path.join(build.BUILD, "tmp"))

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def thorough(self):
        return self.tier == "thorough"

    def add(self, name, evals, nontrivial, labels=None, samples=()):
        self.evals += evals
        self.nontrivial += nontrivial
        s = self.sub.setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0})
        s["evaluations"] += evals
        s["distinct_nontrivial"] += nontrivial
        for k, v in (labels or {}).items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.samples += list(samples)

    def violation(self, sub, msg, path):
        print("FAIL %s: %s" % (sub, msg))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        sys.stdout.flush()
        self.viol.append((sub, msg, path))

    def run_harness(self, part, opt):
        if "-fsanitize=thread" in part.get("san", ()) and not build.tsan_works():
            part = dict(part, san=[])
            self.notes.append("ThreadSanitizer does not run here: races show by their results alone")
        exe = build.harness(part["harness"], san=part.get("san", build.SAN), extra=part.get("extra", ()), libs=part.get("libs", ()), tool=part.get("tool"))
        tmp = tempfile.mkdtemp(dir=self.tmp)
        out = os.path.join(tmp, "stats.json")
        env = dict(build.ENV, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:handle_abort=0:symbolize=1:max_allocation_size_mb=3000",
                   UBSAN_OPTIONS="print_stacktrace=0", HOME=tmp, VP_SCRATCH=tmp)
        if os.path.exists("/usr/bin/llvm-symbolizer-18"):
            env["ASAN_SYMBOLIZER_PATH"] = "/usr/bin/llvm-symbolizer-18"
        env.update(part.get("env", {}))
        if self.thorough():
            env.update(part.get("thorough_env", {}))
        cmd = [exe, "--id", self.pid, "--seed", str(self.seed), "--tier", self.tier, "--out", out, "--replays", self.rdir, "--tmp", tmp]
        for k in ("only", "scale", "cap", "jobs", "replay"):
            if k in opt:
                cmd += ["--" + k, opt[k]]
        k = registry.QUICK_SCALE.get(self.pid)
        if k and self.tier == "quick" and "scale" not in opt and "replay" not in opt:
            cmd += ["--scale", str(k)]
        if "replay" in opt:
            with open(opt["replay"]) as f:
                first = f.read(200)
            p = subprocess.run(cmd, env=env, cwd=tmp)
            if p.returncode == 1:
                self.viol.append(("replay", "", opt["replay"]))
            return
        try:
            p = subprocess.run(cmd, env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800 if self.tier == "quick" else 7200)
        except subprocess.TimeoutExpired:
            self.error = "harness timed out"
            return
        text = p.stdout.decode("utf8", "replace")
        sys.stdout.write(text)
        sys.stdout.flush()
        if p.returncode not in (0, 1) or not os.path.exists(out):
            self.error = "harness ended with %d" % p.returncode
            return
        with open(out) as f:
            st = json.load(f)
        self.evals += st["evaluations"]
        self.nontrivial += st["distinct_nontrivial"]
        for k, v in st["sub"].items():
            self.sub[k if k not in self.sub else k + " (%s)" % ",".join(part.get("san", build.SAN))] = v
        for k, v in st["labels"].items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.samples += st["samples"]
        for v in st["violations"]:
            self.viol.append((v["sub"], v["message"], v["replay"]))
        if st["capped"]:
            self.notes.append("time cap reached in %s: fewer cases than planned" % part["harness"])
        self.notes += ["unconfirmed: " + x for x in st["flaky"]]
        if self.thorough() and part.get("fuzz", True) and not self.viol and not opt:
            self.run_fuzz(part, exe, env, tmp)

    def run_fuzz(self, part, exe, env, tmp):
        """coverage-guided stage: libFuzzer over the choice sequences of the same harness, eight processes with one corpus"""
        san = list(part.get("san", build.SAN))
        fz = build.harness(part["harness"], san=san + ["-fsanitize=fuzzer-no-link"], extra=list(part.get("extra", ())) + ["-DVP_LIBFUZZER"],
                           libs=list(part.get("libs", ())) + ["-fsanitize=fuzzer"], tool=part.get("tool"))
        secs = int(os.environ.get("VP_FUZZ_SECONDS", "420"))
        corpus = os.path.join(tmp, "corpus")
        os.mkdir(corpus)
        subprocess.run([exe, "--id", self.pid, "--seed", str(self.seed), "--seeds", corpus, "--tmp", tmp], env=env, cwd=tmp, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=900)
        ps = []
        for w in range(8):
            d = os.path.join(tmp, "fuzz%d" % w)
            os.mkdir(d)
            e = dict(env, VP_FUZZ_STATS=os.path.join(d, "stats"), VP_SCRATCH=d)
            log = open(os.path.join(d, "log"), "wb")
            ps.append((d, subprocess.Popen([fz, "-seed=%d" % (self.seed * 8 + w + 1), "-max_total_time=%d" % secs, "-timeout=60", "-rss_limit_mb=3500",
                       "-max_len=20000", "-reload=15", "-print_final_stats=1", "-artifact_prefix=%s/" % d, corpus],
                       env=e, cwd=d, stdout=subprocess.DEVNULL, stderr=log)))
            log.close()
        seen = {}
        for d, p in ps:
            try:
                p.wait(timeout=secs + 300)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if os.path.exists(os.path.join(d, "stats")):
                name = None
                for l in open(os.path.join(d, "stats")):
                    w = l.split()
                    if len(w) == 3:
                        name = w[0]
                        seen.setdefault(name, [0, set()])[0] += int(w[1])
                    elif name:
                        seen[name][1].add(w[0])
        for n, (runs, fps) in sorted(seen.items()):
            self.add(n + " (coverage-guided)", runs, len(fps))
        self.notes.append("coverage-guided stage: %d s on 8 processes, corpus of %d inputs" % (secs, len(os.listdir(corpus))))
        bad = [a for d, _ in ps for k in ("crash-*", "timeout-*") for a in glob.glob(os.path.join(d, k))]
        for a in bad[:4]:
            out = os.path.join(tmp, "fuzzcase.json")
            p = subprocess.run([exe, "--id", self.pid, "--out", out, "--replays", self.rdir, "--tmp", tmp, "--fuzzcase", a], env=env, cwd=tmp,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            sys.stdout.write(p.stdout.decode("utf8", "replace"))
            with open(out) as f:
                st = json.load(f)
            for v in st["violations"]:
                self.viol.append((v["sub"], v["message"], v["replay"]))
            self.notes += ["unconfirmed (coverage-guided): " + x for x in st["flaky"]]
            if self.viol:
                break

    def finish(self, opt):
        self.cleanup()
        if "replay" in opt:
            return 1 if self.viol else 0
        if not opt:
            ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.cfg.get("level", "exploration"),
                  "coverage": {"evaluations": self.evals, "distinct_nontrivial": self.nontrivial, "rule": self.cfg["rule"],
                               "samples": self.samples[:40], "sub_properties": self.sub, "labels": self.labels, "notes": self.notes},
                  "assumptions": self.cfg.get("assumptions", []), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
            d = os.path.join(build.VERIF, "evidence")
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, ".%s.tmp" % self.pid)
            with open(t, "w") as f:
                json.dump(ev, f, indent=1)
            os.replace(t, os.path.join(d, self.pid + ".json"))
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs %s" % (self.pid, self.tier, self.seed, self.evals,
              self.nontrivial, len(self.viol), time.time() - self.t0, "; ".join(self.notes)))
        if self.viol:
            return 1
        if self.error:
            print("CHECK ERROR: " + self.error)
            return 3
        if self.evals == 0:
            print("CHECK ERROR: nothing was explored")
            return 3
        return 0

def known_findings(pid):
    """unrepaired findings of this property: 'finding: property=<id> ...' lines"""
    out = []
    p = os.path.join(build.VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.strip()
                if l.startswith("finding: property=%s " % pid):
                    out.append(l[len("finding: "):])
    return out
