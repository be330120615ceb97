"""The frame every check runs in: tiers, seeds, verdicts, known findings, evidence."""
import argparse, collections, concurrent.futures as cf, hashlib, json, os, random, re, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
KNOWN = os.path.join(VERIF, "known_findings.txt")

from . import build, run


class Inconclusive(Exception):
    pass


class Check:
    def __init__(self, pid, level, rule, assumptions=()):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--only", default="")
        ap.add_argument("--scale", type=float, default=1.0)
        ap.add_argument("--verbose", "-v", action="store_true")
        self.args, _ = ap.parse_known_args()
        self.pid, self.level, self.rule = pid, level, rule
        self.tier = "thorough" if self.args.tier == "thorough" else "quick"
        self.seed = self.args.seed
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.counts = collections.Counter()
        self.samples = []
        self.viol = collections.OrderedDict()
        self.known_hit = collections.OrderedDict()
        self.inconclusive = []
        self.slow = 0
        self.known = self._load_known()
        self.out = os.path.join(VERIF, "out", pid)
        self.hangs = 0
        run.limits()
        self.arena = run.Arena(pid)

    # ---- sizes
    def n(self, quick, thorough):
        return max(1, int((thorough if self.tier == "thorough" else quick) * self.args.scale))

    def rng(self, *salt):
        return random.Random("%s/%s/%s" % (self.pid, self.seed, "/".join(map(str, salt))))

    def want(self, part):
        return not self.args.only or part in self.args.only.split(",")

    # ---- known findings
    def _load_known(self):
        out = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN, encoding="utf-8"):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    # ---- recording
    def saw(self, key=None, nontrivial=True, sample=None, **counts):
        """One evaluated case. key: what makes it distinct (hashed)."""
        self.evaluations += 1
        if nontrivial and key is not None:
            if not isinstance(key, bytes):
                key = repr(key).encode("utf-8", "surrogatepass")
            self.distinct.add(hashlib.blake2b(key, digest_size=8).digest())
        for k, v in counts.items():
            self.counts[k] += v
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def count(self, what, n=1):
        self.counts[what] += n

    def violation(self, key, what, replay):
        """key: stable identification of what failed, matched against the known findings."""
        key = re.sub(r"\s+", "_", key)
        for k, txt in self.known:
            if k == key:
                self.known_hit.setdefault(k, txt)
                return False
        if key in self.viol:
            self.viol[key]["times"] += 1
            return True
        os.makedirs(self.out, exist_ok=True)
        path = os.path.join(self.out, "%s.json" % hashlib.sha256(key.encode()).hexdigest()[:12])
        with open(path, "w") as fh:
            json.dump({"property": self.pid, "key": key, "what": what, "seed": self.seed, "tier": self.tier,
                       "case": replay}, fh, indent=1, default=lambda o: o.decode("utf-8", "backslashreplace")
                      if isinstance(o, (bytes, bytearray)) else repr(o))
        self.viol[key] = {"what": what, "path": path, "times": 1}
        if self.args.verbose:
            print("!!", key, what, path, flush=True)
        return True

    def too_many(self):
        return len(self.viol) >= 25 or self.hangs >= 4

    # ---- running
    def run(self, cmd, cwd, **kw):
        """Run once; a run that hits the time limit is run a second time with a longer one."""
        if self.hangs >= 4:
            # the verdict is known: do not spend minutes on what is still waiting
            kw["timeout"] = min(3, kw.get("timeout", 20))
            return run.run(cmd, cwd, **kw)
        r = run.run(cmd, cwd, **kw)
        if r.timeout:
            self.slow += 1
            self.arena.refill(cwd)
            kw["timeout"] = 3 * kw.get("timeout", 20)
            r2 = run.run(cmd, cwd, **kw)
            if r2.timeout:
                self.hangs += 1
            return r2
        return r

    def pmap(self, fn, items, workers=None):
        """Map in parallel (threads: the work is in child processes), in order, stopping early after too many
        violations."""
        items = iter(items)
        with cf.ThreadPoolExecutor(workers or max(2, (os.cpu_count() or 4))) as ex:
            pending = collections.deque()
            done = False
            while True:
                while not done and len(pending) < 64:
                    if self.too_many():
                        done = True
                        break
                    try:
                        it = next(items)
                    except StopIteration:
                        done = True
                        break
                    pending.append((it, ex.submit(fn, it)))
                if not pending:
                    break
                it, f = pending.popleft()
                yield it, f.result()

    # ---- the end
    def finish(self, min_eval=1):
        wall = time.time() - self.t0
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
                           "rule": self.rule, "samples": self.samples or ["(none)"],
                           "observed": dict(sorted(self.counts.items())),
                           "inconclusive": len(self.inconclusive)},
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=lambda o: o.decode("utf-8", "backslashreplace")
                      if isinstance(o, (bytes, bytearray)) else repr(o))
        self.arena.close()
        for k, txt in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, txt))
        for k, v in self.viol.items():
            print("  %s (x%d): %s" % (k, v["times"], v["what"][:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, v["path"]))
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %d inconclusive, %d slow, %.1f s"
              % (self.pid, self.tier, self.seed, self.evaluations, len(self.distinct), len(self.viol),
                 len(self.inconclusive), self.slow, wall), dict(sorted(self.counts.items())))
        if self.viol:
            sys.exit(1)
        if self.evaluations < min_eval or not self.distinct:
            print("inconclusive: the run observed too little")
            sys.exit(2)
        sys.exit(0)


def main(fn):
    """Entry point of a check script: harness failures are errors (exit 2), never verdicts."""
    # whatever started the check (nohup, a job runner) may ignore or block signals, and programs inherit that
    for n in signal.valid_signals() - {signal.SIGKILL, signal.SIGSTOP, signal.SIGPIPE}:
        if signal.getsignal(n) == signal.SIG_IGN and n != getattr(signal, "SIGXFSZ", None):
            signal.signal(n, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    try:
        fn()
    except SystemExit:
        raise
    except build.BuildError as e:
        print("harness: build failed:", e)
        sys.exit(2)
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
