"""Property-based testing engine: recorded choices, shrinking, parallel batches, evidence.

Every random decision of every generator goes through Source.draw, so a case is a
list of integers; shrinking edits that list and a replay file stores it."""
import hashlib, json, multiprocessing as mp, os, random, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Overrun(Exception):
    pass

class Source:
    """Source of choices. draw(n) -> [0,n); 0 is by convention the simplest choice."""
    __slots__ = ("choices", "pos", "rng", "prefix", "limit")
    def __init__(self, seed=None, prefix=None, limit=200000):
        self.choices = []
        self.pos = 0
        self.rng = random.Random(seed) if seed is not None else None
        self.prefix = prefix
        self.limit = limit
    def draw(self, n):
        if n <= 1:
            return 0
        if self.prefix is not None:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                if v >= n:
                    v = v % n
            else:
                v = 0
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        if self.pos > self.limit:
            raise Overrun()
        self.choices.append(v)
        return v
    # helpers, all built on draw
    def chance(self, num, den):
        """True with probability num/den; False is the simple choice."""
        return self.draw(den) >= den - num
    def pick(self, seq):
        return seq[self.draw(len(seq))]
    def range(self, lo, hi):
        return lo + self.draw(hi - lo + 1)
    def weighted(self, pairs):
        tot = sum(w for w, _ in pairs)
        k = self.draw(tot)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError
    def bits(self, n):
        v = 0
        while n > 0:
            k = min(n, 16)
            v = (v << k) | self.draw(1 << k)
            n -= k
        return v
    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq))))
        return out
    def shuffle(self, seq):
        return self.sample(seq, len(seq))

class Case:
    """text: human readable; nontrivial: bool; labels: classification; data: anything."""
    __slots__ = ("text", "nontrivial", "labels", "data", "choices", "key")
    def __init__(self, text, nontrivial=True, labels=(), data=None):
        self.text, self.nontrivial, self.labels, self.data = text, nontrivial, tuple(labels), data
        self.choices = None
        self.key = None

OK, FAIL, DISCARD = "ok", "fail", "discard"

class Check:
    """Subclass per property."""
    prop = None
    level = "exploration"
    technique = "property-based differential testing"
    level_note = "Random search within the generator's bounds; no exhaustiveness is claimed."
    rule = ""
    batch = 16                 # cases per batch
    quick_cases = 2000
    thorough_cases = 40000
    quick_time = 35.0          # stop starting batches after this long (coverage then smaller, reported)
    thorough_time = 780.0
    assumptions = []
    shrink_time = 60.0
    workers = 8
    def setup(self, work):     # once, in parent, before forking workers
        pass
    def generate(self, src):   # -> Case
        raise NotImplementedError
    def evaluate(self, cases, work):   # -> list of (status, message)
        raise NotImplementedError
    def pinned(self, work):    # explicit regression inputs -> list of (name, status, message)
        return []
    def known(self, work):     # -> list of (finding id, still_fails: bool, text)
        return []
    def replay_files(self, case):   # name -> content, for the replay directory
        return {}

def seed_for(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")

def gen_case(check, seed=None, prefix=None):
    src = Source(seed=seed, prefix=prefix)
    case = check.generate(src)
    if case is None:
        return None
    case.choices = src.choices
    case.key = hashlib.sha1(case.text.encode("utf-8", "surrogateescape")).hexdigest()[:16]
    return case

def _run_batch(check, base_seed, tier, idx, work):
    t0 = time.time()
    cases = []
    gen_discards = 0
    for k in range(check.batch):
        try:
            c = gen_case(check, seed=seed_for(base_seed, check.prop, idx, k))
        except Overrun:
            c = None
        if c is None:
            gen_discards += 1
        else:
            cases.append(c)
    d = os.path.join(work, "b%d" % idx)
    os.mkdir(d)
    try:
        res = check.evaluate(cases, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    assert len(res) == len(cases)
    out = []
    for c, (st, msg) in zip(cases, res):
        out.append((c.key, c.nontrivial, c.labels, st, msg,
                    c.choices if st == FAIL else None,
                    c.text if (st == FAIL or (idx < 3 and len(c.text) < 6000)) else None))
    return idx, gen_discards, out, time.time() - t0

_G = {}
def _worker(args):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        return ("r", _run_batch(_G["check"], _G["seed"], _G["tier"], args, _G["work"]))
    except Exception:
        return ("e", traceback.format_exc())

def shrink(check, choices, work, budget, msg0, log=lambda s: None):
    """Delete blocks, zero and lower values while the case still fails."""
    deadline = time.time() + budget
    n = [0]
    def fails(ch):
        if time.time() > deadline:
            return None
        n[0] += 1
        try:
            c = gen_case(check, prefix=ch)
        except Overrun:
            return None
        except Exception:
            return None
        if c is None:
            return None
        d = tempfile.mkdtemp(dir=work)
        try:
            st, msg = check.evaluate([c], d)[0]
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if st == FAIL:
            return c
        return None
    best = list(choices)
    best_case = None
    seen = set()
    def attempt(ch):
        nonlocal best, best_case
        t = tuple(ch)
        if t in seen:
            return False
        seen.add(t)
        c = fails(ch)
        if c is None:
            return False
        new = list(c.choices)
        while new and new[-1] == 0:
            new.pop()
        if (len(new), new) < (len(best), best):
            best, best_case = new, c
            return True
        return False
    attempt(best)
    improved = True
    while improved and time.time() < deadline:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < deadline:
            i = len(best) - size
            while i >= 0 and time.time() < deadline:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                    i = min(i, len(best)) - 1 if size == 1 else min(i, len(best) - size)
                else:
                    i -= max(1, size // 2) if size > 1 else 1
            size //= 2
        for size in (8, 4, 2, 1):
            for i in range(0, len(best), size):
                if time.time() > deadline:
                    break
                if i < len(best) and any(best[i:i + size]):
                    if attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                        improved = True
        for i in range(len(best)):
            if time.time() > deadline:
                break
            while i < len(best) and best[i] > 1:
                if attempt(best[:i] + [best[i] // 2] + best[i + 1:]):
                    improved = True
                elif attempt(best[:i] + [best[i] - 1] + best[i + 1:]):
                    improved = True
                else:
                    break
    log("shrink: %d attempts, %d -> %d choices" % (n[0], len(choices), len(best)))
    return best, best_case

def confirm(check, choices, work, times=3):
    msgs = []
    for _ in range(times):
        c = gen_case(check, prefix=choices)
        if c is None:
            return None
        d = tempfile.mkdtemp(dir=work)
        try:
            st, msg = check.evaluate([c], d)[0]
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if st != FAIL:
            return None
        msgs.append(msg)
    return c, msgs[0]

def write_replay(check, case, msg, extra=None):
    rd = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    h = hashlib.sha1((check.prop + case.text).encode("utf-8", "surrogateescape")).hexdigest()[:10]
    path = os.path.join(rd, "%s-%s.json" % (check.prop, h))
    with open(path, "w") as f:
        json.dump(dict(property=check.prop, choices=case.choices, message=msg, text=case.text,
                       rerun="python3 /verif/check.py %s --replay %s" % (check.prop, path)), f, indent=1)
    for name, content in (check.replay_files(case) or {}).items():
        with open(os.path.join(rd, "%s-%s-%s" % (check.prop, h, name)), "w", errors="surrogateescape") as f:
            f.write(content)
    return path

def write_evidence(check, tier, seed, cov, wall, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", check.prop + ".json")
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(dict(property=check.prop, tier=tier, seed=seed, level=check.level, coverage=cov,
                       assumptions=list(check.assumptions), wall_s=round(wall, 2), violations=violations), f, indent=1)
    os.replace(tmp, path)

def run(check, tier, seed, cases=None, tlimit=None, stop_first=True, verbose=False):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % check.prop)
    violations = []
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=check.rule, samples=[])
    try:
        check.tier = tier
        check.seed = seed
        try:
            check.setup(work)
        except BuildError as e:
            # The tree does not build: no verdict about the property is possible.
            print("ERROR: cannot build /repo: %s" % e)
            return 2
        npin = 0
        for name, st, msg in check.pinned(work):
            npin += 1
            if st == FAIL:
                c = Case("pinned regression input %s\n%s" % (name, msg))
                c.choices = None
                violations.append((write_replay(check, c, "pinned %s: %s" % (name, msg)), msg))
        known_lines = []
        for kid, still, text in check.known(work):
            if still:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (check.prop, text))
        for l in known_lines:
            print(l)
        total = cases or (check.quick_cases if tier == "quick" else check.thorough_cases)
        limit = tlimit or (check.quick_time if tier == "quick" else check.thorough_time)
        nb = (total + check.batch - 1) // check.batch
        _G.update(check=check, seed=seed, tier=tier, work=work)
        distinct = set()
        labels = {}
        stats = dict(ok=0, fail=0, discard=0, gen_discard=0)
        discard_reasons = {}
        failures = []
        errors = []
        t1 = time.time()
        done_batches = 0
        if not (violations and stop_first):
            with mp.get_context("fork").Pool(check.workers) as pool:
                pend = []
                nxt = 0
                stop = False
                results = []
                import collections
                q = collections.deque()
                while True:
                    while not stop and nxt < nb and len(q) < check.workers * 2 and time.time() - t1 < limit:
                        q.append(pool.apply_async(_worker, (nxt,)))
                        nxt += 1
                    if not q:
                        break
                    kind, r = q.popleft().get()
                    if kind == "e":
                        errors.append(r)
                        stop = True
                        continue
                    idx, gd, out, dt = r
                    done_batches += 1
                    stats["gen_discard"] += gd
                    for key, nontriv, labs, st, msg, choices, text in out:
                        cov["evaluations"] += 1
                        stats[st] += 1
                        if st != DISCARD and nontriv:
                            distinct.add(key)
                        if st == DISCARD:
                            m = (msg or "?")[:60]
                            discard_reasons[m] = discard_reasons.get(m, 0) + 1
                        for l in labs:
                            labels[l] = labels.get(l, 0) + 1
                        if text is not None and st == OK and nontriv and len(cov["samples"]) < 3:
                            cov["samples"].append(text[:4000])
                        if st == FAIL:
                            failures.append((choices, msg, text))
                            if stop_first:
                                stop = True
        if errors:
            for e in errors[:3]:
                print("ERROR: machinery failure\n" + e)
            return 3
        cov["distinct_nontrivial"] = len(distinct)
        cov["labels"] = dict(sorted(labels.items()))
        cov["outcomes"] = stats
        if discard_reasons:
            cov["discard_reasons"] = discard_reasons
        cov["pinned_inputs"] = npin
        cov["batches"] = "%d of %d" % (done_batches, nb)
        unconfirmed = 0
        # Keep the shortest failing case; shrink it; confirm.
        failures.sort(key=lambda x: len(x[0]))
        for choices, msg, text in failures[: (3 if stop_first else 12)]:
            conf = confirm(check, choices, work)
            if conf is None:
                unconfirmed += 1
                continue
            sm, case = shrink(check, choices, work, check.shrink_time if not violations else 20, msg)
            conf2 = confirm(check, sm, work)
            if conf2 is None:
                conf2 = conf
            case, m = conf2
            violations.append((write_replay(check, case, m), m))
            if verbose:
                print("---- shrunk case\n%s\n---- %s" % (case.text, m))
            if stop_first:
                break
        cov["unconfirmed_failures"] = unconfirmed
        if not cov["samples"]:
            cov["samples"] = ["(no sample: stopped before a passing non-trivial case)"]
        extra = getattr(check, "extra_coverage", None)
        if extra:
            cov.update(extra())
        write_evidence(check, tier, seed, cov, time.time() - t0, len(violations))
        for path, m in violations:
            print("violating behaviour: " + str(m)[:2000])
            print("VIOLATION property=%s replay=%s" % (check.prop, path))
        print("%s %s: %d cases (%d distinct non-trivial), %d discarded, %d violations, %.1fs [%s]" % (
            check.prop, tier, cov["evaluations"], cov["distinct_nontrivial"], stats["discard"],
            len(violations), time.time() - t0, cov["batches"]))
        if verbose:
            print(json.dumps(cov["labels"], indent=0)[:3000]); print(discard_reasons, stats)
        return 1 if violations else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

class BuildError(Exception):
    pass
