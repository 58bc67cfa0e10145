"""Comparing the preprocessed token sequence (-E) of the compiler under test with gcc and clang."""
import os, re
import cc as T
from engine import Check, OK, FAIL, DISCARD
import ppmodel

MARK = "zzzCASE"

def tokens(text):
    text = re.sub(r"(?m)^\s*#\s+\d+ .*$", "", text)   # line markers
    return ppmodel.spell(ppmodel.lex(text))

def split_marks(toks):
    out, cur = {}, None
    for t in toks:
        if t.startswith(MARK):
            cur = out.setdefault(int(t[len(MARK):]), [])
        elif cur is not None:
            cur.append(t)
    return out

class PPCheck(Check):
    """case.data: expected tokens or None.  Q_ in the text becomes a per-case prefix."""
    flags = []
    exact = True
    def setup(self, work):
        self.work = work
        self.cc = T.build(work)
    def wrap(self, case, k):
        return "%s%d\n%s\n" % (MARK, k, case.text.replace("Q_", "K%d_" % k))
    def ref(self, argv):
        return T.run(argv, cpu=20)
    def tools(self, src, d):
        gcc = self.ref(["gcc", "-std=c17", "-E", "-P", "-w", "-undef", "-I", d] + self.flags + [src])
        clang = self.ref(["clang", "-std=c17", "-E", "-P", "-w", "-undef", "-I", d] + self.flags + [src])
        cc = T.run([self.cc, "-E", "-I", d] + self.flags + [src], cpu=20)
        return gcc, clang, cc
    def dump(self, kind, case, msg):
        d = os.environ.get("VERIF_DISAGREE")
        if d:
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "%s-%s" % (kind, case.key)), "w").write(case.text + "\n----\n" + msg)
    def prepare(self, d):
        pass
    def evaluate(self, cases, d):
        if not cases:
            return []
        self.prepare(d)
        src = os.path.join(d, "all.c")
        open(src, "w").write("".join(self.wrap(c, k) for k, c in enumerate(cases)))
        gcc, clang, cc = self.tools(src, d)
        res = [None] * len(cases)
        if gcc.rc == 0 and clang.rc == 0 and cc.rc == 0:
            g, l, c = split_marks(tokens(gcc.out)), split_marks(tokens(clang.out)), split_marks(tokens(cc.out))
            for k, case in enumerate(cases):
                if g.get(k) == l.get(k) == c.get(k) and g.get(k) is not None:
                    res[k] = self.verdict(case, k, g[k], l[k], c[k])
        for k, case in enumerate(cases):
            if res[k] is None or res[k][0] != OK:
                res[k] = self.single(case, k, d)
        return res
    def single(self, case, k, d):
        src = os.path.join(d, "one%d.c" % k)
        open(src, "w").write(self.wrap(case, k))
        gcc, clang, cc = self.tools(src, d)
        if gcc.rc != 0 or clang.rc != 0:
            self.dump("rejects", case, gcc.err[:300] + clang.err[:300])
            return DISCARD, "reference rejects: " + (gcc.err or clang.err)[:200]
        if cc.timeout:
            return FAIL, "compiler under test does not terminate"
        if cc.rc != 0:
            if self.maybe_rejects(case, k, tokens(gcc.out), tokens(clang.out)):
                return DISCARD, "references disagree"
            return FAIL, "compiler under test exits %d: %s" % (cc.rc, (cc.out + cc.err)[-300:])
        g, l, c = (split_marks(tokens(x.out)).get(k, []) for x in (gcc, clang, cc))
        return self.verdict(case, k, g, l, c)
    def expected(self, case, k):
        return [t.replace("Q_", "K%d_" % k) for t in case.data] if case.data is not None else None
    def maybe_rejects(self, case, k, g, l):
        return g != l
    def verdict(self, case, k, g, l, c):
        e = self.expected(case, k)
        if g != l or (e is not None and e != g):
            self.dump("disagree", case, "gcc   %s\nclang %s\nmodel %s" % (" ".join(g), " ".join(l), e and " ".join(e)))
            return DISCARD, "references disagree: gcc %s clang %s model %s" % (g, l, e)
        if c != g:
            n = 0
            while n < min(len(c), len(g)) and c[n] == g[n]:
                n += 1
            return FAIL, "token %d differs: expected %s, got %s" % (n, " ".join(g[max(0, n - 3):n + 6]), " ".join(c[max(0, n - 3):n + 6]))
        return OK, ""
