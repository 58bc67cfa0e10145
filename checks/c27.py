"""C27: command lines against the meaning of their options, decided by an equivalent canonical invocation."""
import os, shutil
import cc as T, pptest
from engine import Check, Case, OK, FAIL, DISCARD

MACROS = ["M0", "M1", "M2", "AB", "A", "_x", "X1y", "NULL", "__x86_64__", "__STDC__"]
PREDEF = {"NULL": "(void*)0", "__x86_64__": "1", "__STDC__": "1"}
# (text after NAME on the command line, replacement list)
VALUES = [(None, "1"), ("", ""), ("1", "1"), ("0", "0"), ("42", "42"), ("a=b", "a=b"), ("==", "=="), ('"s p"', '"s p"'), ("(1 + 2)", "(1 + 2)"), ("x y", "x y"),
          ("-1", "-1"), ("0x1fUL", "0x1fUL"), ("'='", "'='"), ("+", "+"), ("-D", "-D"), ("/ *", "/ *"), ("M9", "M9"), ("...", "..."), ('"\\"-o"', '"\\"-o"'), ("1.5e+3", "1.5e+3"), ("#", "#")]
INCS = ["i0", "i1", "i2", "i3/sub", "-odd", "i 5"]
HEADERS = ["h0.h", "h1.h", "h2.h", "sub/h3.h"]
SRCS = ["a.c", "b.c", "c.d.c", "x/y.c", "x/y.d/z.c", "Eo.c", "./w.c", "_.c", "x/../v.c", "-n.c"]
IGNORED = [["-O0"], ["-O1"], ["-O2"], ["-O3"], ["-Os"], ["-O", "2"], ["-O", "-1"], ["-Wall"], ["-Wextra"], ["-W"], ["-Wno-unused"], ["-Werror=c"], ["-std=c99"], ["-std=c17"], ["-std=gnu11"], ["-g"], ["-fPIC"], ["-f", "no-builtin"], ["-fwrapv"],
           ["-fcmodel=small"], ["-fabi=sysv"], ["-f", "abi=sysv"], ["-Llib"], ["-L", "lib"], ["-lm"], ["-l", "c"]]

class Cli(Check):
    prop = "C27"
    technique = "property-based testing: random command lines, outputs compared with a model of the options and with a canonical invocation on the already configured source, with shrinking"
    level_note = "Sampled command lines; the canonical invocation 'cc -c FILE -o OUT' (resp. -S, -E) is the form the repository's tests exercise."
    batch = 8
    quick_cases = 100000
    quick_time = 25.0
    thorough_cases = 4000000
    rule = ("1-3 source files with odd names in several directories, probing ten macros (user, prefix-sharing, predefined) by #ifdef, # and #if, and four headers by quoted and angled includes; options in random order between and after operands, attached or detached: repeated -D NAME, NAME= and NAME=VALUE (values with =, blanks, quotes, operators, dashes), "
            "-U, up to six -I (directories with blanks and dashes), -c, -S, -E, both, or link, -o (last one counts), -MD with -MF and -MT, -fabi=ms, -fcmodel=small, ignored options. A model in Python decides each macro (last -D counts, -U always removes), each header, every file name that may appear and the prerequisites; the "
            "object, assembly, executable or token sequence must equal the canonical invocation's on the source with these decisions written out, and the directory may contain no other file. Malformed command lines (missing argument, unknown option, no input, several inputs with -o, missing input) must exit 1 and leave no output. Non-trivial: at least three options.")
    assumptions = ["POSIX c99: -U removes a macro whatever its position among -D options"]
    def setup(self, work):
        self.cc = T.build(work)
    def generate(self, s):
        L = set()
        opts = []     # groups of arguments that stay together
        # macros
        defs, undefs = {}, set()
        names = s.sample(MACROS, s.range(1, 6))
        for _ in range(s.range(0, 6)):
            n = s.pick(names)
            if s.chance(1, 5):
                undefs.add(n)
                opts.append(s.pick([["-U" + n], ["-U", n]]))
                L.add("-U")
            else:
                v, r = s.pick(VALUES)
                a = n if v is None else n + "=" + v
                opts.append((n, r, s.pick([["-D" + a], ["-D", a]])))
                L.add("-D")
        # headers
        headers = {}
        for h in HEADERS:
            for i in INCS:
                if s.chance(2, 5):
                    headers[i, h] = "int from_%s_%s;\n" % ("".join(c if c.isalnum() else "_" for c in i), "".join(c if c.isalnum() else "_" for c in h))
        iopts = []
        for _ in range(s.range(0, 5)):
            i = s.pick(INCS)
            iopts.append((i, s.pick([["-I" + i], ["-I", i], ["-I./" + i], ["-I" + i + "/"]])))
            L.add("-I")
        # mode
        mode = s.pick(["-c", "-c", "-S", "-E", "link", "-S -c", "-E -c", "-E -S"])
        eff = "-E" if "-E" in mode else "-S" if "-S" in mode else mode
        ms = eff in ("-c", "-S") and s.chance(1, 5)
        nsrc = s.pick([1, 1, 1, 2, 3])
        outs = []
        if nsrc == 1 or eff == "link":
            for _ in range(s.pick([0, 1, 1, 1, 2])):
                outs.append(s.pick(["out.o", "out", "o.dir/q", "o.dir/p.o", "n.s", "prog.x.y", "-c", "a b"]))
        for o in outs:
            opts.append(("out", o, ["-o" + o] if s.chance(1, 2) else ["-o", o]))
            L.add("-o")
        for m in mode.split():
            if m != "link": opts.append([m])
        if ms:
            opts.append(s.pick([["-fabi=ms"], ["-f", "abi=ms"]]))
            L.add("-fabi=ms")
        ign = []
        for _ in range(s.pick([0, 0, 1, 2, 4])):
            o = s.pick(IGNORED)
            if ms and "abi=sysv" in o[-1]: continue
            ign.append(o)
            opts.append(o)
            L.add("ignored")
        srcs = s.sample(SRCS[:9], nsrc)
        md = eff != "link" and s.chance(2, 5)
        mf = mt = None
        if md:
            L.add("-MD")
            opts.append(["-MD"])
            if eff == "-E" or s.chance(1, 2):
                mf = s.pick(["dep", "d.d", "o.dir/dep.x"])
                opts.append(s.pick([["-MF" + mf], ["-MF", mf]]))
            if eff == "-E" or s.chance(1, 2):
                mt = s.pick(["t", "x/t.o", "-weird"])
                opts.append(s.pick([["-MT" + mt], ["-MT", mt]]))
            if mf and nsrc > 1:
                nsrc, srcs = 1, srcs[:1]
        opts += iopts
        opts += [("src", k, [n]) for k, n in enumerate(srcs)]
        order = s.shuffle(opts)
        argv, srcs2, incs, out = [], [], [], None
        for o in order:
            if isinstance(o, list):
                argv += o
                continue
            if o[0] == "src": srcs2.append(srcs[o[1]])
            elif o[0] == "out": out = o[1]
            elif len(o) == 2: incs.append((o[0], o[1][-1][2:] if o[1][-1].startswith("-I") else o[1][-1]))
            else: defs[o[0]] = o[1]
            argv += o[-1]
        srcs = srcs2
        macros = {n: defs.get(n, PREDEF.get(n)) for n in names}
        for n in undefs: macros[n] = None
        bad = None
        if s.chance(1, 8):
            bad = s.pick(["missing argument", "unknown option", "no input", "several with -o", "missing input", "bad suffix", "-M"])
            L.add("bad:" + bad)
            if bad == "missing argument": argv.append(s.pick(["-o", "-D", "-U", "-I", "-MF", "-MT", "-f"]))
            elif bad == "unknown option": argv.insert(0, s.pick(["-Zfoo", "-cfoo", "-Squux", "-Exx", "-MDx", "-MZ", "-Qunused"]))
            elif bad == "no input": argv = [a for a in argv if a not in srcs] if not [a for a in argv if a in srcs and argv.index(a) and argv[argv.index(a) - 1].startswith("-")] else ["-c"]
            elif bad == "several with -o":
                if eff == "link": bad = None
                else: argv = ["-o", "zz"] + [a for a in argv if a not in ("zz",)] + ["a.c", "b.c"]
            elif bad == "missing input": argv.append(s.pick(["gone.c", "x/gone.c"] + (["gone.o", "g/gone.o"] if eff == "link" else [])))
            elif bad == "-M": argv.append("-M")
            else: argv.append(s.pick(["a", "x.h", "c", "", "-", ".", "a.", "a.cc", "a.c ", "a.C"]))
            if bad and eff == "link": L.add("link")
        # source texts: one probing the options, one with the decisions written out
        files, canon, deps = {}, {}, {}
        avail = {}
        search = [i for i, _ in incs]
        spell = dict(reversed(incs))
        for n in SRCS[:9]:
            p = os.path.normpath(n)
            if p in files: continue
            t, c, dp, seen = [], [], [p], set()
            tag = "".join(ch if ch.isalnum() else "_" for ch in p)
            for m in names:
                t.append("#ifdef %s\nchar %s_%s[] = STR(%s);\n#else\nint %s_no_%s;\n#endif\n" % (m, tag, m, m, tag, m))
                c.append("int %s_no_%s;\n" % (tag, m) if macros[m] is None else 'char %s_%s[] = "%s";\n' % (tag, m, macros[m].replace("\\", "\\\\").replace('"', '\\"')))
                if macros[m] in ("1", "0", "42", "0x1fUL", "-1", "(1 + 2)", None):
                    t.append("#if %s > 0\nint %s_pos_%s = 1;\n#endif\n" % (m, tag, m))
                    if macros[m] not in ("0", "-1", None): c.append("int %s_pos_%s = 1;\n" % (tag, m))
            for h in HEADERS:
                hit = next((i for i in search if (i, h) in headers), None)
                if not hit: continue
                w = "<%s>" if s.chance(1, 2) else '"%s"'
                t.append("#include %s\n" % (w % h))
                c.append(headers[hit, h])
                dp.append(os.path.normpath(hit + "/" + h))
            e = ("int " + tag + "_extra = %d;\n") % s.draw(50)
            t.append(e); c.append(e)
            if eff == "link" and n == srcs[0]:
                e = "void _start(void) { %s_extra++; for (;;); }\n" % tag
                t.append(e); c.append(e)
            files[p] = "#define STR_(x) #x\n#define STR(x) STR_(x)\n" + "".join(t)
            canon[p] = "".join(c)
            deps[p] = dp
        # headers are included by each source file: only tentative definitions, static when linking several
        if eff == "link":
            headers = {k: "static " + v for k, v in headers.items()}
            for p in canon:
                for k, v in headers.items():
                    canon[p] = canon[p].replace("\n" + v[7:], "\n" + v)
        text = "// cc %s\n" % " ".join("'%s'" % a for a in argv)
        used = {os.path.normpath(n) for n in srcs}
        text += "".join("//---- %s\n%s" % (n, t) for n, t in sorted(files.items()) if n in used) + "".join("//---- %s/%s\n%s" % (i, h, t) for (i, h), t in sorted(headers.items()))
        return Case(text, nontrivial=len(order) - len(srcs) >= 3, labels=sorted(L | {eff, mode, "sources:%d" % len(srcs)}),
                    data=dict(argv=argv, files=files, canon=canon, deps=deps, headers=headers, srcs=srcs, eff=eff, out=out, ms=ms, md=md, mf=mf, mt=mt, bad=bad))
    def replay_files(self, case):
        return {"cmd.txt": case.text}
    def evaluate(self, cases, d):
        return [self.one(c, os.path.realpath(os.path.join(d, "t%d" % k))) for k, c in enumerate(cases)]
    def tree(self, d):
        r = set()
        for b, _, fs in os.walk(d):
            for f in fs: r.add(os.path.relpath(os.path.join(b, f), d))
        return r
    def one(self, case, d):
        x = case.data
        shutil.rmtree(d, ignore_errors=True)
        e, q = d + "/w", d + "/canon"
        for i in INCS:
            os.makedirs(e + "/" + i + "/sub")
        for i in ("o.dir", "x/y.d"): os.makedirs(e + "/" + i)
        os.makedirs(q)
        for n, t in x["files"].items(): open(os.path.join(e, n), "w").write(t)
        for (i, h), t in x["headers"].items(): open(os.path.join(e, i, h), "w").write(t)
        before = self.tree(e)
        r = T.run([self.cc] + x["argv"], cwd=e, cpu=20)
        new = self.tree(e) - before
        if x["bad"]:
            if r.rc != 1: return FAIL, "malformed command line (%s): status %d" % (x["bad"], r.rc)
            if not (r.out + r.err).strip(): return FAIL, "malformed command line without a message"
            if x["bad"] in ("missing argument", "unknown option", "no input", "several with -o", "-M") and new:
                return FAIL, "malformed command line leaves %s" % sorted(new)
            return OK, ""
        if r.rc != 0: return FAIL, "rejected (%d): %s" % (r.rc, (r.out + r.err)[-300:])
        eff, srcs = x["eff"], x["srcs"]
        ext = {"-c": ".o", "-S": ".s"}.get(eff)
        # canonical results
        want, objs = {}, []
        for k, n in enumerate(srcs):
            src = os.path.join(q, "s%d.c" % k)
            open(src, "w").write(x["canon"][os.path.normpath(n)])
            o = os.path.join(q, "r%d.o" % k)
            if eff == "-E": continue
            c = T.run([self.cc] + (["-fabi=ms"] if x["ms"] else []) + [src, "-S" if eff == "-S" else "-c", "-o", o], cwd=q, cpu=20)
            if c.rc != 0: return DISCARD, "canonical invocation fails: " + (c.out + c.err)[-200:]
            objs.append(o)
            if eff != "link":
                want[os.path.normpath(x["out"] if x["out"] is not None else os.path.basename(n)[:-2] + ext)] = o
        if eff == "link":
            c = T.run([self.cc] + objs + ["-o", q + "/prog"], cwd=q, cpu=20)
            if c.rc != 0: return DISCARD, "canonical link fails: " + (c.out + c.err)[-200:]
            want[os.path.normpath(x["out"] or "a.out")] = q + "/prog"
        files = set(want)
        if eff == "-E":
            if x["out"] is not None: files.add(os.path.normpath(x["out"]))
        dep = {}
        if x["md"]:
            for n in srcs:
                o = x["out"] if x["out"] is not None else os.path.basename(n)[:-2] + (ext or ".o")
                b, t = os.path.split(o)
                k = t.rfind(".")
                dep[os.path.normpath(x["mf"] or os.path.join(b, (t[:k] if k > 0 else t) + ".d"))] = (x["mt"] or o, n)
            files |= set(dep)
        if new != files:
            return FAIL, "files written: %s, expected %s" % (sorted(new), sorted(files))
        for f, o in want.items():
            if open(os.path.join(e, f), "rb").read() != open(o, "rb").read():
                return FAIL, "%s differs from the canonical invocation's" % f
        if eff == "-E":
            got = open(os.path.join(e, os.path.normpath(x["out"]))).read() if x["out"] is not None else r.out
            if x["out"] is not None and r.out.strip(): return FAIL, "-E -o writes to standard output"
            a = []
            for n in srcs: a += pptest.tokens(x["canon"][os.path.normpath(n)])
            b = pptest.tokens(got)
            if a != b:
                k = next((i for i, (p, z) in enumerate(zip(a, b)) if p != z), min(len(a), len(b)))
                return FAIL, "token %d: expected %s, got %s" % (k, " ".join(a[max(0, k - 4):k + 3]), " ".join(b[max(0, k - 4):k + 3]))
        for f, (t, n) in dep.items():
            h, _, p = open(os.path.join(e, f)).read().partition(":")
            if h != t: return FAIL, "the target in %s is %s, not %s" % (f, h, t)
            if "i 5/" in p: continue
            got = [os.path.normpath(w) for w in p.split()]
            if sorted(got) != sorted(x["deps"][os.path.normpath(n)]):
                return FAIL, "prerequisites in %s: %s, expected %s" % (f, got, x["deps"][os.path.normpath(n)])
        return OK, ""

CHECK = Cli()
