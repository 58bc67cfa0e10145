"""Programs rich in displacements, immediates, symbol offsets, names and frame sizes (for object-file checks; not executed)."""
EDGES = [0, 1, -1, 2, 5, 7, 8, 15, 16, 63, 64, 100, 127, 128, 129, -127, -128, -129, 255, 256, 257, 0x7fff, 0x8000, 0x8001, 0xffff, 0x10000, -0x8000, -0x8001, 0x7fffffff, 0x80000000, 0x80000001,
         0xffffffff, 0x100000000, -0x80000000, -0x80000001, 0x7fffffffffffffff, -0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xffffffff80000000, 0xffffffff7fffffff, 0x1234, 0xdeadbeef, 0x123456789abcdef0]
SIZES = [1, 3, 8, 60, 100, 110, 119, 120, 121, 126, 127, 128, 129, 130, 136, 144, 200, 250, 255, 256, 257, 1000, 4095, 4096, 4097, 32760, 32767, 32768, 65536, 100000, 1000000]
TYPES = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "_Bool", "float", "double", "char *", "int *"]
OPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&&", "||"]

def const(s):
    v = s.pick(EDGES) if s.chance(3, 4) else s.range(-(1 << 33), 1 << 33) if s.chance(1, 2) else s.draw(1 << 64)
    if v < 0:
        return "(%dL)" % v if s.chance(1, 2) or v < -0x7fffffff else "(%d)" % v
    suf = "" if v < 1 << 63 else "u"
    return s.pick(["%d%s", "0x%x%s"]) % (v, suf + s.pick(["", "", "l", "ul"] if not suf else ["", "l"]))

def name(s, k):
    n = s.weighted([(6, 0), (1, 30), (1, 62), (1, 63), (1, 64), (1, 100), (1, 300)])
    base = "@%s%d" % (s.pick(["v", "rax_", "st", "L", "x", "data", "text", "eax", "_", "section", "g\u00e9"]), k)
    return base + s.pick("abcXYZ_09") * n

def generate(s):
    """-> (text with @, labels)"""
    L = set()
    out, objs, arrs = [], [], []
    for k in range(s.range(1, 6)):
        n, t = name(s, k), s.pick(TYPES)
        if len(n) > 50: L.add("long-name")
        m = s.draw(7)
        q = s.pick(["", "", "static ", "extern "])
        if m < 3:
            out.append("%s%s %s;" % (q, t, n) if q == "extern " or s.chance(1, 2) or "*" in t else "%s%s %s = %s;" % (q, t, n, const(s)))
            objs.append((n, t))
        elif m < 5:
            z = s.pick(SIZES)
            i = "" if q == "extern " or s.chance(1, 2) else " = { [%d] = %s }" % (s.range(0, z - 1), "0" if "*" in t else const(s))
            out.append("%s%s %s[%d]%s;" % (q, t, n, z, i))
            arrs.append((n, t))
        elif m < 6:
            out.append("static const char %s[] = \"%s\";" % (n, "".join("\\%03o" % s.draw(256) if s.chance(1, 2) else s.pick("az09 ;:#/,.%$@()").replace("@", "!") for _ in range(s.range(0, 40)))))
            arrs.append((n, "char"))
        else:
            out.append("%s%s %s(%s);" % ("" if s.chance(1, 2) else "extern ", "int", n, s.pick(["int", "void", "", "int, ..."])))
    for k, (n, t) in enumerate(list(arrs)):
        if s.chance(1, 2):
            t = t.replace("const ", "")
            off = s.pick([0, 1, 5, -3, 127, 128, -128, -129, 255, 4096, 1 << 20, -(1 << 20)])
            if s.chance(1, 6):
                off = s.pick([1 << 31, (1 << 31) - 1, -(1 << 31), -(1 << 31) - 1, 1 << 32, (1 << 32) + 3, (1 << 40) + 1, -(1 << 35)])
                L.add("far-symbol-offset")
            out.append("%sconst %s *@pp%d = %s + %d;" % (s.pick(["", "static "]), t, k, n, off) if "*" not in t else "void *@pp%d = %s + %d;" % (k, n, off))
            L.add("symbol-offset")
    for f in range(s.range(1, 3)):
        z, pt = s.pick(SIZES), s.pick(TYPES)
        out.append("struct @S%d { char pad[%d]; %s m; char more[%d]; %s n; };" % (f, z, pt, s.pick(SIZES), s.pick(TYPES)))
        args = ["%s a%d" % (s.pick(TYPES), k) for k in range(s.pick([0, 1, 2, 6, 7, 12, 20]))]
        body = ["struct @S%d *sp%s;" % (f, "")]
        vars = []
        for k in range(s.range(1, 5)):
            t = s.pick(TYPES)
            if s.chance(1, 2):
                body.append("char pad%d[%d];" % (k, s.pick(SIZES)))
                L.add("padded-frame")
            body.append("%s l%d;" % (t, k))
            vars.append(("l%d" % k, t))
        if s.chance(1, 3):
            body.append("struct @S%d loc;" % f)
            vars.append(("loc.m", pt))
        if args:
            vars += [(a.split()[-1], " ".join(a.split()[:-1])) for a in args if not a.startswith(("char *", "int *"))] 
            vars = [(n.lstrip("*"), t) for n, t in vars]
        vars.append(("sp->m", pt))
        vars += objs
        L.add("frame-displacement")
        for k in range(s.range(1, 12)):
            m = s.draw(12)
            (n, t), (n2, t2) = s.pick(vars), s.pick(vars)
            ptr, fl = "*" in t, t in ("float", "double")
            if m < 4 and not ptr:
                op = s.pick(["=", "+=", "-=", "*=", "/="] + ([] if fl else ["&=", "|=", "^=", "<<=", ">>=", "%="]))
                c = const(s) if op not in ("<<=", ">>=") else str(s.draw(8))
                if op in ("/=", "%="): c = str(s.pick([1, 2, 3, 127, 128, 0x7fffffff, 65537]))
                body.append("%s %s %s;" % (n, op, c))
            elif m < 6 and not ptr and "*" not in t2:
                op = s.pick(OPS)
                if (fl or t2 in ("float", "double")) and op in ("%", "&", "|", "^", "<<", ">>"): op = "+"
                body.append("%s = %s %s %s;" % (n, n2, op, s.pick([n2, const(s) if op not in ("<<", ">>", "/", "%") else "3"])))
            elif m < 7 and ptr:
                body.append("%s %s %d;" % (n, s.pick(["+=", "-="]), s.pick([1, 2, 127, 128, 300, 1 << 20])))
            elif m < 8:
                body.append("if (%s) %s = (%s)%s; else goto end;" % (n, n2, t2, "0" if "*" in t2 else n) if not ptr else "if (%s) { %s++; } " % (n, n))
            elif m < 9 and not ptr and not fl:
                body.append("switch (%s) { case %d: %s = 1; break; case %s: return 4; default: ; }" % (n, s.pick([3, 4, 127]), n, s.pick(["128", "255", "-1", "100000", "0x7fffffff", "5"])))
            elif m < 10 and arrs:
                a, at = s.pick(arrs)
                i = s.pick([0, 1, 7, 127, 128, 200, 1 << 16])
                if "const" in [x for x in out if a in x][0]:
                    body.append("%s = (%s)%s[%d];" % (n, t, a, i) if not ptr else "%s++;" % n)
                else:
                    body.append("%s[%d]%s;" % (a, i, s.pick(["++", "--"])))
            elif m < 11:
                body.append("sp->more[%s] = 1; sp++;" % s.pick(["0", "3", "120", "1000"]))
            else:
                body.append("for (int i = 0; i < %s; i++) %s;" % (s.pick(["3", "127", "128", "1000"]), "%s++" % n))
        body.append("end: return %s;" % s.pick(["0", "1", "(int)" + const(s), "-1"]))
        out.append("%sint @fn%d(%s) {\n\t%s\n}" % (s.pick(["", "", "static "]), f, ", ".join(args) or "void", "\n\t".join(body)))
    return "\n".join(out) + "\n", L
