"""Minimal ELF64 relocatable reader and normalised disassembly."""
import re, struct
import cc as T

R_64, R_PC32, R_PLT32, R_32, R_32S = 1, 2, 4, 10, 11

class Sec:
    __slots__ = ("idx", "name", "type", "flags", "addr", "off", "size", "link", "info", "align", "entsize", "data", "relocs")

class Sym:
    __slots__ = ("name", "bind", "type", "shndx", "value", "size")

class Bad(Exception):
    pass

class Obj:
    """Raises Bad when the file is not a well-formed ELF64 x86-64 relocatable object."""
    def __init__(self, path):
        b = open(path, "rb").read()
        self.b = b
        def need(c, m):
            if not c:
                raise Bad(m)
        need(len(b) >= 64 and b[:7] == b"\x7fELF\x02\x01\x01", "bad ELF identification")
        (ty, mach, ver, entry, phoff, shoff, flags, ehs, phes, phn, shes, shn, shstr) = struct.unpack_from("<HHIQQQIHHHHHH", b, 16)
        need(ty == 1 and mach == 62 and ver == 1 and ehs == 64, "bad ELF header")
        need(shes == 64 and shoff + 64 * shn <= len(b) and shstr < shn, "bad section header table")
        self.secs = []
        for i in range(shn):
            s = Sec()
            (nm, s.type, s.flags, s.addr, s.off, s.size, s.link, s.info, s.align, s.entsize) = struct.unpack_from("<IIQQQQIIQQ", b, shoff + 64 * i)
            s.idx, s.name, s.relocs = i, nm, []
            need(s.type in (0, 8) or s.off + s.size <= len(b), "section data outside the file")
            need(s.align & (s.align - 1) == 0, "section alignment is not a power of two")
            s.data = b[s.off:s.off + s.size] if s.type not in (0, 8) else b"\0" * s.size
            self.secs.append(s)
        names = self.secs[shstr].data
        def string(tab, o):
            need(o < len(tab) or o == 0, "string offset outside the table")
            e = tab.find(b"\0", o)
            need(e >= 0 or not tab, "string not terminated")
            return tab[o:e].decode("utf-8", "surrogateescape") if tab else ""
        for s in self.secs:
            s.name = string(names, s.name)
        self.syms = []
        tabs = [s for s in self.secs if s.type == 2]
        need(len(tabs) <= 1, "several symbol tables")
        for s in tabs:
            need(s.entsize == 24 and s.size % 24 == 0, "bad symbol table")
            st = self.secs[s.link].data
            for k in range(s.size // 24):
                y = Sym()
                nm, info, other, y.shndx, y.value, y.size = struct.unpack_from("<IBBHQQ", s.data, 24 * k)
                y.name, y.bind, y.type = string(st, nm), info >> 4, info & 15
                need((y.bind == 0) == (k < s.info), "local symbols must precede sh_info")
                need(y.shndx < shn or y.shndx >= 0xff00, "symbol section out of range")
                if 0 < y.shndx < shn:
                    need(y.value <= self.secs[y.shndx].size, "symbol value outside its section")
                self.syms.append(y)
        for s in self.secs:
            if s.type == 4:
                need(s.entsize == 24 and s.size % 24 == 0 and 0 < s.info < shn and self.secs[s.link].type == 2, "bad relocation section")
                for k in range(s.size // 24):
                    off, info, add = struct.unpack_from("<QQq", s.data, 24 * k)
                    sy = info >> 32
                    need(sy < len(self.syms), "relocation symbol out of range")
                    w = 8 if info & 0xffffffff == R_64 else 4
                    need(off + w <= self.secs[s.info].size, "relocation outside its section")
                    self.secs[s.info].relocs.append((off, info & 0xffffffff, sy, add))
                self.secs[s.info].relocs.sort()
    def sec(self, name):
        for s in self.secs:
            if s.name == name:
                return s
        return None
    def target(self, sy, add):
        """Relocation target: ('sym', name, add) or ('sec', section name, offset)"""
        y = self.syms[sy]
        if y.bind != 0 or y.shndx == 0:
            return ("sym", y.name, add)
        return ("sec", self.secs[y.shndx].name, y.value + add)

LINE = re.compile(r"^\s*([0-9a-f]+):\t([0-9a-f ]+?)\s*(?:\t(.*))?$")

def clean(t):
    return re.sub(r"^((?:sh|sa|ro|rc)[lr]\w*) (?=%|\$1,|[^ ]*\([^,]*$)(?:\$1,)?", r"\1 $0x1,", re.sub(r"\s+", " ", re.sub(r"\s*(<.*>|#.*)\s*$", "", t)).strip())

def disassemble(path):
    """[(offset, length, text)] of .text"""
    r = T.run(["objdump", "-d", "-w", "-j", ".text", "--insn-width=16", path], cpu=60)
    if r.rc != 0:
        raise Bad("objdump: " + r.err)
    out = []
    for l in r.out.split("\n"):
        m = LINE.match(l)
        if m:
            n = len(m.group(2).split())
            out.append((int(m.group(1), 16), n, clean(m.group(3) or "")))
    return out

JUMP = re.compile(r"^(j\w+|call\w*|loop\w*) ([0-9a-f]+)$")

class Norm:
    """Position-independent form of an object: instructions with symbolic targets, data, symbols, relocations."""
    def __init__(self, path):
        o = self.o = Obj(path)
        text = o.sec(".text")
        ins = disassemble(path) if text and text.size else []
        self.index = {a: i for i, (a, n, t) in enumerate(ins)}
        if text:
            self.index[text.size] = len(ins)
        rel = {}
        for r in text.relocs if text else []:
            rel[r[0]] = r
        self.ins = []
        used = set()
        for a, n, t in ins:
            rs = [rel[k] for k in range(a, a + n) if k in rel]
            used.update(r[0] for r in rs)
            m = JUMP.match(t)
            if m and rs and rs[0][1] in (R_PC32, R_PLT32):
                r = rs[0]
                self.ins.append("%s %s" % (m.group(1), self.where(o.target(r[2], r[3] + (a + n - r[0])))))
            elif m:
                self.ins.append("%s %s" % (m.group(1), self.where(("sec", ".text", int(m.group(2), 16)))))
            elif rs:
                s = t.replace("movabs ", "mov ")
                for r in rs:
                    s += " {%s %s}" % ({R_64: "64", R_32: "32", R_32S: "32s", R_PC32: "pc32", R_PLT32: "pc32"}.get(r[1], str(r[1])), self.where(o.target(r[2], r[3] + (a + n - r[0] if r[1] in (R_PC32, R_PLT32) else 0))))
                self.ins.append(s)
            else:
                self.ins.append(t.replace("movabs ", "mov "))
        if len(used) != len(rel):
            raise Bad("relocation outside any instruction")
        self.syms = {}
        self.undef = set()
        for y in o.syms[1:]:
            if y.type in (3, 4) or y.name.startswith(".L"):
                continue
            if y.shndx == 0:
                self.undef.add(y.name)
            else:
                w = self.where(("sec", o.secs[y.shndx].name, y.value)) if y.shndx < 0xff00 else "abs %d" % y.value
                self.syms.setdefault(y.name, []).append((y.bind, w))
        self.data = {}
        self.datarel = {}
        for s in o.secs:
            if s.flags & 2 and s.name != ".text" and s.size:
                self.data[s.name] = s.data if s.type != 8 else b"\0" * s.size
                self.datarel[s.name] = [(r[0], r[1], self.where(o.target(r[2], r[3]))) for r in s.relocs]
    def where(self, t):
        if t[0] == "sym":
            return "%s%+d" % (t[1], t[2])
        if t[1] == ".text":
            i = self.index.get(t[2])
            return "text[%s]" % i if i is not None else "text+%d (inside an instruction)" % t[2]
        return "%s+%d" % (t[1], t[2])

def compare(a, b):
    """First difference between two Norm objects, or None."""
    for i, (x, y) in enumerate(zip(a.ins, b.ins)):
        if x != y:
            return "instruction %d: %s / %s" % (i, x, y)
    if len(a.ins) != len(b.ins):
        return "%d / %d instructions" % (len(a.ins), len(b.ins))
    for k in sorted(set(a.data) | set(b.data)):
        x, y = a.data.get(k, b""), b.data.get(k, b"")
        if x != y:
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return "section %s differs at byte %d (sizes %d, %d)" % (k, i, len(x), len(y))
        if a.datarel.get(k) != b.datarel.get(k):
            return "relocations of %s differ: %s" % (k, next(iter(set(a.datarel[k]) ^ set(b.datarel[k])), "order"))
    if a.undef != b.undef:
        return "undefined symbols differ: %s" % sorted(a.undef ^ b.undef)[:4]
    for k in sorted(set(a.syms) | set(b.syms)):
        if sorted(a.syms.get(k, [])) != sorted(b.syms.get(k, [])):
            return "symbol %s: %s / %s" % (k, a.syms.get(k), b.syms.get(k))
    return None
