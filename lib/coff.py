"""Strict COFF x86-64 object reader with a position-independent normal form (see elf.Norm)."""
import os, re, struct
import cc as T, elf
from elf import Bad

ADDR64, ADDR32, ADDR32NB, REL32, SIGN32 = 1, 2, 3, 4, 0x11
KIND = {ADDR64: "64", ADDR32: "32", SIGN32: "32", REL32: "pc32"}

class Sec:
    __slots__ = ("idx", "name", "size", "data", "chars", "align", "relocs")

class Sym:
    __slots__ = ("name", "sec", "value", "cls", "type")

class Obj:
    def __init__(self, path):
        b = self.b = open(path, "rb").read()
        def need(c, m):
            if not c:
                raise Bad(m)
        need(len(b) >= 20, "no COFF header")
        mach, nsec, stamp, symp, nsym, opt, chars = struct.unpack_from("<HHIIIHH", b, 0)
        need(mach == 0x8664 and opt == 0, "bad COFF header")
        need(20 + 40 * nsec <= len(b), "section table outside the file")
        need(symp + 18 * nsym + 4 <= len(b) and (symp >= 20 + 40 * nsec or not nsym), "symbol table outside the file")
        st = symp + 18 * nsym
        stsize = struct.unpack_from("<I", b, st)[0]
        need(4 <= stsize and st + stsize <= len(b), "string table outside the file")
        need(stsize == 4 or b[st + stsize - 1] == 0, "string table not terminated")
        used = [(0, 20 + 40 * nsec), (symp, st + stsize)]
        def string(o):
            need(4 <= o < stsize, "string offset %d outside the table" % o)
            e = b.find(b"\0", st + o)
            need(e < st + stsize, "string not terminated")
            return b[st + o:e].decode("utf-8", "surrogateescape")
        self.secs = []
        for i in range(nsec):
            s = Sec()
            nm, vs, va, s.size, raw, relp, lnp, nrel, nln, s.chars = struct.unpack_from("<8sIIIIIIHHI", b, 20 + 40 * i)
            nm = nm.rstrip(b"\0").decode("utf-8", "surrogateescape")
            if nm.startswith("/"):
                need(nm[1:].isdigit(), "bad section name")
                nm = string(int(nm[1:]))
            s.idx, s.name, s.relocs = i + 1, nm, []
            bss = s.chars & 0x80
            if not bss and s.size:
                need(raw + s.size <= len(b), "section %s outside the file" % nm)
                used.append((raw, raw + s.size))
            s.data = b"\0" * s.size if bss else b[raw:raw + s.size]
            a = s.chars >> 20 & 15
            need(a <= 14, "bad alignment")
            s.align = 1 << (a - 1) if a else 16
            first = 0
            if s.chars & 0x01000000:
                need(nrel == 0xffff, "NRELOC_OVFL without 0xffff")
                nrel = struct.unpack_from("<I", b, relp)[0]
                first = 1
            need(relp + 10 * nrel <= len(b), "relocations of %s outside the file" % nm)
            if nrel:
                used.append((relp, relp + 10 * nrel))
            for k in range(first, nrel):
                va, sy, ty = struct.unpack_from("<IIH", b, relp + 10 * k)
                s.relocs.append((va, ty, sy))
            self.secs.append(s)
        self.syms = {}
        i = 0
        while i < nsym:
            y = Sym()
            nm, y.value, y.sec, y.type, y.cls, aux = struct.unpack_from("<8sIhHBB", b, symp + 18 * i)
            y.name = string(struct.unpack("<I", nm[4:])[0]) if nm[:4] == b"\0\0\0\0" and nm[4:] != b"\0\0\0\0" else nm.rstrip(b"\0").decode("utf-8", "surrogateescape")
            need(-2 <= y.sec <= nsec, "symbol section out of range")
            need(y.cls in (2, 3, 6, 103, 104), "symbol class %d" % y.cls)
            if y.sec > 0:
                need(y.value <= self.secs[y.sec - 1].size, "symbol %s outside its section" % y.name)
            self.syms[i] = y
            i += 1 + aux
        need(i == nsym, "auxiliary records outside the table")
        used.sort()
        for (a, z), (c, d) in zip(used, used[1:]):
            need(z <= c, "parts of the file overlap")
        for s in self.secs:
            last = None
            for k, (va, ty, sy) in enumerate(sorted(s.relocs)):
                need(sy in self.syms, "relocation of symbol %d, which does not exist" % sy)
                need(ty in KIND, "relocation type %d" % ty)
                w = 8 if ty == ADDR64 else 4
                need(va + w <= s.size, "relocation outside its section")
                need(last is None or va >= last, "relocations overlap")
                last = va + w
    def sec(self, name):
        return next((s for s in self.secs if s.name == name), None)
    def target(self, sy, add):
        y = self.syms[sy]
        if y.sec > 0 and y.cls != 2 or y.sec > 0 and y.cls == 2:
            return ("sec", self.secs[y.sec - 1].name, y.value + add)
        return ("sym", y.name, add)

class Norm:
    def __init__(self, path, scratch):
        o = self.o = Obj(path)
        reloc = {}
        body = {}
        for s in o.secs:
            d = bytearray(s.data)
            rs = {}
            for va, ty, sy in s.relocs:
                w = 8 if ty == ADDR64 else 4
                add = int.from_bytes(d[va:va + w], "little", signed=True)
                d[va:va + w] = b"\0" * w
                rs[va] = (ty, sy, add)
            reloc[s.name], body[s.name] = rs, bytes(d)
        text = o.sec(".text")
        ins = []
        size = text.size if text else 0
        if size:
            open(scratch, "wb").write(body[".text"])
            r = T.run(["objdump", "-D", "-w", "-b", "binary", "-m", "i386:x86-64", "--insn-width=16", scratch], cpu=60)
            if r.rc:
                raise Bad("objdump: " + r.err)
            for l in r.out.split("\n"):
                m = elf.LINE.match(l)
                if m:
                    ins.append((int(m.group(1), 16), len(m.group(2).split()), elf.clean(m.group(3) or "")))
        # the assembler pads .text with nop up to 16 bytes
        while ins and ins[-1][2].startswith(("nop", "xchg %ax,%ax", "cs nop", "data16")) and size % 16 == 0:
            ins.pop()
        self.index = {a: i for i, (a, n, t) in enumerate(ins)}
        self.end = ins[-1][0] + ins[-1][1] if ins else 0
        self.index[self.end] = len(ins)
        self.ins, used = [], 0
        rel = reloc.get(".text", {})
        for a, n, t in ins:
            rs = [(k,) + rel[k] for k in range(a, a + n) if k in rel]
            used += len(rs)
            t = re.sub(r"^(j\w+|call\w*|loop\w*) 0x", r"\1 ", t)
            m = elf.JUMP.match(t)
            if m:
                # offsets relative to the end of the field
                if rs:
                    k, ty, sy, add = rs[0]
                    if ty != REL32 or k + 4 != a + n:
                        raise Bad("branch with relocation type %d" % ty)
                    tg = o.target(sy, add)
                else:
                    tg = ("sec", ".text", int(m.group(2), 16))
                self.ins.append("%s %s" % (m.group(1), self.where(tg)))
            elif rs:
                s = t.replace("movabs ", "mov ")
                for k, ty, sy, add in rs:
                    s += " {%s %s}" % (KIND[ty], self.where(o.target(sy, add - (a + n - k - 4) if ty == REL32 else add)))
                self.ins.append(s)
            else:
                self.ins.append(t.replace("movabs ", "mov "))
        if used != len(rel):
            raise Bad("relocation outside any instruction")
        self.syms, self.undef = {}, set()
        for y in o.syms.values():
            if y.cls >= 100 or y.name.startswith(".L") or y.name in (".text", ".data", ".bss", ".rodata") or not y.name:
                continue
            if y.sec == 0:
                if y.cls != 2:
                    raise Bad("undefined symbol %s of class %d" % (y.name, y.cls))
                self.undef.add(y.name)
            else:
                # as marks local labels of .text LABEL (6) and others STATIC (3)
                self.syms.setdefault(y.name, []).append((y.cls == 2, self.where(("sec", o.secs[y.sec - 1].name, y.value)) if y.sec > 0 else "abs"))
        self.data, self.datarel = {}, {}
        for s in o.secs:
            if s.name != ".text" and s.size:
                self.data[s.name] = body[s.name]
                self.datarel[s.name] = [(va, KIND[ty], self.where(o.target(sy, add))) for va, (ty, sy, add) in sorted(reloc[s.name].items())]
    where = elf.Norm.where

def pad(a, b):
    """as pads sections to their alignment: allow zero bytes at the end of b's sections."""
    for k in set(a.data) | set(b.data):
        x, y = a.data.get(k, b""), b.data.get(k, b"")
        al = b.o.sec(k).align if b.o.sec(k) else 1
        if len(y) > len(x) and len(y) - len(x) < al and not any(y[len(x):]):
            b.data[k] = y[:len(x)]
            if not x:
                del b.data[k]
