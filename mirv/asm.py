"""x86-64 inline assembly (the subset used by the code): instruction semantics over symbolic 64-bit words."""
import re
from .world import SV, Unsupported, PanicPath

PIECE = re.compile(r'String\("((?:[^"\\]|\\.)*)"\)|Placeholder \{ operand_idx: (\d+), modifier: (None|Some\(.*?\)), span: .*? \}(?=, String|, Placeholder|\]$)')
REGS = ["rax", "rbx", "rcx", "rdx", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
ALIAS = {"ax": "rax", "bx": "rbx", "cx": "rcx", "dx": "rdx", "si": "rsi", "di": "rdi"}
U64 = (1 << 64) - 1


def text(template):
    out = []
    i = 0
    while i < len(template):
        m = PIECE.search(template, i)
        if not m:
            break
        if m.group(2) is not None:
            if m.group(3) != "None":
                raise Unsupported("asm operand modifier")
            out.append("<%s>" % m.group(2))
        else:
            out.append(m.group(1).encode().decode("unicode_escape"))
        i = m.end()
    return "".join(out)


class Asm:
    def __init__(self, e, w):
        self.e, self.w = e, w
        self.r = {}
        self.f = {"c": None, "o": None, "z": None}
        self.writable = set()

    def reg(self, n):
        if n not in self.r:
            raise PanicPath("asm reads the undefined register " + n)
        return self.r[n]

    def flag(self, n):
        if self.f[n] is None:
            raise PanicPath("asm reads an undefined flag (%sF)" % n.upper())
        return self.w.n(self.f[n])

    def isreg(self, s):
        return s in REGS or s[0] == "<"

    def get(self, s):
        if self.isreg(s):
            v = self.reg(s)
            return self.w.n(v) if isinstance(v, SV) else v
        m = re.fullmatch(r"(?:qword ptr )?\[\s*(<\d+>|r\w+)\s*(?:\+\s*(\w+))?\s*\]", s)
        if m:
            p = self.reg(m.group(1))
            if not hasattr(p, "a"):
                raise Unsupported("asm memory operand without provenance")
            v = self.e.load(p.a, p.o + int(m.group(2) or "0", 0), 8)
            return self.w.n(v) if isinstance(v, SV) else v
        try:
            return int(s, 0) & U64
        except ValueError:
            raise Unsupported("asm operand " + s)

    def num(self, s):
        v = self.get(s)
        if not isinstance(v, (int, SV)):
            raise Unsupported("asm arithmetic on a pointer")
        return v

    def set(self, s, v):
        if not self.isreg(s):
            raise Unsupported("asm store to memory " + s)
        if s not in self.writable:
            raise PanicPath("asm writes %s, which it does not declare as clobbered" % s)
        self.r[s] = v

    def logic(self, v):
        self.f.update(c=0, o=0)
        self.zero(v)

    def zero(self, v):
        self.f["z"] = None
        self.zv = v

    def zflag(self):
        if self.f["z"] is None:
            if getattr(self, "zv", None) is None:
                raise PanicPath("asm reads an undefined flag (ZF)")
            self.f["z"] = self.w.eqz(self.zv)
        return self.w.n(self.f["z"])

    def carry(self, t):
        q, r = self.w.divmod2k(t, 64)
        return q, r

    def cond(self, c):
        if c in ("c", "b", "nae"):
            return self.flag("c"), 1
        if c in ("nc", "nb", "ae"):
            return self.flag("c"), 0
        if c in ("e", "z"):
            return self.zflag(), 1
        if c in ("ne", "nz"):
            return self.zflag(), 0
        if c in ("a", "nbe", "be", "na"):
            x = self.w.concretize(self.flag("c"), "asm flag") if isinstance(self.flag("c"), SV) else self.flag("c")
            z = self.zflag()
            z = self.w.concretize(z, "asm flag") if isinstance(z, SV) else z
            return (1 if x or z else 0), 0 if c in ("a", "nbe") else 1
        raise Unsupported("asm condition " + c)

    def step(self, line):
        w = self.w
        op, _, rest = line.partition(" ")
        a = [x.strip() for x in rest.split(",")] if rest.strip() else []
        op = op.lower()
        if op == "mov":
            self.set(a[0], self.get(a[1]))
        elif op == "mulx":
            hi, lo = self.carry(w.mul(self.num("rdx"), self.num(a[2])))
            self.set(a[1], lo)
            self.set(a[0], hi)
        elif op == "mul":
            hi, lo = self.carry(w.mul(self.num("rax"), self.num(a[0])))
            self.set("rax", lo)
            self.set("rdx", hi)
            self.f.update(c=None, o=None, z=None)
            self.zv = None
        elif op == "imul" and len(a) == 2:
            self.set(a[0], w.wmul(self.num(a[0]), self.num(a[1]), 64))
            self.f.update(c=None, o=None, z=None)
            self.zv = None
        elif op in ("add", "adc", "adcx", "adox"):
            f = "o" if op == "adox" else "c"
            t = w.add(self.num(a[0]), self.num(a[1]))
            if op != "add":
                t = w.add(t, self.flag(f))
            q, r = self.carry(t)
            self.set(a[0], r)
            self.f[f] = q
            if op in ("add", "adc"):
                self.f["o"] = None
                self.zero(r)
        elif op in ("sub", "sbb", "cmp"):
            if a[0] == a[1] and self.isreg(a[0]):
                x = y = 0
            else:
                x, y = self.num(a[0]), self.num(a[1])
            t = w.sub(x, y)
            if op == "sbb":
                t = w.sub(t, self.flag("c"))
            q, r = self.carry(t)
            if op != "cmp":
                self.set(a[0], r)
            self.f.update(c=w.sub(0, q), o=None)
            self.zero(r)
        elif op in ("and", "or", "xor", "test"):
            if op == "xor" and a[0] == a[1]:
                r = 0
            else:
                r = w.bitop("and" if op == "test" else op, self.num(a[0]), self.num(a[1]), 64)
            if op != "test":
                self.set(a[0], r)
            self.logic(r)
        elif op == "neg":
            q, r = self.carry(w.sub(0, self.num(a[0])))
            self.set(a[0], r)
            self.f.update(c=w.sub(0, q), o=None)
            self.zero(r)
        elif op == "not":
            self.set(a[0], w.sub(U64, self.num(a[0])))
        elif op in ("inc", "dec"):
            q, r = self.carry((w.add if op == "inc" else w.sub)(self.num(a[0]), 1))
            self.set(a[0], r)
            self.f["o"] = None
            self.zero(r)
        elif op == "lea" or op == "nop" or op == "clc":
            if op == "clc":
                self.f["c"] = 0
            elif op == "lea":
                raise Unsupported("asm lea")
        elif op == "xchg":
            x, y = self.get(a[0]), self.get(a[1])
            self.set(a[0], y)
            self.set(a[1], x)
        elif op.startswith("cmov"):
            f, want = self.cond(op[4:])
            if isinstance(f, SV):
                f = w.concretize(f, "asm flag")
            v = self.get(a[1])
            if f == want:
                self.set(a[0], v)
            else:
                self.set(a[0], self.reg(a[0]))
        elif op.startswith("set") and len(op) <= 5:
            raise Unsupported("asm setcc")
        else:
            raise Unsupported("asm instruction " + op)


def execute(e, fr, term):
    _, template, ops, options, dest = term
    if dest is None:
        raise Unsupported("asm that does not return")
    m = Asm(e, e.w)
    outs = []
    taken = set()
    for i, (iv, op, raw) in enumerate(ops):
        g = re.search(r"reg: Reg\(X86\((\w+)\)\)", raw)
        if g:
            n = ALIAS.get(g.group(1), g.group(1))
            if n not in REGS:
                raise Unsupported("asm register " + n)
        elif "RegClass(X86(reg))" in raw:
            n = "<%d>" % i
        else:
            raise Unsupported("asm operand " + raw[:60])
        if n in taken:
            raise Unsupported("asm register used twice")
        taken.add(n)
        if iv is not None:
            m.r[n] = e.operand(fr, iv)
        if raw.startswith(("Out", "InOut", "SplitInOut")):
            m.writable.add(n)
            if op is not None:
                outs.append((n, op))
        elif not raw.startswith("In "):
            raise Unsupported("asm operand " + raw[:60])
    for line in re.split(r"[\n;]", text(template)):
        line = re.sub(r"\s+", " ", re.sub(r"(//|#).*", "", line)).strip()
        if line:
            m.step(line)
    for n, op in outs:
        e.write_place(fr, op, m.reg(n))
