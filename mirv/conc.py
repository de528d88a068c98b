"""Concrete execution: the RPC binary (real code), typed raw transport, input generation, oracle comparison."""
import random
import os
import select
import subprocess
import threading
import struct


class Skip(Exception):
    """the oracle makes no claim about these inputs"""


class Pred:
    """oracle result given as a predicate on the output"""

    def __init__(self, f, text="predicate"):
        self.f, self.text = f, text


class AnyOf(Pred):
    def __init__(self, *vals):
        Pred.__init__(self, lambda o: o in vals, "one of %r" % (vals,))


PANIC = ("panic",)


class Rpc:
    HANG = 40.0  # seconds without an answer

    def __init__(self, binary):
        self.binary = binary
        self.start()

    def start(self):
        r, w = os.pipe()
        self.p = subprocess.Popen([self.binary, str(w)], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, pass_fds=(w,))
        os.close(w)
        self.r = r
        self.buf = b""

    def stop(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        os.close(self.r)

    def line(self):
        """next answer line, None at the end of the process or when it hangs"""
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                l, self.buf = self.buf[:i], self.buf[i + 1:]
                return l.decode()
            if not select.select([self.r], [], [], self.HANG)[0]:
                self.hung = True
                return None
            d = os.read(self.r, 1 << 16)
            if not d:
                return None
            self.buf += d

    @staticmethod
    def send(f, data):
        try:
            f.write(data)
            f.flush()
        except (BrokenPipeError, ValueError, OSError):
            pass

    def batch(self, calls, size=256):
        """[(root, bytes)] -> [(kind, payload)]"""
        out = []
        i = 0
        while i < len(calls):
            part = calls[i:i + size]
            data = "".join("%s %s\n" % (r, b.hex()) + ("flush\n" if j % 16 == 15 else "") for j, (r, b) in enumerate(part)) + "flush\n"
            res = []
            self.hung = False
            th = threading.Thread(target=self.send, args=(self.p.stdin, data.encode()), daemon=True)
            th.start()
            while len(res) < len(part):
                l = self.line()
                if l is None:
                    break
                res.append(l.split(" ", 1))
            if len(res) < len(part):
                # the process died or hangs: find the culprit one by one
                hung = self.hung
                self.stop()
                rc = self.p.returncode
                self.start()
                if len(part) == 1:
                    res = [["crash", "no answer within %d s" % self.HANG if hung else "exit %s" % rc]]
                else:
                    # answers already received stand; go on behind the culprit
                    got = len(res)
                    k = min(len(part), got + 16)
                    for c in part[got:k]:
                        x = list(self.batch([c])[0])
                        if x[0] == "ok":
                            x[1] = x[1].hex()
                        res.append(x)
                        if x[0] == "crash":
                            break
            for r in res:
                k = r[0]
                x = r[1] if len(r) > 1 else ""
                out.append((k, bytes.fromhex(x) if k == "ok" else x))
            i += len(res)
        return out

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()
        os.close(self.r)


class NonCanonical:
    def __init__(self, raw):
        self.raw = raw

    def __repr__(self):
        return "NonCanonical(0x%x)" % self.raw


class FieldIO:
    """prime field element: python int residue <-> Montgomery limbs"""

    def __init__(self, fld):
        self.fld = fld
        self.size = fld.size

    def enc(self, v):
        return self.fld.mont(v % self.fld.p).to_bytes(self.size, "little")

    def dec(self, b, o):
        raw = int.from_bytes(b[o:o + self.size], "little")
        if raw >= self.fld.p:
            return NonCanonical(raw), o + self.size
        return self.fld.unmont(raw), o + self.size

    def edges(self):
        p, n = self.fld.p, self.fld.n
        e = [0, 1, 2, 3, 4, 5, 7, 8, p - 1, p - 2, p - 3, (p - 1) // 2, (p + 1) // 2, (p + 3) // 2, self.fld.R % p, self.fld.Rinv, p // 3, 255, 256,
             2**64 - 1, 2**64, 2**128 - 1, 2**128, 2**192, 2**192 - 1]
        raws = [0, 1, p - 1, p - 2, 2**64 - 1, 2**64, p - 2**64, p - 2**128, p - 2**192, 2**(self.fld.bits - 1), 2**(self.fld.bits - 1) - 1]
        for i in range(n):
            raws.append((2**64 - 1) << (64 * i))
            raws.append(1 << (64 * i))
            raws.append(p - (1 << (64 * i)))
            raws.append((p >> (64 * i)) << (64 * i))
            raws.append(((p >> (64 * i)) << (64 * i)) - 1)
            raws.append(p & ((1 << (64 * i)) - 1))
        r = [x % p for x in e] + [self.fld.unmont(x) for x in raws if 0 <= x < p]
        return list(dict.fromkeys(r))

    def gen(self, rng):
        k = rng.random()
        p = self.fld.p
        if k < 0.25:
            return rng.choice(self._edges())
        if k < 0.40:
            raw = sum(rng.choice([0, 0, 1, 2**64 - 1, 2**64 - 1, 2**63, rng.getrandbits(64)]) << (64 * i) for i in range(self.fld.n))
            return self.fld.unmont(raw) if raw < p else raw % p
        if k < 0.5:
            return rng.getrandbits(rng.randrange(1, self.fld.bits + 1)) % p
        return rng.randrange(p)

    def _edges(self):
        if not hasattr(self, "_e"):
            self._e = self.edges()
        return self._e


class IntIO:
    def __init__(self, size, signed=False):
        self.size, self.signed = size, signed

    def enc(self, v):
        return int(v).to_bytes(self.size, "little", signed=self.signed)

    def dec(self, b, o):
        return int.from_bytes(b[o:o + self.size], "little", signed=self.signed), o + self.size

    def edges(self):
        b = 8 * self.size
        return [0, 1, 2, 3, 2**b - 1, 2**(b - 1), 2**(b - 1) - 1, 2**b - 2] if not self.signed else [0, 1, -1]

    def gen(self, rng):
        if rng.random() < 0.3:
            return rng.choice(self.edges())
        v = rng.getrandbits(rng.randrange(1, 8 * self.size + 1))
        return v


class BoolIO:
    def enc(self, v):
        return bytes([int(v)])

    def dec(self, b, o):
        return int(b[o]), o + 1

    def edges(self):
        return [0, 1]

    def gen(self, rng):
        return rng.randrange(2)


class BytesIO_:
    """[u8; n]"""

    def __init__(self, n):
        self.n = n
        self.hints = []

    def enc(self, v):
        return bytes(v)

    def dec(self, b, o):
        return bytes(b[o:o + self.n]), o + self.n

    def edges(self):
        n = self.n
        return [bytes(n), b"\xff" * n, b"\x01" + bytes(n - 1), bytes(n - 1) + b"\x01", bytes(n - 1) + b"\x80", b"\x80" + bytes(n - 1)] + self.hints

    def gen(self, rng):
        k = rng.random()
        if k < 0.3:
            return rng.choice(self.edges())
        if k < 0.45:
            m = rng.randrange(self.n + 1)
            x = rng.randbytes(m)
            return x + bytes(self.n - m) if rng.random() < 0.5 else bytes(self.n - m) + x
        if k < 0.6 and self.hints:
            x = bytearray(rng.choice(self.hints))
            i = rng.randrange(self.n)
            x[i] = (x[i] + rng.choice([1, -1, 128, rng.randrange(256)])) % 256
            return bytes(x)
        return rng.randbytes(self.n)


class ArrIO:
    def __init__(self, el, n):
        self.el, self.n = el, n

    def enc(self, v):
        return b"".join(self.el.enc(x) for x in v)

    def dec(self, b, o):
        r = []
        for _ in range(self.n):
            x, o = self.el.dec(b, o)
            r.append(x)
        return tuple(r), o

    def edges(self):
        e = self.el.edges()
        return [tuple([x] * self.n) for x in e[:6]]

    def gen(self, rng):
        return tuple(self.el.gen(rng) for _ in range(self.n))


class TupIO:
    def __init__(self, els):
        self.els = els

    def enc(self, v):
        return b"".join(e.enc(x) for e, x in zip(self.els, v))

    def dec(self, b, o):
        r = []
        for e in self.els:
            x, o = e.dec(b, o)
            r.append(x)
        return tuple(r), o

    def edges(self):
        z = [e.edges() for e in self.els]
        m = max(len(x) for x in z) if z else 0
        return [tuple(x[i % len(x)] for x in z) for i in range(m)]

    def gen(self, rng):
        return tuple(e.gen(rng) for e in self.els)


class OptIO:
    def __init__(self, el):
        self.el = el

    def enc(self, v):
        return b"\0" if v is None else b"\1" + self.el.enc(v[1])

    def dec(self, b, o):
        if b[o] == 0:
            return None, o + 1
        x, o = self.el.dec(b, o + 1)
        return ("Some", x), o

    def edges(self):
        return [None] + [("Some", x) for x in self.el.edges()]

    def gen(self, rng):
        return ("Some", self.el.gen(rng))


class VecIO:
    def __init__(self, el):
        self.el = el
        self.maxn = 8

    def enc(self, v):
        return struct.pack("<I", len(v)) + b"".join(self.el.enc(x) for x in v)

    def dec(self, b, o):
        n, = struct.unpack_from("<I", b, o)
        o += 4
        if isinstance(self.el, IntIO) and self.el.size == 1:
            return bytes(b[o:o + n]), o + n
        r = []
        for _ in range(n):
            x, o = self.el.dec(b, o)
            r.append(x)
        return tuple(r), o

    def edges(self):
        return [()]

    def gen(self, rng):
        return tuple(self.el.gen(rng) for _ in range(rng.randrange(self.maxn)))


class Types:
    """codec for a MIR type; `special`: {type name: io}"""

    def __init__(self, prog, special):
        self.prog, self.special = prog, special
        self.memo = {}

    def io(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self.make(self.prog.ty[t])
        self.memo[t] = r
        return r

    def make(self, t):
        nm = t["name"]
        if nm in self.special:
            return self.special[nm]
        if nm == "bool":
            return BoolIO()
        if t.get("bits") and t["k"] in ("uint", "int"):
            return IntIO(t["size"], t["k"] == "int")
        if t["k"] == "array":
            el = self.prog.ty[t["el"]]
            if el["name"] == "u8":
                return BytesIO_(t["n"])
            return ArrIO(self.io(t["el"]), t["n"])
        if t["k"] == "tuple":
            return TupIO([self.io(x) for x in t["fs"]])
        if t["k"] == "adt":
            d = t.get("def", "")
            if d.endswith("option::Option"):
                return OptIO(self.io(t["targs"][0]))
            if d == "std::vec::Vec":
                return VecIO(self.io(t["targs"][0]))
            if d == "std::cmp::Ordering":
                return IntIO(1, True)
        raise KeyError("no transport for type " + nm)


def cases(ios, rng, n, gen=None):
    """edge product first, then random; yields tuples"""
    if gen is not None:
        for i in range(n):
            yield tuple(gen(rng, i))
        return
    if not ios:
        yield ()
        return
    es = [io.edges() for io in ios]
    tot = 1
    for e in es:
        tot *= len(e)
    cnt = 0
    if tot <= n // 2:
        import itertools
        for c in itertools.product(*es):
            cnt += 1
            yield c
    else:
        for _ in range(n // 2):
            cnt += 1
            yield tuple(rng.choice(e) for e in es)
    while cnt < n:
        cnt += 1
        c = [io.gen(rng) for io in ios]
        # correlate equal-typed arguments
        if len(c) > 1 and rng.random() < 0.2:
            i, j = rng.randrange(len(c)), rng.randrange(len(c))
            if type(ios[i]) is type(ios[j]) and getattr(ios[i], "fld", 0) is getattr(ios[j], "fld", 0) and isinstance(c[i], int) and isinstance(ios[i], FieldIO):
                p = ios[i].fld.p
                c[j] = rng.choice([c[i], -c[i] % p, (c[i] + 1) % p, pow(c[i], -1, p) if c[i] else 0])
        yield tuple(c)


class Tester:
    """runs one root of the real code against its oracle"""

    def __init__(self, rpc, prog, special):
        self.rpc, self.prog = rpc, prog
        self.types = Types(prog, special)

    def sig(self, root):
        f = self.prog.fn(self.prog.roots[root])
        return [self.types.io(f["locals"][i + 1]) for i in range(f["args"])], self.types.io(f["locals"][0])

    def search(self, root, oracle, n=4000, seed=1, gen=None, extra=(), deadline=None):
        """-> (evaluations, failure or None); failure: dict(args, expected, got)"""
        import time
        ios, rio = self.sig(root)
        rng = random.Random("%s/%s" % (seed, root))
        done = 0
        tl = time.time()
        buf = []
        seen = set()

        def flush():
            nonlocal done
            outs = self.rpc.batch([(root, b) for _, b, _ in buf])
            for (a, b, want), (k, o) in zip(buf, outs):
                done += 1
                if k == "nofn":
                    raise KeyError("root %s not in the replay binary" % root)
                if k == "ok":
                    got = rio.dec(o, 0)[0]
                else:
                    got = (k, o)
                ok = (want.f(got) if isinstance(want, Pred) else (k != "ok" if want is PANIC else (k == "ok" and got == want)))
                if not ok:
                    return dict(root=root, args=repr(a), raw=b.hex(), expected=want.text if isinstance(want, Pred) else repr(want), got=repr(got),
                                rawout=o.hex() if k == "ok" else "%s %s" % (k, o))
            buf.clear()
            return None

        def feed():
            for a in extra:
                yield a
            yield from cases(ios, rng, n, gen)

        for a in feed():
            try:
                b = b"".join(io.enc(x) for io, x in zip(ios, a))
            except (OverflowError, ValueError, TypeError):
                continue
            if b in seen:
                continue
            seen.add(b)
            try:
                want = oracle(*a)
            except Skip:
                continue
            buf.append((a, b, want))
            self.sample = (root, repr(a)[:300])
            if len(buf) >= 256 or time.time() - tl > 2:
                tl = time.time()
                r = flush()
                if r:
                    return done, r
                if deadline and time.time() > deadline:
                    return done, None
        r = flush()
        return done, r
