"""Symbolic execution of rustc's LLVM IR over the real numbers.

Every f32 is an element of a rational function field over the inputs, every
integer and pointer is concrete, and every comparison of symbolic floats splits
the path (both sides are asked of the solver). What is not real arithmetic
(NaN, infinities, signed zeros, rounding) is outside this semantics."""
import re, struct, time
from fractions import Fraction
import z3
from sympy.polys.fields import field
from sympy.polys.domains import QQ


class Unsupported(Exception):
    pass


class Panic(Exception):
    pass


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- parsing

TOK = re.compile(r"""\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[%@](?:"[^"]*"|[-A-Za-z0-9_.$]+)|0x[0-9A-Fa-f]+|f0x[0-9A-Fa-f]+|-?\d+\.\d+(?:e[-+]\d+)?|-?\d+|[A-Za-z_.][A-Za-z0-9_.]*|[-+](?:inf|nan|qnan)(?:\([^)]*\))?|!\d+|!|\#\d+|<\{|\}>|\.\.\.|[\[\]{}()<>,=*:|])""")


def lex(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        if s[i] == ";":
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported("lex: " + s[i:i + 40])
        out.append(m.group(1))
        i = m.end()
        while i < len(s) and s[i].isspace():
            i += 1
    return out


class Fn:
    def __init__(self, name, params):
        self.name, self.params, self.blocks, self.entry = name, params, {}, None


def splitparams(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "([{<":
            depth += 1
        if ch in ")]}>":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


class Module:
    def __init__(self):
        self.fns, self.globals, self.gaddr = {}, {}, {}

    def load(self, path):
        fn = block = None
        pending = None
        for line in open(path, errors="replace"):
            line = line.rstrip("\n")
            if fn is None:
                if line.startswith("define "):
                    m = re.search(r'@("[^"]*"|[-A-Za-z0-9_.$]+)\(', line)
                    start = m.end()
                    depth, i = 1, start
                    while depth:
                        depth += {"(": 1, ")": -1}.get(line[i], 0)
                        i += 1
                    ps = [p.split()[-1] for p in splitparams(line[start:i - 1])]
                    fn = Fn(m.group(1), ps)
                elif line.startswith("@") and " = " in line:
                    n, rest = line.split(" = ", 1)
                    self.globals[n] = rest
                continue
            if line == "}":
                self.fns.setdefault("@" + fn.name, fn)
                fn = block = None
                continue
            if not line.strip() or line.lstrip().startswith(";"):
                continue
            m = re.match(r'^("[^"]*"|[-A-Za-z0-9_.$]+):', line)
            if m and not line.startswith(" "):
                block = m.group(1).strip('"')
                fn.blocks[block] = []
                fn.entry = fn.entry or block
                continue
            if block is None:
                block = "start"
                fn.blocks[block] = []
                fn.entry = block
            if pending is not None:
                pending += " " + line.strip()
                if line.strip().startswith("]"):
                    fn.blocks[block].append(pending)
                    pending = None
                continue
            if line.strip().startswith("switch") and line.rstrip().endswith("["):
                pending = line.strip()
                continue
            fn.blocks[block].append(line.strip())


def f32_bits(b):
    return struct.unpack("<f", struct.pack("<I", b & 0xFFFFFFFF))[0]


def bits_f32(v):
    return struct.unpack("<I", struct.pack("<f", v))[0]


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off

    def __hash__(self):
        return hash((id(self.obj), self.off))


class Obj:
    __slots__ = ("size", "cells", "raw", "name", "base")
    count = 0

    def __init__(self, size, name="", raw=None):
        Obj.count += 1
        self.size, self.name, self.raw = size, name, raw
        self.cells = {}
        self.base = Obj.count << 40


class FnPtr:
    def __init__(self, name):
        self.name = name


def type_of(t, i):
    """(type, next index); a type is ('i', bits), 'float', 'ptr', ('arr', n, t), ('st', [t..]) or 'void'."""
    x = t[i]
    if x == "ptr":
        return "ptr", i + 1
    if x in ("float", "double", "void", "label", "metadata"):
        return x, i + 1
    m = re.fullmatch(r"i(\d+)", x)
    if m:
        return ("i", int(m.group(1))), i + 1
    if x == "[":
        n = int(t[i + 1])
        e, j = type_of(t, i + 3)
        return ("arr", n, e), j + 1
    if x in ("{", "<{"):
        close = "}" if x == "{" else "}>"
        fs, j = [], i + 1
        while t[j] != close:
            if t[j] == ",":
                j += 1
                continue
            f, j = type_of(t, j)
            fs.append(f)
        return ("st", fs), j + 1
    raise Unsupported("type " + x)


def size_align(t):
    if t == "ptr":
        return 8, 8
    if t == "float":
        return 4, 4
    if t == "double":
        return 8, 8
    if t[0] == "i":
        b = max(1, (t[1] + 7) // 8)
        return b, b
    if t[0] == "arr":
        s, a = size_align(t[2])
        return s * t[1], a
    off, al = 0, 1
    for f in t[1]:
        s, a = size_align(f)
        off = (off + a - 1) // a * a + s
        al = max(al, a)
    return (off + al - 1) // al * al, al


def field_off(t, k):
    off = 0
    for j, f in enumerate(t[1]):
        s, a = size_align(f)
        off = (off + a - 1) // a * a
        if j == k:
            return off
        off += s
    raise Unsupported("field")


ATTR = {"noundef", "nonnull", "readonly", "writeonly", "nocapture", "noalias", "zeroext", "signext", "inreg", "returned", "immarg", "dead_on_unwind", "writable", "dead_on_return", "readnone", "noreturn", "initializes", "nofree"}


class World:
    """The field, the solver, the decisions of one path."""

    def __init__(self, inputs, extra=()):
        self.names = list(inputs) + list(extra)
        K = field(self.names, QQ)
        self.field, self.gens = K[0], dict(zip(self.names, K[1:]))
        self.z = {n: z3.Real(n) for n in self.names}
        self.queries, self.seconds = 0, 0.0

    def const(self, fr):
        return self.field(QQ(fr.numerator, fr.denominator))

    def poly(self, p):
        """a polynomial of the field's ring in z3"""
        terms = []
        for mono, c in p.terms():
            f = [z3.RealVal("%s/%s" % (c.numerator, c.denominator))] if not (c == 1 and any(mono)) else []
            for n, e in zip(self.names, mono):
                f += [self.z[n]] * e
            t = f[0]
            for x in f[1:]:
                t = t * x
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def sign_of(self, v):
        """z3 expression with the sign of v"""
        return self.poly(v.numer if v.denom == 1 else v.numer * v.denom)

    def rel(self, op, v):
        """v op 0 in z3"""
        if op in ("==", "!="):
            s = self.poly(v.numer)
            return s == 0 if op == "==" else s != 0
        s = self.sign_of(v)
        return {"<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0}[op]

    def solve(self, constraints, ms=60000):
        self.queries += 1
        t = time.time()
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(constraints)
        r = s.check()
        self.seconds += time.time() - t
        if r == z3.sat:
            return "sat", s.model()
        return ("unsat", None) if r == z3.unsat else ("unknown", None)


def is_const(v):
    return isinstance(v, Fraction)


class Exec:
    """One path: `decisions` fixes the first choices, later ones are taken as found."""

    def __init__(self, mod, world, assumptions, hooks, decisions):
        self.m, self.w, self.hooks = mod, world, hooks
        self.path = list(assumptions)
        self.decisions, self.taken, self.alternatives = list(decisions), [], []
        self.obligations = []
        self.globals = {}
        self.functions = set()
        self.steps = 0
        self.fresh = 0
        self.cache = {}

    # -- floats: Fraction (constant) or field element (symbolic)

    def lift(self, v):
        return self.w.const(v) if is_const(v) else v

    def norm(self, v):
        if v.denom == 1 or v.denom.is_ground:
            n = v.numer
            if n.is_ground:
                c = n.coeff(1) if n else 0
                d = v.denom.coeff(1)
                c = c / d
                return Fraction(int(c.numerator), int(c.denominator))
        return v

    def arith(self, op, a, b):
        if is_const(a) and is_const(b):
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fmul":
                return a * b
            if op == "fdiv":
                if b == 0:
                    raise Unsupported("division by zero")
                return a / b
        a, b = self.lift(a), self.lift(b)
        if op == "fadd":
            return self.norm(a + b)
        if op == "fsub":
            return self.norm(a - b)
        if op == "fmul":
            return self.norm(a * b)
        if op == "fdiv":
            b_ = self.norm(b)
            if is_const(b_):
                if b_ == 0:
                    raise Unsupported("division by zero")
                return self.norm(a / b)
            if self.decide("==", b_):
                raise Panic("division by zero")
            return self.norm(a / b)
        raise Unsupported(op)

    def decide(self, op, v):
        """v op 0, a concrete bool: splits the path when both can be"""
        if is_const(v):
            return {"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op]
        neg = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[op]
        key = (op, v)
        if key in self.cache:
            return self.cache[key]
        # one query per comparison that has only one outcome
        yes, no = self.w.rel(op, v), self.w.rel(neg, v)
        if len(self.taken) < len(self.decisions):
            r = self.decisions[len(self.taken)]
        else:
            can_no = self.w.solve(self.path + [no], 20000)[0] != "unsat"
            can_yes = (not can_no) or self.w.solve(self.path + [yes], 20000)[0] != "unsat"
            if not can_yes and not can_no:
                raise Infeasible()
            r = can_yes
            if can_yes and can_no:
                self.alternatives.append(self.taken + [False])
        self.taken.append(r)
        self.path.append(yes if r else no)
        self.cache[key] = r
        self.cache[(neg, v)] = not r
        return r

    def floor(self, v, lo=-64, hi=64):
        """the integer below v, splitting the path"""
        if is_const(v):
            return v.numerator // v.denominator
        for k in sorted(range(lo, hi), key=abs):
            if self.decide(">=", self.arith("fsub", v, Fraction(k))) and self.decide("<", self.arith("fsub", v, Fraction(k + 1))):
                return k
        raise Unsupported("floor outside its bound")

    def trunc(self, v):
        if is_const(v):
            return int(v)
        if self.decide(">=", v):
            return self.floor(v, 0, 64)
        n = self.arith("fsub", Fraction(0), v)
        return -self.floor(n, 0, 64)

    def new(self, base):
        name = base
        if name not in self.w.gens:
            raise Unsupported("no spare variable " + name)
        return self.w.gens[name]

    # -- memory

    def gobj(self, name):
        if name in self.m.fns:
            return FnPtr(name)
        if name not in self.globals:
            if name not in self.m.globals:
                return FnPtr(name)
            rest = self.m.globals[name]
            self.globals[name] = self.parse_global(name, rest)
        return Ptr(self.globals[name], 0)

    def parse_global(self, name, rest):
        m = re.search(r"\b(?:constant|global)\b(.*)$", rest)
        if not m:
            raise Unsupported("global " + name)
        t = lex(re.sub(r", (align|section|comdat).*$", "", m.group(1)))
        ty, i = type_of(t, 0)
        size, _ = size_align(ty)
        o = Obj(size, name, bytearray(size))
        self.init_const(o, 0, ty, t, i)
        return o

    def init_const(self, o, off, ty, t, i):
        x = t[i]
        if x in ("zeroinitializer", "undef", "poison"):
            return i + 1
        if x.startswith('c"'):
            b = bytearray()
            s = x[2:-1]
            j = 0
            while j < len(s):
                if s[j:j + 2] == "\\\\":
                    b.append(92)
                    j += 2
                elif s[j] == "\\":
                    b.append(int(s[j + 1:j + 3], 16))
                    j += 3
                else:
                    b.append(ord(s[j]))
                    j += 1
            o.raw[off:off + len(b)] = b
            return i + 1
        if ty[0] in ("arr", "st") and x in ("[", "<{", "{"):
            k, i = 0, i + 1
            while t[i] not in ("]", "}>", "}"):
                if t[i] == ",":
                    i += 1
                    continue
                ft, i = type_of(t, i)
                fo = k * size_align(ft)[0] if ty[0] == "arr" else sum(size_align(f)[0] for f in ty[1][:k])
                i = self.init_const(o, off + fo, ft, t, i)
                k += 1
            return i + 1
        if ty == "ptr":
            if x == "null":
                return i + 1
            o.cells[off] = (8, ("global", x))
            return i + 1
        if ty == "float":
            o.cells[off] = (4, self.fconst(x))
            return i + 1
        if ty[0] == "i":
            n = size_align(ty)[0]
            v = {"true": 1, "false": 0}.get(x)
            v = int(x) if v is None else v
            o.raw[off:off + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, "little")
            return i + 1
        raise Unsupported("constant " + x)

    def fconst(self, x):
        if x.startswith(("0x", "f0x")):
            if x.startswith("f0x"):
                v = f32_bits(int(x[3:], 16))
            else:
                v = struct.unpack("<d", struct.pack("<Q", int(x, 16)))[0]
        elif "inf" in x or "nan" in x:
            return ("special", x)
        else:
            v = float(x)
        if v != v or v in (float("inf"), float("-inf")):
            return ("special", str(v))
        return Fraction(v)

    def check(self, p, n):
        if not isinstance(p, Ptr) or p.off < 0 or p.off + n > p.obj.size:
            raise Panic("access outside %s" % (getattr(getattr(p, "obj", None), "name", p),))

    def load(self, p, ty):
        if ty[0] in ("st", "arr") and isinstance(ty, tuple) and ty[0] != "i":
            if ty[0] == "st":
                return [self.load(Ptr(p.obj, p.off + field_off(ty, k)), f) for k, f in enumerate(ty[1])]
            s = size_align(ty[2])[0]
            return [self.load(Ptr(p.obj, p.off + k * s), ty[2]) for k in range(ty[1])]
        n = size_align(ty)[0]
        self.check(p, n)
        c = p.obj.cells.get(p.off)
        if c is not None:
            if isinstance(c[1], tuple) and c[1][0] == "global":
                return self.gobj(c[1][1])
            if c[0] == n:
                return self.coerce(c[1], ty)
            if c[0] > n and isinstance(c[1], int):
                return c[1] & ((1 << (8 * n)) - 1)
        # assembled from narrower or wider integers, or from raw bytes
        try:
            v = self.load_bytes(p.obj, p.off, n)
        except Unsupported:
            v = ("undef",)
        if v == ("undef",):
            return self.blob(p.obj, p.off, n)
        return self.coerce(v, ty)

    def blob(self, o, off, n):
        """n bytes that are no single integer (an enum packed into a register), cell by cell"""
        cells, k = [], off
        while k < off + n:
            c = o.cells.get(k)
            if c is not None and k + c[0] <= off + n:
                cells.append((k - off, c))
                k += c[0]
                continue
            b = self.load_bytes(o, k, 1)
            if b != ("undef",):
                cells.append((k - off, (1, b)))
            k += 1
        return ("blob", n, tuple(cells)) if cells else ("undef",)

    def load_bytes(self, o, off, n):
        out = bytearray()
        k = off
        while k < off + n:
            hit = None
            for back in range(0, 16):
                c = o.cells.get(k - back)
                if c is not None and c[0] > back:
                    hit = (k - back, c)
                    break
            if hit is None:
                if o.raw is None:
                    return ("undef",)
                out.append(o.raw[k])
                k += 1
                continue
            at, (sz, v) = hit
            if isinstance(v, Fraction):
                v = bits_f32(float(v))
            if not isinstance(v, int):
                if v == ("undef",):
                    return v
                raise Unsupported("reading part of a symbolic value")
            b = (v & ((1 << (8 * sz)) - 1)).to_bytes(sz, "little")
            out.append(b[k - at])
            k += 1
        return int.from_bytes(out, "little")

    def coerce(self, v, ty):
        if v == ("undef",):
            return v
        if ty == "float":
            if isinstance(v, int):
                f = f32_bits(v)
                return Fraction(f) if f == f and abs(f) != float("inf") else ("special", str(f))
            return v
        if ty == "ptr":
            return v
        if ty[0] == "i":
            if isinstance(v, int):
                return v & ((1 << ty[1]) - 1)
            if is_const(v):
                return bits_f32(float(v))
            if isinstance(v, (Ptr, FnPtr)):
                return v
            return ("bits", v)
        return v

    def store(self, p, ty, v):
        if isinstance(ty, tuple) and ty[0] in ("st", "arr"):
            for k in range(len(v)):
                if ty[0] == "st":
                    self.store(Ptr(p.obj, p.off + field_off(ty, k)), ty[1][k], v[k])
                else:
                    self.store(Ptr(p.obj, p.off + k * size_align(ty[2])[0]), ty[2], v[k])
            return
        n = size_align(ty)[0]
        self.check(p, n)
        self.clear(p.obj, p.off, n)
        if isinstance(v, tuple) and v[0] == "blob":
            for k, c in v[2]:
                p.obj.cells[p.off + k] = c
            return
        p.obj.cells[p.off] = (n, v)

    def clear(self, o, off, n):
        for k in range(off - 15, off + n):
            c = o.cells.get(k)
            if c is not None and k + c[0] > off:
                if k < off or k + c[0] > off + n:
                    if isinstance(c[1], int):  # split into bytes
                        b = (c[1] & ((1 << (8 * c[0])) - 1)).to_bytes(c[0], "little")
                        del o.cells[k]
                        for j, x in enumerate(b):
                            if not off <= k + j < off + n:
                                o.cells[k + j] = (1, x)
                        continue
                    if c[1] != ("undef",):
                        raise Unsupported("overwriting part of a symbolic value")
                del o.cells[k]

    def memcpy(self, d, s, n):
        if n == 0:
            return
        self.check(d, n)
        self.check(s, n)
        cells = []
        k = s.off
        while k < s.off + n:
            c = s.obj.cells.get(k)
            if c is not None and k + c[0] <= s.off + n:
                cells.append((k - s.off, c))
                k += c[0]
            else:
                b = self.load_bytes(s.obj, k, 1)
                cells.append((k - s.off, (1, b)))
                k += 1
        self.clear(d.obj, d.off, n)
        for k, c in cells:
            d.obj.cells[d.off + k] = c

    # -- instructions

    def operand(self, env, ty, t, i):
        x = t[i]
        if x[0] == "%":
            return env[x], i + 1
        if x[0] == "@":
            return self.gobj(x), i + 1
        if x in ("true", "false"):
            return int(x == "true"), i + 1
        if x == "null":
            return 0, i + 1
        if x in ("undef", "poison"):
            if isinstance(ty, tuple) and ty[0] == "st":
                return [("undef",)] * len(ty[1]), i + 1
            if isinstance(ty, tuple) and ty[0] == "arr":
                return [("undef",)] * ty[1], i + 1
            return ("undef",), i + 1
        if x == "zeroinitializer":
            return (0 if ty != "float" else Fraction(0)), i + 1
        if x in ("getelementptr", "inttoptr", "ptrtoint"):
            if x == "inttoptr":
                j = i + 1
                assert t[j] == "("
                ty2, j = type_of(t, j + 1)
                v, j = self.operand(env, ty2, t, j)
                while t[j] != ")":
                    j += 1
                return v, j + 1
            j = i + 1
            while t[j] != "(":
                j += 1
            v, j = self.gep(env, t, j + 1, ")")
            return v, j + 1
        if ty == "float":
            return self.fconst(x), i + 1
        if isinstance(ty, tuple) and ty[0] == "i":
            return int(x) & ((1 << ty[1]) - 1), i + 1
        if x in ("[", "{") and isinstance(ty, tuple):
            vals, j = [], i + 1
            while t[j] not in ("]", "}"):
                if t[j] == ",":
                    j += 1
                    continue
                et, j = type_of(t, j)
                v, j = self.operand(env, et, t, j)
                vals.append(v)
            return vals, j + 1
        raise Unsupported("operand " + x)

    def gep(self, env, t, i, stop):
        ty, i = type_of(t, i)
        i += 1
        pt, i = type_of(t, i)
        p, i = self.operand(env, pt, t, i)
        first = True
        off = 0
        while i < len(t) and t[i] == ",":
            i += 1
            if t[i] in ("!dbg",) or t[i].startswith("!"):
                break
            it, i = type_of(t, i)
            v, i = self.operand(env, it, t, i)
            if not isinstance(v, int):
                raise Unsupported("symbolic index")
            if v >> (it[1] - 1):
                v -= 1 << it[1]
            if first:
                off += v * self.stride(ty)
                first = False
            elif ty[0] == "arr":
                off += v * self.stride(ty[2])
                ty = ty[2]
            else:
                off += field_off(ty, v)
                ty = ty[1][v]
        if isinstance(p, int):
            return p + off, i
        if not isinstance(p, Ptr):
            raise Unsupported("address of " + str(p))
        return Ptr(p.obj, p.off + off), i

    def stride(self, ty):
        s, a = size_align(ty)
        return (s + a - 1) // a * a

    def addr(self, v):
        return v.obj.base + v.off if isinstance(v, Ptr) else v

    def call(self, name, args):
        short = name
        for pat, h in self.hooks:
            if re.search(pat, name):
                return h(self, args)
        if name.startswith("@llvm."):
            return self.intrinsic(name, args)
        fn = self.m.fns.get(name)
        if fn is None:
            if "panic" in name or "fail" in name or "unwrap_failed" in name:
                raise Panic(name)
            raise Unsupported("call to " + name)
        self.functions.add(name)
        env = dict(zip(fn.params, args))
        prev, cur = None, fn.entry
        while True:
            nxt = None
            for code in self.block(fn, cur):
                self.steps += 1
                if self.steps > 3_000_000:
                    raise Unsupported("more than 3000000 steps")
                r = self.step(fn, env, code, prev)
                if r is None:
                    continue
                if r[0] == "ret":
                    return r[1]
                nxt = r[1]
                break
            prev, cur = cur, nxt

    def block(self, fn, name):
        b = fn.blocks[name]
        if b and isinstance(b[0], str):
            b = [lex(re.sub(r", ![a-z._]+ !\d+", "", x)) for x in b]
            fn.blocks[name] = b
        return b

    def step(self, fn, env, t, prev):
        dst = None
        if len(t) > 1 and t[1] == "=":
            dst, t = t[0], t[2:]
        op = t[0]
        if op == "phi":
            ty, i = type_of(t, 1)
            while i < len(t):
                if t[i] == ",":
                    i += 1
                    continue
                v, j = self.operand_lazy(t, i + 1)
                lab = t[j + 1].lstrip("%").strip('"')
                if lab == prev:
                    env[dst], _ = self.operand(env, ty, t, i + 1)
                    return None
                i = j + 3
            raise Unsupported("phi")
        if op == "alloca":
            ty, i = type_of(t, 1)
            env[dst] = Ptr(Obj(size_align(ty)[0], dst), 0)
            return None
        if op == "load":
            i = 1
            while t[i] in ("volatile", "atomic"):
                i += 1
            ty, i = type_of(t, i)
            pt, i = type_of(t, i + 1)
            p, i = self.operand(env, pt, t, i)
            env[dst] = self.load(p, ty)
            return None
        if op == "store":
            i = 1
            while t[i] in ("volatile", "atomic"):
                i += 1
            ty, i = type_of(t, i)
            v, i = self.operand(env, ty, t, i)
            pt, i = type_of(t, i + 1)
            p, i = self.operand(env, pt, t, i)
            self.store(p, ty, v)
            return None
        if op == "getelementptr":
            i = 1
            while t[i] in ("inbounds", "nuw", "nusw", "nsw"):
                i += 1
            env[dst], _ = self.gep(env, t, i, None)
            return None
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
            i = 1
            while t[i] in ("nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"):
                i += 1
            ty, i = type_of(t, i)
            a, i = self.operand(env, ty, t, i)
            self.realnum(a)
            if op == "fneg":
                env[dst] = self.arith("fsub", Fraction(0), a)
                return None
            b, i = self.operand(env, ty, t, i + 1)
            self.realnum(b)
            env[dst] = self.arith(op, a, b)
            return None
        if op == "fcmp":
            i = 1
            while t[i] in ("nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"):
                i += 1
            pred = t[i]
            ty, i = type_of(t, i + 1)
            a, i = self.operand(env, ty, t, i)
            b, i = self.operand(env, ty, t, i + 1)
            env[dst] = int(self.fcmp(pred, a, b))
            return None
        if op == "icmp":
            i = 1
            while t[i] in ("samesign",):
                i += 1
            pred = t[i]
            ty, i = type_of(t, i + 1)
            a, i = self.operand(env, ty, t, i)
            b, i = self.operand(env, ty, t, i + 1)
            env[dst] = int(self.icmp(pred, a, b, ty))
            return None
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            i = 1
            while t[i] in ("nuw", "nsw", "exact", "disjoint"):
                i += 1
            ty, i = type_of(t, i)
            a, i = self.operand(env, ty, t, i)
            b, i = self.operand(env, ty, t, i + 1)
            env[dst] = self.iarith(op, a, b, ty[1])
            return None
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "ptrtoaddr"):
            i = 1
            while t[i] in ("nneg", "nuw", "nsw"):
                i += 1
            ty, i = type_of(t, i)
            v, i = self.operand(env, ty, t, i)
            to, i = type_of(t, i + 1)
            env[dst] = self.cast(op, v, ty, to)
            return None
        if op == "select":
            ty, i = type_of(t, 1)
            c, i = self.operand(env, ty, t, i)
            ty, i = type_of(t, i + 1)
            a, i = self.operand(env, ty, t, i)
            ty, i = type_of(t, i + 1)
            b, i = self.operand(env, ty, t, i)
            env[dst] = a if self.bit(c) else b
            return None
        if op == "extractvalue":
            ty, i = type_of(t, 1)
            v, i = self.operand(env, ty, t, i)
            while i < len(t) and t[i] == ",":
                v = v[int(t[i + 1])]
                i += 2
            env[dst] = v
            return None
        if op == "insertvalue":
            ty, i = type_of(t, 1)
            v, i = self.operand(env, ty, t, i)
            et, i = type_of(t, i + 1)
            e, i = self.operand(env, et, t, i)
            v = list(v)
            v[int(t[i + 1])] = e
            env[dst] = v
            return None
        if op in ("call", "tail", "notail", "musttail"):
            i = 1
            if op != "call":
                i = 2
            while t[i] in ATTR or t[i] in ("fastcc", "coldcc", "range", "align", "(", ")", "dereferenceable", "nnan", "nsz") or re.fullmatch(r"-?\d+", t[i]) or (t[i] == "," and t[i - 1] != ")"):
                if t[i] == "range":
                    while t[i] != ")":
                        i += 1
                i += 1
            ty, i = type_of(t, i)
            callee = t[i]
            if callee[0] == "%":
                f = env[callee]
                if not isinstance(f, FnPtr):
                    raise Unsupported("indirect call")
                callee = f.name
            i += 1
            assert t[i] == "(", t
            i += 1
            args = []
            while t[i] != ")":
                if t[i] == ",":
                    i += 1
                    continue
                at, i = type_of(t, i)
                i = self.skip_attrs(t, i)
                if at == "metadata":
                    i += 2
                    continue
                v, i = self.operand(env, at, t, i)
                args.append(v)
            r = self.call(callee, args)
            if dst:
                env[dst] = r
            return None
        if op == "br":
            if t[1] == "label":
                return ("br", t[2].lstrip("%").strip('"'))
            c, i = self.operand(env, ("i", 1), t, 2)
            labels = [t[j + 1].lstrip("%").strip('"') for j in range(i, len(t)) if t[j] == "label"]
            return ("br", labels[0] if self.bit(c) else labels[1])
        if op == "switch":
            ty, i = type_of(t, 1)
            v, i = self.operand(env, ty, t, i)
            v = self.int(v)
            default = t[i + 2].lstrip("%").strip('"')
            i += 4
            while t[i] != "]":
                ct, i = type_of(t, i)
                c, i = self.operand(env, ct, t, i)
                lab = t[i + 2].lstrip("%").strip('"')
                i += 3
                if c == v:
                    return ("br", lab)
            return ("br", default)
        if op == "ret":
            if t[1] == "void":
                return ("ret", None)
            ty, i = type_of(t, 1)
            v, i = self.operand(env, ty, t, i)
            return ("ret", v)
        if op == "unreachable":
            raise Panic("unreachable")
        raise Unsupported("instruction " + " ".join(t[:6]))

    def skip_attrs(self, t, i):
        while True:
            x = t[i]
            if x in ATTR:
                i += 1
            elif x in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "range", "initializes", "elementtype", "nofpclass", "dead_on_return"):
                i += 1
                if t[i] == "(":
                    d = 0
                    while True:
                        d += {"(": 1, ")": -1}.get(t[i], 0)
                        i += 1
                        if d == 0:
                            break
                elif re.fullmatch(r"\d+", t[i]):
                    i += 1
            else:
                return i

    def operand_lazy(self, t, i):
        """skips a simple operand (phi)"""
        d = 0
        j = i
        while True:
            if t[j] in ("(", "{", "["):
                d += 1
            if t[j] in (")", "}", "]"):
                d -= 1
            if t[j] == "," and d == 0:
                return None, j
            j += 1

    def realnum(self, v):
        if isinstance(v, tuple):
            raise Unsupported("arithmetic on " + str(v))

    def bit(self, c):
        if not isinstance(c, int):
            raise Unsupported("branch on " + str(c))
        return c & 1

    def int(self, v):
        if not isinstance(v, int):
            raise Unsupported("integer " + str(v))
        return v

    def fcmp(self, pred, a, b):
        if pred in ("uno", "ord"):
            return pred == "ord"
        sp = [x for x in (a, b) if isinstance(x, tuple)]
        if sp:
            if sp[0][0] == "special" and "inf" in sp[0][1]:
                big = "-" not in sp[0][1] and "ninf" != sp[0][1]
                op = pred[1:]
                if len(sp) == 2:
                    raise Unsupported("comparison of specials")
                if op == "eq":
                    return False
                if op == "ne":
                    return True
                less = big if isinstance(b, tuple) else not big  # a < b
                return less if op in ("lt", "le") else not less
            raise Unsupported("comparison with " + str(sp))
        op = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[pred[1:]]
        return self.decide(op, self.arith("fsub", a, b))

    def icmp(self, pred, a, b, ty):
        if isinstance(a, tuple) and a[0] == "bits" and b == 0 and pred in ("sge", "slt", "sgt", "sle"):
            neg = self.decide("<", a[1])
            return (not neg) if pred in ("sge", "sgt") else neg
        if isinstance(a, tuple) and a[0] == "bits" and b == (1 << ty[1]) - 1 and pred == "sgt":
            return not self.decide("<", a[1])
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if pred in ("eq", "ne"):
                same = a == b if isinstance(a, Ptr) else a is b
                return same == (pred == "eq")
            a, b = self.addr(a), self.addr(b)
        a, b = self.int(a), self.int(b)
        n = 64 if ty == "ptr" else ty[1]
        if pred[0] == "s":
            a = a - (1 << n) if a >> (n - 1) else a
            b = b - (1 << n) if b >> (n - 1) else b
            pred = pred[1:]
        elif pred[0] == "u":
            pred = pred[1:]
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred]

    def iarith(self, op, a, b, n):
        mask = (1 << n) - 1
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a, b = self.addr(a), self.addr(b)
        if isinstance(a, tuple) and a[0] == "bits":
            v = a[1]
            if op == "and" and b == 0x7FFFFFFF:
                return ("bits", v if self.decide(">=", v) else self.arith("fsub", Fraction(0), v))
            if op == "xor" and b == 0x80000000:
                return ("bits", self.arith("fsub", Fraction(0), v))
            if op == "and" and b == 0x80000000:
                return 0x80000000 if self.decide("<", v) else 0
            if op in ("lshr", "ashr") and b == 31:
                return int(self.decide("<", v)) * (mask if op == "ashr" else 1)
        a, b = self.int(a), self.int(b)
        sa = a - (1 << n) if a >> (n - 1) else a
        sb = b - (1 << n) if b >> (n - 1) else b
        if op in ("udiv", "urem", "sdiv", "srem") and b == 0:
            raise Panic("division by zero")
        if op == "sdiv":
            r = abs(sa) // abs(sb)
            r = r if (sa < 0) == (sb < 0) else -r
        elif op == "srem":
            r = abs(sa) % abs(sb)
            r = -r if sa < 0 else r
        else:
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b,
                 "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: a >> b, "ashr": lambda: sa >> b,
                 "udiv": lambda: a // b, "urem": lambda: a % b}[op]()
        return r & mask

    def cast(self, op, v, ty, to):
        if v == ("undef",):
            return v
        if op in ("ptrtoint", "ptrtoaddr"):
            return self.addr(v)
        if op == "inttoptr":
            return v
        if op == "bitcast":
            return self.coerce(v[1] if isinstance(v, tuple) and v[0] == "bits" and to == "float" else v, to)
        if op == "zext":
            return self.int(v)
        if op == "sext":
            v = self.int(v)
            if v >> (ty[1] - 1):
                v -= 1 << ty[1]
            return v & ((1 << to[1]) - 1)
        if op == "trunc":
            return self.int(v) & ((1 << to[1]) - 1)
        if op in ("sitofp", "uitofp"):
            v = self.int(v)
            if op == "sitofp" and v >> (ty[1] - 1):
                v -= 1 << ty[1]
            return Fraction(struct.unpack("<f", struct.pack("<f", float(v)))[0])
        if op in ("fptosi", "fptoui"):
            return self.to_int(v, op == "fptosi", to[1])
        raise Unsupported(op)

    def to_int(self, v, signed, bits):
        self.realnum(v)
        k = self.trunc(v)
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        return max(lo, min(hi, k)) & ((1 << bits) - 1)

    def intrinsic(self, name, a):
        n = name[6:]
        if n.startswith(("lifetime", "assume", "experimental.noalias", "dbg")):
            return None
        if n.startswith(("memcpy", "memmove")):
            self.memcpy(a[0], a[1], self.int(a[2]))
            return None
        if n.startswith("memset"):
            for k in range(self.int(a[2])):
                self.store(Ptr(a[0].obj, a[0].off + k), ("i", 8), a[1])
            return None
        if n.startswith("fabs"):
            return a[0] if self.decide(">=", a[0]) else self.arith("fsub", Fraction(0), a[0])
        m = re.match(r"fpto([su])i\.sat\.i(\d+)", n)
        if m:
            return self.to_int(a[0], m.group(1) == "s", int(m.group(2)))
        m = re.match(r"(minnum|minimumnum|minimum|maxnum|maximumnum|maximum)\.", n)
        if m:
            less = self.decide("<", self.arith("fsub", a[0], a[1]))
            return a[0] if less == m.group(1).startswith("min") else a[1]
        m = re.match(r"([us])(add|sub|mul)\.with\.overflow\.i(\d+)", n)
        if m:
            b = int(m.group(3))
            x, y = self.int(a[0]), self.int(a[1])
            if m.group(1) == "s":
                x = x - (1 << b) if x >> (b - 1) else x
                y = y - (1 << b) if y >> (b - 1) else y
            r = {"add": x + y, "sub": x - y, "mul": x * y}[m.group(2)]
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if m.group(1) == "s" else (0, (1 << b) - 1)
            return [r & ((1 << b) - 1), int(not lo <= r <= hi)]
        m = re.match(r"([us])(add|sub)\.sat\.i(\d+)", n)
        if m:
            b = int(m.group(3))
            x, y = self.int(a[0]), self.int(a[1])
            if m.group(1) == "s":
                x = x - (1 << b) if x >> (b - 1) else x
                y = y - (1 << b) if y >> (b - 1) else y
            r = x + y if m.group(2) == "add" else x - y
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if m.group(1) == "s" else (0, (1 << b) - 1)
            return max(lo, min(hi, r)) & ((1 << b) - 1)
        m = re.match(r"([us])(min|max)\.i(\d+)", n)
        if m:
            b = int(m.group(3))
            k = lambda x: (x - (1 << b) if x >> (b - 1) else x) if m.group(1) == "s" else x
            return (min if m.group(2) == "min" else max)(self.int(a[0]), self.int(a[1]), key=k)
        m = re.match(r"([us])cmp\.i(\d+)\.i(\d+)", n)
        if m:
            b = int(m.group(3))
            k = lambda x: (x - (1 << b) if x >> (b - 1) else x) if m.group(1) == "s" else x
            x, y = k(self.int(a[0])), k(self.int(a[1]))
            return ((x > y) - (x < y)) & ((1 << int(m.group(2))) - 1)
        if n.startswith("expect"):
            return a[0]
        if n.startswith("ctpop"):
            return bin(self.int(a[0])).count("1")
        if n.startswith("floor"):
            return Fraction(self.floor(a[0]))
        if n.startswith("fma") or n.startswith("fmuladd"):
            return self.arith("fadd", self.arith("fmul", a[0], a[1]), a[2])
        raise Unsupported("intrinsic " + name)


def explore(mod, world, entry, inputs, n_out, assumptions, hooks, limit=4000):
    """Yields (path constraints, outputs or Panic, exec) for every feasible path of an entry."""
    todo = [[]]
    count = 0
    while todo:
        dec = todo.pop()
        ex = Exec(mod, world, assumptions, hooks, dec)
        x = Obj(4 * len(inputs), "x")
        for k, v in enumerate(inputs):
            x.cells[4 * k] = (4, v)
        y = Obj(4 * n_out, "y")
        for k in range(n_out):
            y.cells[4 * k] = (4, Fraction(0))
        try:
            ex.call("@" + entry, [Ptr(x, 0), Ptr(y, 0)])
            out = [y.cells[4 * k][1] for k in range(n_out)]
        except Panic as p:
            out = p
        except Infeasible:
            out = None
        todo += ex.alternatives
        count += 1
        if count > limit:
            raise Unsupported("more than %d paths" % limit)
        if out is not None:
            yield ex.path, out, ex
