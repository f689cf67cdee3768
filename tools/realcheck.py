#!/usr/bin/env python3-vt
"""realcheck.py <query>... : decides queries about the arithmetic of the code over the reals.

For every query the LLVM IR of its entry (real/src/lib.rs) and of everything it
calls in /repo is executed symbolically (irexec.py); what must hold of the
outputs goes to z3. A counterexample is replayed natively: the entry is run on
it, and the same claim is evaluated on what it really returned. Prints one JSON
object."""
import json, math, multiprocessing, os, random, re, signal, struct, subprocess, sys, time
from fractions import Fraction as F
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3
import irexec
from irexec import Module, World, Panic, Unsupported, explore

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "target"))
PI = F(struct.unpack("<f", struct.pack("<f", math.pi))[0])


def build():
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(TARGET, "real"), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             RUSTFLAGS="--emit=llvm-ir,link -C codegen-units=1")
    for k in ("RUSTC", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    # the message stream names the artifacts that belong to this build
    p = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=os.path.join(VERIF, "real"), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise SystemExit("build failed\n" + p.stderr[-3000:])
    lls, exe = [], None
    for line in p.stdout.splitlines():
        d = json.loads(line)
        if d.get("reason") != "compiler-artifact":
            continue
        exe = d.get("executable") or exe
        for f in d["filenames"]:
            if f.endswith((".rlib", ".rmeta")):
                b = os.path.basename(f).rsplit(".", 1)[0]
                ll = os.path.join(os.path.dirname(f) if "deps" in f else os.path.join(os.path.dirname(f), "deps"), b[3:] + ".ll")
                if os.path.exists(ll) and ll not in lls:
                    lls.append(ll)
                elif not os.path.exists(ll):
                    # uplifted artifacts carry no hash
                    deps = os.path.join(TARGET, "real", "debug", "deps")
                    c = [os.path.join(deps, x) for x in os.listdir(deps) if re.fullmatch(re.escape(b[3:]) + r"-[0-9a-f]+\.ll", x)]
                    c.sort(key=os.path.getmtime)
                    if c and c[-1] not in lls:
                        lls.append(c[-1])
    return lls, exe


def to_f32(v):
    return struct.unpack("<f", struct.pack("<f", float(v)))[0]


def evaluate(exe, entry, xs):
    h = ["%08x" % struct.unpack("<I", struct.pack("<f", x))[0] for x in xs]
    p = subprocess.run([exe, entry] + h, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    if p.returncode:
        return None, p.stdout.strip()[:300] or "exit %d" % p.returncode
    return [struct.unpack("<f", struct.pack("<I", int(b, 16)))[0] for b in p.stdout.split()], None


# ---------------------------------------------------------------- hooks


def h_fast_tan(ex, a):
    """fast_tan as an unknown positive k; its argument becomes an obligation"""
    v = ex.load(a[0], "float") if isinstance(a[0], irexec.Ptr) else a[0]
    ex.obligations.append(("tan argument", v))
    return ex.new("k")


def h_sqrt(ex, a):
    """an unknown r >= 0 whose square is within 15 percent of the argument (micromath approximates)"""
    v = a[0]
    if irexec.is_const(v) and v in (0, 1):
        return v
    if ex.decide("<", v):
        raise Panic("square root of a negative number")
    for name, w in ex.cache.get("sqrt", []):
        if w == v:
            return ex.w.gens[name]
    n = "r%d" % ex.fresh
    ex.fresh += 1
    r = ex.new(n)
    ex.cache.setdefault("sqrt", []).append((n, v))
    sq = ex.arith("fmul", r, r)
    ex.path += [ex.w.rel(">=", r), ex.w.rel("<=", ex.arith("fsub", sq, ex.arith("fmul", v, F(23, 20)))), ex.w.rel(">=", ex.arith("fsub", sq, ex.arith("fmul", v, F(17, 20))))]
    return r


def h_powi(ex, a):
    n = ex.int(a[1])
    n = n - (1 << 32) if n >> 31 else n
    r = F(1)
    for _ in range(abs(n)):
        r = ex.arith("fmul", r, a[0])
    return r if n >= 0 else ex.arith("fdiv", F(1), r)


def h_floor(ex, a):
    return F(ex.floor(a[0]))


def h_positive(ex, a):
    return int(ex.decide(">=", a[0]))


def h_negative(ex, a):
    return int(ex.decide("<", a[0]))


def h_false(ex, a):
    return 0


def h_true(ex, a):
    return 1


def h_abs(ex, a):
    return a[0] if ex.decide(">=", a[0]) else ex.arith("fsub", F(0), a[0])


def h_sin_cubic(ex, a):
    """fixed_point_sin(t) as t * (1 + c1 t + c2 t^2 + c3 t^3): the quadrature is then exact"""
    v = ex.load(a[0], "float") if isinstance(a[0], irexec.Ptr) else a[0]
    g = ex.w.gens
    p = F(1)
    t = v
    for n in ("c1", "c2", "c3"):
        p = ex.arith("fadd", p, ex.arith("fmul", g[n], t))
        t = ex.arith("fmul", t, v)
    return ex.arith("fmul", v, p)


FLOAT = [
    (r"F3216is_sign_positive|F32.*16is_sign_positive|f32.*16is_sign_positive|16is_sign_positive", h_positive),
    (r"16is_sign_negative", h_negative),
    (r"6is_nan", h_false),
    (r"11is_infinite", h_false),
    (r"9is_finite", h_true),
    (r"(micromath|4core3f32|[0-9]f32).*4powi", h_powi),
    (r"micromath.*5floor|@floorf", h_floor),
    (r"micromath.*3abs", h_abs),
    (r"micromath.*4sqrt|@sqrtf|@llvm\.sqrt", h_sqrt),
]
TAN = [(r"8fast_tan", h_fast_tan)]
SIN = [(r"15fixed_point_sin", h_sin_cubic)]


# ---------------------------------------------------------------- claims
# A claim is (label, lhs, relation, rhs) over field elements (symbolic) or floats
# (replay); the same Python computes both.


class Q:
    def __init__(self, entry, inputs, n_out, claims, assume=lambda z: [], hooks=(), spares=(), aux=None, tol=1e-3, margin=F(1, 50), panics=False, box=8, about="", limit=4000, extra=None, fixed=None):
        self.__dict__.update(locals())


def cplx(t):
    """1/z at s = j t (bilinear): (1 - jt) / (1 + jt), as numerator, denominator pairs of (re, im)"""
    return None


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def response(Y, num, den, t, k):
    """B(z) D(s) - A(z) N(s) with 1/z = (1 - jt)/(1 + jt) and s = j t / k; both parts must vanish.
    num, den: coefficients of s^0, s^1, s^2. Multiplied through by (1 + jt)^2 k^2."""
    one, m, p = (1, 0 * t), (1 + 0 * t, -t), (1 + 0 * t, t)
    pp, pm, mm = cmul(p, p), cmul(p, m), cmul(m, m)
    mix = lambda c0, c1, c2: (c0 * pp[0] + c1 * pm[0] + c2 * mm[0], c0 * pp[1] + c1 * pm[1] + c2 * mm[1])
    B = mix(Y[0], Y[1], Y[2])
    A = mix(1 + 0 * t, Y[3], Y[4])
    ana = lambda c: (c[0] * k * k - c[2] * t * t, c[1] * k * t)
    N, D = ana(num), ana(den)
    L, R = cmul(B, D), cmul(A, N)
    return [("the response is the analog prototype's (real part)", L[0], "==", R[0]), ("the response is the analog prototype's (imaginary part)", L[1], "==", R[1])]


def filt(proto):
    def claims(v, Y, A):
        t, k, q = v["t"], v["k"], v["q"]
        num, den = proto(v)
        return response(Y, num, den, t, k)
    return claims


def stable(v, Y, A):
    a1, a2 = Y[3], Y[4]
    return [("stable: a2 < 1", a2, "<", 1), ("stable: a1 < 1 + a2", a1, "<", 1 + a2), ("stable: -a1 < 1 + a2", -a1, "<", 1 + a2)]


def gains(dc=None, ny=None):
    """DC and Nyquist gain (dc, ny: functions of v)"""
    def claims(v, Y, A):
        b0, b1, b2, a1, a2 = Y
        out = []
        if dc:
            n, d = dc(v)
            out.append(("gain at DC", (b0 + b1 + b2) * d, "==", (1 + a1 + a2) * n))
        if ny:
            n, d = ny(v)
            out.append(("gain at Nyquist", (b0 - b1 + b2) * d, "==", (1 - a1 + a2) * n))
        return out
    return claims


def both(*cs):
    return lambda v, Y, A: [x for c in cs for x in c(v, Y, A)]


def pos(*names):
    return lambda z: [z[n] > 0 for n in names]


def filter_domain(gain=None):
    def a(z):
        c = [z["fc"] > 0, z["q"] > z3.Q(1, 100), z["q"] < 100, z["sr"] >= 1000, z["sr"] <= 1000000, z["fc"] * 2 < z["sr"], z["k"] > 0, z["t"] >= 0, z["t"] <= 100]
        if gain == "boost":
            c += [z["gain"] > z3.Q(1, 100), z["gain"] <= 100]
        if gain == "cut":
            c += [z["gain"] < -z3.Q(1, 100), z["gain"] >= -100]
        return c
    return a


def aux_filter(x, exe):
    """native k for a replay"""
    k, err = evaluate(exe, "rc_fast_tan", [to_f32(to_f32(to_f32(math.pi) * x["fc"]) / x["sr"])])
    return dict(k=k[0]) if k else None


def filter_q(entry, proto, gain=None, dc=None, ny=None, extra=()):
    ins = ["fc", "q", "sr"] + (["gain"] if gain else [])
    common = dict(hooks=TAN + FLOAT, spares=["k", "t"] + (["r0", "r1", "r2", "r3"] if "shelf" in entry else []), aux=aux_filter, assume=filter_domain(gain), extra="tan")
    cl = []
    if proto:
        cl.append(filt(proto))
    if dc or ny:
        cl.append(gains(dc, ny))
    return Q(entry, ins, 5, both(*cl), **common), Q(entry, ins, 5, stable, **common)


def lp(v): return (1, 0, 0), (1, 1 / v["q"], 1)
def hp(v): return (0, 0, 1), (1, 1 / v["q"], 1)
def ap(v): return (1, -1 / v["q"], 1), (1, 1 / v["q"], 1)
def no(v): return (1, 0, 1), (1, 1 / v["q"], 1)
def bb(v): return (1, v["gain"] / v["q"], 1), (1, 1 / v["q"], 1)
def bc(v): return (1, 1 / v["q"], 1), (1, -v["gain"] / v["q"], 1)


one = lambda v: (1, 1)
zero = lambda v: (0, 1)

QUERIES = {}
for n, e, proto, g, dc, ny in [
    ("lowpass", "rc_lowpass", lp, None, one, zero),
    ("highpass", "rc_highpass", hp, None, zero, one),
    ("allpass", "rc_allpass", ap, None, one, one),
    ("notch", "rc_notch", no, None, one, one),
    ("bell_boost", "rc_bell", bb, "boost", one, one),
    ("bell_cut", "rc_bell", bc, "cut", one, one),
    ("bell_boost_only", "rc_bell_boost_only", bb, "boost", one, one),
    ("bell_cut_only", "rc_bell_cut_only", bc, "cut", one, one),
    ("low_shelf_boost_only", "rc_low_shelf_boost_only", None, "boost", lambda v: (v["gain"], 1), one),
    ("low_shelf_cut_only", "rc_low_shelf_cut_only", None, "cut", lambda v: (1, -v["gain"]), one),
    ("low_shelf_boost", "rc_low_shelf", None, "boost", lambda v: (v["gain"], 1), one),
    ("low_shelf_cut", "rc_low_shelf", None, "cut", lambda v: (1, -v["gain"]), one),
]:
    QUERIES["response_" + n], QUERIES["stable_" + n] = filter_q(e, proto, g, dc, ny)


def biquad(v, Y, A):
    x = [v["x%d" % i] for i in range(8)]
    b, a1, a2 = [v["b0"], v["b1"], v["b2"]], v["a1"], v["a2"]
    y, out = [], []
    for n in range(8):
        e = b[0] * x[n]
        if n > 0:
            e = e + b[1] * x[n - 1] - a1 * y[n - 1]
        if n > 1:
            e = e + b[2] * x[n - 2] - a2 * y[n - 2]
        y.append(e)
        out.append(("sample %d" % n, Y[n], "==", e))
    return out




def shelf_boost(v, Y, A):
    """standard poles; the zeros' middle term is sqrt(2 gain) k (to what the square root allows)"""
    k, q, g = v["k"], v["q"], v["gain"]
    mid, n = (Y[0] - Y[2]) * 2, 1 - Y[3] + Y[4]
    a0 = q + k + k * k * q
    lo, hi = (0.85, 1.15) if isinstance(k, float) else (F(85, 100), F(115, 100))
    return [("poles (a1)", Y[3] * a0, "==", 2 * (k * k - 1) * q), ("poles (a2)", Y[4] * a0, "==", q - k + k * k * q),
            ("middle term, below", mid * mid, ">=", n * n * (2 * g * k * k * lo)), ("middle term, above", mid * mid, "<=", n * n * (2 * g * k * k * hi)),
            ("middle term, sign", mid, ">=", 0)]


def shelf_cut(v, Y, A):
    k, q, g = v["k"], v["q"], -v["gain"]
    mid, n = (1 - Y[4]) * 2, Y[0] - Y[1] + Y[2]
    a0 = q + k + k * k * q
    lo, hi = (0.85, 1.15) if isinstance(k, float) else (F(85, 100), F(115, 100))
    return [("zeros (b1)", Y[1] * a0, "==", 2 * (k * k - 1) * q * Y[0]), ("zeros (b2)", Y[2] * a0, "==", (q - k + k * k * q) * Y[0]),
            ("middle term, below", mid * mid, ">=", n * n * (2 * g * k * k * lo)), ("middle term, above", mid * mid, "<=", n * n * (2 * g * k * k * hi)),
            ("middle term, sign", mid, ">=", 0)]


for n, e, g, c in [("boost", "rc_low_shelf", "boost", shelf_boost), ("cut", "rc_low_shelf", "cut", shelf_cut),
                   ("boost_only", "rc_low_shelf_boost_only", "boost", shelf_boost), ("cut_only", "rc_low_shelf_cut_only", "cut", shelf_cut)]:
    QUERIES["shape_low_shelf_" + n] = Q(e, ["fc", "q", "sr", "gain"], 5, c, hooks=TAN + FLOAT, spares=["k", "t", "r0", "r1", "r2", "r3"], aux=aux_filter, assume=filter_domain(g), extra="tan", tol=2e-3)

def biquad_two(v, Y, A):
    out = []
    for k in range(2):
        w = dict(v)
        for i in range(8):
            w["x%d" % i] = v["x%d" % (8 * k + i)]
        out += biquad(w, Y[8 * k:8 * k + 8], A)
    return out


QUERIES["biquad_two"] = Q("rc_biquad_two", ["b0", "b1", "b2", "a1", "a2"] + ["x%d" % i for i in range(16)], 16, biquad_two, box=2)
QUERIES["biquad_new"] = Q("rc_biquad_new", ["x%d" % i for i in range(4)], 4, lambda v, Y, A: [("silent", y, "==", 0) for y in Y], box=None)
QUERIES["biquad"] = Q("rc_biquad", ["b0", "b1", "b2", "a1", "a2"] + ["x%d" % i for i in range(8)], 8, biquad, box=2)



def dsp(v, Y, A):
    x, sr = v["x"], v["sr"]
    return [
        ("samples to seconds", Y[0] * sr, "==", x), ("seconds to samples", Y[1], "==", x * sr),
        ("samples to milliseconds", Y[2] * sr, "==", 1000 * x), ("milliseconds to samples", Y[3] * 1000, "==", x * sr),
        ("seconds and back", Y[4], "==", x), ("samples and back", Y[5], "==", x),
        ("milliseconds and back", Y[6], "==", x), ("samples to milliseconds and back", Y[7], "==", x),
    ]


QUERIES["dsp"] = Q("rc_dsp", ["x", "sr"], 8, dsp, assume=lambda z: [z["sr"] > 0, z["sr"] <= 1000000, z["x"] >= -1000000, z["x"] <= 1000000], box=None)


def lagrange(n):
    """n points on an arbitrary polynomial of degree n - 1: reproduced everywhere"""
    def claims(v, Y, A):
        # Lagrange's form of the interpolating polynomial
        x = v["p"]
        s = 0 * x
        for i in range(n):
            t = v["y%d" % i]
            for j in range(n):
                if j != i:
                    t = t * (x - j) * F(1, i - j) if not isinstance(x, float) else t * (x - j) / (i - j)
            s = s + t
        return [("the interpolating polynomial", Y[0], "==", s)]
    return claims


def lag_domain(n):
    return lambda z: [z["p"] <= n - 1, z["p"] >= -2]


for n in range(1, 7):
    QUERIES["lagrange_%d" % n] = Q("rc_lagrange_%d" % n, ["y%d" % i for i in range(n)] + ["p"], 1, lagrange(n), assume=lag_domain(n), box=4)
QUERIES["lagrange_four"] = Q("rc_lagrange_four", ["y%d" % i for i in range(4)] + ["p"], 1, lagrange(4), assume=lag_domain(4), box=4)


def lerp(v, Y, A):
    a, b, t = v["a"], v["b"], v["t"]
    return [("weighted average", Y[0], "==", a + (b - a) * t)]


QUERIES["lerp"] = Q("rc_lerp", ["a", "b", "t"], 1, lerp)


def lerp_checked(v, Y, A):
    a, b, t = v["a"], v["b"], v["t"]
    return [("accepted exactly on [0, 1]", Y[1], "==", 1 if A["inside"] else 0)] + ([("weighted average", Y[0], "==", a + (b - a) * t)] if A["inside"] else [])


for n, inside, c in [("inside", True, lambda z: [z["t"] >= 0, z["t"] <= 1]), ("above", False, lambda z: [z["t"] > 1]), ("below", False, lambda z: [z["t"] < 0])]:
    QUERIES["lerp_" + n] = Q("rc_lerp_checked", ["a", "b", "t"], 2, lerp_checked, assume=c, aux=lambda x, exe, inside=inside: dict(inside=inside))


def comb(n, change):
    def claims(v, Y, A):
        fb, d = v["fb"], v["d"]
        buf, st, out = [0 * fb] * n, 0 * fb, []
        for i in range(10):
            if change and i == 5:
                fb, d = v["fb2"], v["d2"]
            o = buf[i % n]
            st = o * (1 - d) + st * d
            buf[i % n] = v["x%d" % i] + st * fb
            out.append(("sample %d" % i, Y[i], "==", o))
        return out
    return claims


XS = ["x%d" % i for i in range(10)]
QUERIES["comb"] = Q("rc_comb", ["fb", "d"] + XS, 10, comb(3, False), box=2)
QUERIES["comb_change"] = Q("rc_comb_change", ["fb", "d"] + XS + ["fb2", "d2"], 10, comb(2, True), box=2)


def all_pass(v, Y, A):
    buf, out = [0 * v["x0"]] * 3, []
    for i in range(10):
        o = buf[i % 3]
        out.append(("sample %d" % i, Y[i], "==", o - v["x%d" % i]))
        buf[i % 3] = v["x%d" % i] + (o * F(1, 2) if not isinstance(o, float) else o / 2)
    return out


QUERIES["all_pass"] = Q("rc_all_pass", XS, 10, all_pass)

YS = ["y%d" % i for i in range(5)]
MAIN = dict(YS=YS)


def piece(lo, hi):
    """one query per unit interval of the position, so that each has one polynomial as its answer"""
    return lambda z: [z["p"] >= lo, z["p"] < hi]


def at(v, n):
    return v["y%d" % (n % 5)]


def lerp_at(v, n, p):
    f = p - n
    return at(v, n) * (1 - f) + at(v, n + 1) * f


def lag_at(v, n, p, w):
    lo = -((w - 1) // 2)
    x = p - n - lo
    s = 0 * p
    for i in range(w):
        t = at(v, n + lo + i)
        for j in range(w):
            if j != i:
                t = t * (x - j) / (i - j) if isinstance(p, float) else t * (x - j) * F(1, i - j)
        s = s + t
    return s


def four_at(v, n, p):
    x = p - n
    s = 0 * p
    for i in range(4):
        t = at(v, n + i)
        for j in range(4):
            if j != i:
                t = t * (x - j) / (i - j) if isinstance(p, float) else t * (x - j) * F(1, i - j)
        s = s + t
    return s


for n in range(-12, 12):
    QUERIES["slice_lerp_wrapped_%d" % n] = Q("rc_slice_lerp_wrapped", YS + ["p"], 1, lambda v, Y, A, n=n: [("interpolates between cyclic neighbours", Y[0], "==", lerp_at(v, n, v["p"]))], assume=piece(n, n + 1), hooks=FLOAT, box=16)
    for w in (2, 3, 4, 5):
        QUERIES["slice_lagrange_%d_%d" % (w, n)] = Q("rc_slice_lagrange_%d" % w, YS + ["p"], 1, lambda v, Y, A, n=n, w=w: [("the window's interpolating polynomial", Y[0], "==", lag_at(v, n, v["p"], w))], assume=piece(n, n + 1), hooks=FLOAT, box=16)
    for w in (0, 1):
        QUERIES["slice_lagrange_%d_%d" % (w, n)] = Q("rc_slice_lagrange_%d" % w, YS + ["p"], 1, lambda v, Y, A, n=n: [("a constant runs through a single sample", Y[0], "==", at(v, n))], assume=piece(n, n + 1), hooks=FLOAT, box=16)
    if n in (-7, -1, 0, 4, 11):
        for w in (6, 8):
            QUERIES["slice_lagrange_%d_%d" % (w, n)] = Q("rc_slice_lagrange_%d" % w, YS + ["p"], 1, lambda v, Y, A, n=n, w=w: [("the window's interpolating polynomial", Y[0], "==", lag_at(v, n, v["p"], w))], assume=piece(n, n + 1), hooks=FLOAT, box=16)
        for w in (40, 120):
            QUERIES["slice_lagrange_%d_%d" % (w, n)] = Q("rc_slice_lagrange_%d" % w, YS + ["p"], 1, lambda v, Y, A, n=n: [("a wide window runs through the sample", Y[0], "==", at(v, n))], fixed=dict(p=F(n)), hooks=FLOAT, box=16)
    QUERIES["slice_four_%d" % n] = Q("rc_slice_four", YS + ["p"], 1, lambda v, Y, A, n=n: [("the window's interpolating polynomial", Y[0], "==", four_at(v, n, v["p"]))], assume=piece(n, n + 1), hooks=FLOAT, box=16)
    QUERIES["tap_lerp_%d" % n] = Q("rc_tap_lerp", YS + ["p"], 5, lambda v, Y, A, n=n: [("tap after %d steps" % i, Y[i], "==", lerp_at(v, n + i, v["p"] + i)) for i in range(5)], assume=piece(n, n + 1), hooks=FLOAT, box=16)
    QUERIES["tap_lagrange_%d" % n] = Q("rc_tap_lagrange", YS + ["p"], 5, lambda v, Y, A, n=n: [("tap after %d steps" % i, Y[i], "==", lag_at(v, n + i, v["p"] + i, 5)) for i in range(5)], assume=piece(n, n + 1), hooks=FLOAT, box=16)

for n in range(0, 4):
    QUERIES["slice_lerp_%d" % n] = Q("rc_slice_lerp", YS + ["p"], 2, lambda v, Y, A, n=n: [("accepted", Y[1], "==", 1), ("interpolates between neighbours", Y[0], "==", lerp_at(v, n, v["p"]))], assume=piece(n, n + 1), hooks=FLOAT, box=16)
QUERIES["slice_lerp_last"] = Q("rc_slice_lerp", YS + ["p"], 2, lambda v, Y, A: [("accepted", Y[1], "==", 1), ("the last sample", Y[0], "==", v["y4"])], assume=lambda z: [z["p"] == 4], hooks=FLOAT)
QUERIES["slice_lerp_above"] = Q("rc_slice_lerp", YS + ["p"], 2, lambda v, Y, A: [("refused", Y[1], "==", 0)], assume=lambda z: [z["p"] > 4, z["p"] < 30], hooks=FLOAT, box=32)
QUERIES["slice_lerp_below"] = Q("rc_slice_lerp", YS + ["p"], 2, lambda v, Y, A: [("refused", Y[1], "==", 0)], assume=lambda z: [z["p"] < 0, z["p"] > -30], hooks=FLOAT, box=32)


def pan(v, Y, A):
    p, l, r = v["p"], v["l"], v["r"]
    return [("left of a mono pan", 2 * Y[0], "==", (1 - p) * l), ("right of a mono pan", 2 * Y[1], "==", (1 + p) * l),
            ("crossfade", 2 * Y[2], "==", (1 - p) * l + (1 + p) * r)]


QUERIES["pan"] = Q("rc_pan", ["p", "l", "r"], 6, pan, assume=lambda z: [z["p"] >= -1, z["p"] <= 1], hooks=FLOAT, spares=["r0", "r1", "r2"])


# The integrand is sinc, from a sine x (1 + c1 x + c2 x^2 + c3 x^3) with unknown c's near the sine's own: the quadrature
# is exact on it. What sinc does near zero (where the sine is too coarse) is covered by the allowance.
def si(v, Y, A):
    x = A["x"]
    if "c1" in v:
        exact = x + v["c1"] * x ** 2 * F(1, 2) + v["c2"] * x ** 3 * F(1, 3) + v["c3"] * x ** 4 * F(1, 4)
        e = F(4, 10000)
    else:
        # replay: the integral of what sinc really returns
        exact, e = A["si"], 2e-4
    return [("the integral of sinc, above", Y[0], "<=", exact + e), ("the integral of sinc, below", Y[0], ">=", exact - e)]


def aux_si(x, exe):
    n, X = 8000, x["x"]
    h = X / n
    f = many(exe, "rc_sinc", [i * h for i in range(n + 1)])
    return dict(x=X, si=h / 3 * sum((1 if i in (0, n) else 4 if i % 2 else 2) * f[i] for i in range(n + 1))) if f else None


def many(exe, entry, xs):
    """a one-input, one-output entry at many points"""
    out = []
    for i in range(0, len(xs), 1000):
        h = ["%08x" % struct.unpack("<I", struct.pack("<f", x))[0] for x in xs[i:i + 1000]]
        p = subprocess.run([exe, "--each", entry] + h, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        if p.returncode:
            return None
        out += [struct.unpack("<f", struct.pack("<I", int(b, 16)))[0] for b in p.stdout.split()]
    return out


SI_X = [F(0), F(1, 4), F(-1, 4), F(1), F(-2), F(3), F(-13, 2)]
SI_MORE = [F(1, 16), F(-1, 2), F(2), F(-1), F(-3), F(5), F(-5), F(13, 2), F(8), F(-8)]
for i, c in enumerate(SI_X + SI_MORE):
    QUERIES["si_%s%d" % ("" if i < len(SI_X) else "more_", i)] = Q(
        "rc_si", ["x"], 1, si, hooks=SIN + FLOAT, spares=["c1", "c2", "c3"], aux=aux_si, fixed=dict(x=c), box=None, tol=1e-6,
        assume=lambda z: [z["c1"] >= -z3.Q(1, 200), z["c1"] <= z3.Q(1, 200), z["c2"] >= -z3.Q(1, 5), z["c2"] <= -z3.Q(2, 15), z["c3"] >= -z3.Q(1, 20), z["c3"] <= z3.Q(1, 20)])

def sinc(v, Y, A):
    x = v["x"]
    if "c1" in v:
        return [("sine over argument", Y[0], "==", 1 + v["c1"] * x + v["c2"] * x * x + v["c3"] * x * x * x)]
    return [("sine over argument", Y[0], "==", math.sin(x) / x)]


for n, c in [("positive", lambda z: [z["x"] >= z3.Q(1, 2), z["x"] <= 190]), ("negative", lambda z: [z["x"] <= -z3.Q(1, 2), z["x"] >= -190])]:
    QUERIES["sinc_" + n] = Q("rc_sinc", ["x"], 1, sinc, hooks=SIN + FLOAT, spares=["c1", "c2", "c3"], box=None, tol=3e-3, aux=lambda x, exe: {}, assume=c)

# tan on [0, 1]: at least the partial sum of its power series (all coefficients positive) up to x^15, and above it by
# at most 0.00105 x^17 (tan 1 minus the sum at 1 is 0.000992; every further term shrinks at least like x^17).
TAYLOR = [F(1), F(1, 3), F(2, 15), F(17, 315), F(62, 2835), F(1382, 155925), F(21844, 6081075), F(929569, 638512875)]


def fast_tan(sign):
    def claims(v, Y, A):
        x = v["x"] * sign
        y = Y[0] * sign
        s, p = 0 * x, x
        for c in TAYLOR:
            s = s + (c if not isinstance(x, float) else float(c)) * p
            p = p * x * x
        e, tail = (1e-5, 0.00105 * p) if isinstance(x, float) else (F(1, 100000), F(105, 100000) * p)
        return [("not above the tangent", y, "<=", s + tail + e), ("not below the tangent", y, ">=", s - e)]
    return claims


QUERIES["fast_tan_accuracy"] = Q("rc_fast_tan", ["x"], 1, fast_tan(1), hooks=FLOAT, assume=lambda z: [z["x"] >= 0, z["x"] <= 1], box=None, tol=1e-5)
QUERIES["fast_tan_accuracy_below"] = Q("rc_fast_tan", ["x"], 1, fast_tan(-1), hooks=FLOAT, assume=lambda z: [z["x"] <= 0, z["x"] >= -1], box=None, tol=1e-5)
QUERIES["fast_tan_positive"] = Q("rc_fast_tan", ["x"], 1, lambda v, Y, A: [("not below its argument", Y[0], ">=", v["x"])], hooks=FLOAT, assume=lambda z: [z["x"] >= 0, z["x"] <= z3.Q(8, 5)], box=None, tol=1e-5)
QUERIES["fast_tan_negative"] = Q("rc_fast_tan", ["x"], 1, lambda v, Y, A: [("not above its argument", Y[0], "<=", v["x"])], hooks=FLOAT, assume=lambda z: [z["x"] <= 0, z["x"] >= -z3.Q(8, 5)], box=None, tol=1e-5)


# ---------------------------------------------------------------- deciding


def lift(w, v):
    return w.const(v) if isinstance(v, F) else w.const(F(v)) if isinstance(v, int) else v


NEG = {"==": "!=", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}


def num(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    return F(v.numerator_as_long(), v.denominator_as_long())


def holds(rel, l, r, tol):
    if l != l or r != r:
        return False
    e = tol * max(1.0, abs(l), abs(r))
    return {"==": abs(l - r) <= e, "<": l < r + e, "<=": l <= r + e, ">": l > r - e, ">=": l >= r - e}[rel]


def replay(q, xs, exe):
    """None: the claim holds natively on this input; else what fails."""
    x = dict(zip(q.inputs, xs))
    x.update({k: v for k, v in xs_extra.items()})
    Y, err = evaluate(exe, q.entry, [x[n] for n in q.inputs])
    if err:
        return "aborts: " + err
    A = q.aux(x, exe) if q.aux else {}
    if A is None:
        return None
    v = dict(x)
    v.update(A)
    for t in (xs_extra.get("t", 1.0), 0.0, 0.01, 0.1, 0.3, 0.7, 1.0, 2.0, 10.0) if "t" in q.spares else (1.0,):
        if "t" in q.spares:
            v["t"] = t
        for label, l, rel, r in q.claims(v, Y, A):
            if not holds(rel, float(l), float(r), q.tol):
                return "%s(%s) = %s: %s: %.9g %s %.9g does not hold" % (
                    q.entry, ", ".join("%s=%.9g" % (n, x[n]) for n in q.inputs), " ".join("%.9g" % y for y in Y[:8]), label, l, rel, r)
    return None


xs_extra = {}


def reach(q, xs, k, exe):
    """the cutoff for which fast_tan really gives k, at the same sample rate"""
    x = dict(zip(q.inputs, xs))
    n = 512
    ks = many(exe, "rc_fast_tan", [to_f32(i * math.pi / 2 / n) for i in range(n)])
    if not ks:
        return xs
    i = min(range(1, n), key=lambda i: abs(ks[i] - k))
    lo, hi = (i - 1) * 0.5 / n, (i + 1) * 0.5 / n
    fs = [lo + (hi - lo) * j / 256 for j in range(257)]
    ks = many(exe, "rc_fast_tan", [to_f32(math.pi * f) for f in fs])
    j = min(range(1, 257), key=lambda j: abs(ks[j] - k))
    x["fc"] = to_f32(fs[j] * x["sr"])
    return [x[n] for n in q.inputs]


class OverTime(BaseException):
    pass


def decide_within(name, mod, exe, tier, start):
    """decide(); where that takes too long or stays undecided, the solver looks for violations with all but two inputs pinned"""
    def late(*_):
        raise OverTime()
    signal.signal(signal.SIGALRM, late)
    left = 420 - (time.time() - start)
    signal.alarm(int(max(20, min(60 if tier == "quick" else 600, left))))
    try:
        res = decide(name, mod, exe, tier)
    except OverTime:
        res = dict(query=name, obligations=0, paths=0, violations=[], inconclusive=["not decided in time"], functions=[], solver_s=0.0, solver_queries=0)
    signal.alarm(0)
    if not res["inconclusive"] or res["violations"]:
        return res
    q = QUERIES[name]
    real = [n for n in q.inputs if n not in (q.fixed or {})]
    rnd = random.Random(1)
    for _ in range(6):
        left = 480 - (time.time() - start)
        if left < 10:
            break
        keep = rnd.sample(real, min(2, len(real)))
        choice = {"fc": [F(100), F(5000), F(15000)], "sr": [F(48000)], "q": [F(1, 2), F(2)], "t": []}
        pin = {n: rnd.choice(choice.get(n) or [F(1), F(1, 2), F(-1), F(3, 4), F(-1, 4), F(2)]) for n in real if n not in keep}
        signal.alarm(int(min(20, left)))
        try:
            r = decide(name, mod, exe, tier, pin)
        except OverTime:
            continue
        finally:
            signal.alarm(0)
        res["solver_s"] += r["solver_s"]
        res["solver_queries"] += r["solver_queries"]
        if r["violations"]:
            res["violations"] = r["violations"]
            res["functions"] = r["functions"]
            break
    return res


def decide(name, mod, exe, tier, pin=None):
    q = QUERIES[name]
    w = World(q.inputs, q.spares)
    v = dict(w.gens)
    fixed = dict(q.fixed or {})
    for n, x in (pin or {}).items():
        v[n] = w.const(x)
        fixed[n] = x
    A = dict(q.fixed) if q.fixed else q.aux(dict.fromkeys(q.inputs, 0.0), exe) if q.aux and q.aux.__name__ == "<lambda>" else {}
    base = q.assume(w.z)
    if q.box:
        base += [z3.And(w.z[n] >= -q.box, w.z[n] <= q.box) for n in q.inputs if n not in ("fc", "q", "sr", "gain")]
    res = dict(query=name, obligations=0, paths=0, violations=[], inconclusive=[], functions=set())
    base += [w.z[n] == z3.Q(x.numerator, x.denominator) for n, x in (pin or {}).items()]
    if w.solve(base)[0] == "unsat":
        res["inconclusive"].append("the assumptions are contradictory")
        res.update(solver_s=0.0, solver_queries=1, functions=[])
        return res

    cache = {}

    def found(path, label, more):
        """a counterexample: several are tried, wide ones first"""
        seen = []
        # what the replay can reach: k from a frequency below Nyquist, the square root nearly exact
        near = [w.z["k"] <= 4, w.z["k"] >= z3.Q(1, 50)] if "k" in w.z else []
        for n, a in cache.get("sqrt", []):
            sq = w.gens[n] * w.gens[n]
            near += [w.rel("<=", sq - a * w.const(F(1001, 1000))), w.rel(">=", sq - a * w.const(F(999, 1000)))]
        for extra in ((more + near, near) if near else ()) + (more, [], [z3.And([z3.Or(w.z[n] > z3.Q(1, 4), w.z[n] < -z3.Q(1, 4)) for n in q.inputs if n not in q.spares])]):
            for _ in range(3):
                r, m = w.solve(path + extra + seen, 30000)
                if r != "sat":
                    break
                xs = [to_f32(fixed[n]) if n in fixed else to_f32(num(m, w.z[n])) for n in q.inputs]
                # for the prewarped frequency itself, k has no bearing on the counterexample
                if "k" in w.z and "prewarped" not in label:
                    xs = reach(q, xs, float(num(m, w.z["k"])), exe)
                xs_extra.clear()
                if "t" in q.spares:
                    xs_extra["t"] = float(num(m, w.z["t"]))
                how = replay(q, xs, exe)
                if how:
                    res["violations"].append(dict(label=label, how=how, inputs=[float(x) for x in xs], entry=q.entry))
                    return
                seen.append(z3.Or([z3.Or(w.z[n] > num(m, w.z[n]) + z3.Q(1, 8), w.z[n] < num(m, w.z[n]) - z3.Q(1, 8)) for n in q.inputs]))
        # arbitrary points of the path, to replay
        res["inconclusive"].append(label + ": the solver's counterexample does not reproduce natively")

    try:
        for path, out, ex in explore(mod, w, q.entry, [fixed.get(n, w.gens[n]) for n in q.inputs], q.n_out, base, q.hooks, q.limit):
            res["paths"] += 1
            res["functions"] |= ex.functions
            cache = ex.cache
            if isinstance(out, Panic):
                if not q.panics:
                    res["obligations"] += 1
                    found(ex.path, "must not fail: %s" % out, [])
                continue
            Y = [lift(w, o) if not isinstance(o, tuple) else None for o in out]
            if any(y is None for y in Y):
                res["inconclusive"].append("an output is not a real number")
                continue
            claims = list(q.claims(v, Y, A))
            if q.extra == "tan":
                args = [o for o in ex.obligations if o[0] == "tan argument"]
                if not args:
                    res["inconclusive"].append("fast_tan was not called")
                for _, a in args:
                    want = w.gens["fc"] * w.const(PI) / w.gens["sr"]
                    claims.append(("the prewarped frequency is pi fc / sr", lift(w, a), "==", want))
            for label, l, rel, r in claims:
                res["obligations"] += 1
                d = lift(w, l) - lift(w, r)
                if rel == "==" and not d.numer:
                    # identically zero: still asked of the solver, which sees 0 != 0
                    pass
                st, m = w.solve(ex.path + [w.rel(NEG[rel], d)])
                if st == "unsat":
                    continue
                if rel == "==":
                    # is it off by more than the tolerance anywhere?
                    far = z3.Or(w.rel(">", d - w.const(q.margin)), w.rel("<", d + w.const(q.margin)))
                else:
                    far = w.rel(NEG[rel], d - w.const(q.margin) if rel in ("<", "<=") else d + w.const(q.margin))
                if st == "unknown" or rel == "==":
                    st2, m2 = w.solve(ex.path + [far])
                    if st2 == "unsat" and rel == "==" and q.margin <= F(1, 50):
                        tiny = F(1, 10 ** 5)
                        st3, _ = w.solve(ex.path + [z3.Or(w.rel(">", d - w.const(tiny)), w.rel("<", d + w.const(tiny)))])
                        if st3 == "unsat":
                            continue
                        if st3 == "sat":
                            found(ex.path + [z3.Or(w.rel(">", d - w.const(tiny)), w.rel("<", d + w.const(tiny)))], label, [])
                            continue
                    if st2 == "unknown" and st == "unknown":
                        res["inconclusive"].append(label + ": no answer from the solver")
                        continue
                found(ex.path + [w.rel(NEG[rel], d)], label, [far])
            if len(res["violations"]) >= 3:
                break
    except Unsupported as u:
        res["inconclusive"].append("not encodable: %s" % u)
    res["solver_s"] = round(w.seconds, 3)
    res["solver_queries"] = w.queries
    res["functions"] = sorted(res["functions"])
    return res


TODO = []


def timed(i):
    t = time.time()
    r = decide_within(*TODO[i])
    r["wall_s"] = round(time.time() - t, 2)
    return r


def main():
    args = sys.argv[1:]
    lls, exe = build()
    if args[:1] == ["--replay"]:
        xs = [float(x) for line in open(args[2]) if not line.startswith("#") for x in line.split()]
        how = replay(QUERIES[args[1]], xs, exe)
        print(how or "held")
        return sys.exit(1 if how else 0)
    path = None
    if args[:1] == ["--out"]:
        path, args = args[1], args[2:]
    mod = Module()
    for ll in lls:
        mod.load(ll)
    names = [n for n in QUERIES if any(re.fullmatch(p, n) for p in args)]
    out = []
    start = time.time()
    jobs = [(n, mod, exe, os.environ.get("VERIF_TIER", "quick"), start) for n in names]
    global TODO
    TODO = jobs
    with multiprocessing.get_context("fork").Pool(max(1, min(6, len(jobs)))) as pool:
        out = list(pool.imap(timed, range(len(jobs)), 1))
    for n, r in zip(names, out):
        if os.environ.get("VERBOSE"):
            print(n, r["paths"], "paths", r["obligations"], "obl", r.get("solver_queries"), "q", r["wall_s"], "s", r["violations"][:1], r["inconclusive"][:2], file=sys.stderr)
    if path:
        with open(path, "w") as f:
            json.dump(out, f, default=list)
    else:
        json.dump(out, sys.stdout, default=list)


if __name__ == "__main__":
    main()
