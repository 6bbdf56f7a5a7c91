"""C17: the bit and byte codecs, for strings of any length."""
import z3
from .mir import Unsupported
from .core import *
from .l2 import *
from .builders import *

BYTEF = z3.Function("byte", z3.IntSort(), z3.IntSort())
BYTE = lambda k: BYTEF(k) % 256
BIT = z3.Function("bit", z3.IntSort(), z3.BoolSort())


def setup(crate, name, results, deadline):
    cx = Ctx(crate, name, results, deadline)
    cx.st = State()
    L = z3.Int("L")
    cx.st.assume(L >= 0, L <= NMAX)
    fn = crate.fns.get(name)
    if fn is None:
        raise Unsupported("function %s not found" % name)
    return cx, fn, L


def unpack(name, be):
    """bytes2bits: bit 8k+t of the result is bit t (little endian) or 7-t (big endian) of byte k."""
    def run(crate, results, deadline):
        cx, fn, L = setup(crate, name, results, deadline)
        eng = cx.eng
        j = eng.jvar()
        k, t = z3.Int("k"), z3.Int("t")
        try:
            for s, v in eng.call_fn(fn, [Seq([Seg(L, j, BYTE(j))])], cx.st):
                v = eng.deref_read(s, v)
                if not isinstance(v, Seq):
                    raise Unsupported("result of " + name)
                hy = list(s.pc)
                if not cx.arith(hy, v.len() == 8 * L, "the result has 8 bits per byte"):
                    continue
                for t in range(8):
                    s2 = s.copy()
                    s2.assume(k >= 0, k < L)
                    e = eng.seq_get(s2, v, simp(8 * k + t))
                    w = 7 - t if be else t
                    cx.arith(list(s2.pc), e == ((BYTE(k) / 2 ** w) % 2 == 1), "bit %d of byte k of the result is bit %d of the byte" % (t, w))
        finally:
            cx.done()
    return run


def pack(name, be):
    """bits2bytes for 8*L bits: byte k of the result is the sum of its 8 bits at their places."""
    def run(crate, results, deadline):
        cx, fn, L = setup(crate, name, results, deadline)
        eng = cx.eng
        j = eng.jvar()
        k = z3.Int("k")
        try:
            for s, v in eng.call_fn(fn, [Seq([Seg(simp(8 * L), j, BIT(j))])], cx.st):
                v = eng.deref_read(s, v)
                if not isinstance(v, Seq):
                    raise Unsupported("result of " + name)
                hy = list(s.pc)
                if not cx.arith(hy, v.len() == L, "the result has one byte per 8 bits"):
                    continue
                s2 = s.copy()
                s2.assume(k >= 0, k < L)
                e = eng.seq_get(s2, v, k)
                want = z3.Sum([z3.If(BIT(simp(8 * k + t)), 2 ** (7 - t if be else t), 0) for t in range(8)])
                cx.arith(list(s2.pc), e == want, "byte k of the result is the number formed by bits 8k..8k+7")
        finally:
            cx.done()
    return run


def inverse(crate, results, deadline):
    """The two contracts make packing and unpacking inverse to each other."""
    cx = Ctx(crate, "codecs are inverse", results, deadline)
    b = z3.Int("b")
    xs = [z3.Bool("x%d" % i) for i in range(8)]
    for be in (False, True):
        w = [7 - t if be else t for t in range(8)]
        o = "big" if be else "little"
        cx.arith([b >= 0, b <= 255], z3.Sum([z3.If((b / 2 ** w[t]) % 2 == 1, 2 ** w[t], 0) for t in range(8)]) == b, "packing inverts unpacking, %s endian" % o)
        v = z3.Sum([z3.If(xs[t], 2 ** w[t], 0) for t in range(8)])
        cx.arith([b == v], z3.And([((b / 2 ** w[t]) % 2 == 1) == xs[t] for t in range(8)]), "unpacking inverts packing, %s endian" % o)
        cx.arith([b == v], z3.And(b >= 0, b <= 255), "a packed byte fits, %s endian" % o)
    cx.done()


def delegate(name, target):
    """A function that must be exactly a call of the hex crate on its argument."""
    def run(crate, results, deadline):
        fn = crate.fns.get(name)
        if fn is None:
            raise Unsupported("function %s not found" % name)
        cx = Ctx(crate, name, results, deadline)
        eng = cx.eng
        arg = Tok("argument")
        calls = []

        def h(eng, st, a, info):
            r = Tok("result of " + info.key, (eng.deref_read(st, a[0]),))
            calls.append(info.key)
            return [(st, r)]
        for k in (target, "hex::" + target):
            eng.models[k] = h
            eng.contracts[k] = h
        try:
            for s, v in eng.call_fn(fn, [arg], State()):
                v = eng.deref_read(s, v)
                okay = isinstance(v, Tok) and v.name in ("result of " + target, "result of hex::" + target) and len(v.a) == 1 and v.a[0] is arg
                if not okay:
                    raise Unsupported("%s is not a plain call of hex::%s" % (name, target))
                cx.fact(True, "the result is that of hex::%s on the argument (assumed contract of the hex crate)" % target)
        finally:
            cx.done()
    return run


def tasks(prop):
    if prop == "C14":
        return [("bytes2bits_le", unpack("bytes2bits_le", False))]        # used by AllocInt::from_biguint
    if prop != "C17":
        return []
    return [("bytes2bits_le", unpack("bytes2bits_le", False)), ("bytes2bits_be", unpack("bytes2bits_be", True)),
            ("bits2bytes_le", pack("bits2bytes_le", False)), ("bits2bytes_be", pack("bits2bytes_be", True)),
            ("codecs are inverse", inverse), ("bytes2hex", delegate("bytes2hex", "encode")), ("hex2bytes", delegate("hex2bytes", "decode"))]
