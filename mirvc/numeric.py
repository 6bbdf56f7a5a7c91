"""C16: ext_gcd and the Montgomery inverse; and the construction of AllocFpConfig (C15, C16).

Integers of num-bigint are mathematical integers.  ext_gcd is verified against its own contract (recursion with a decreasing measure).
"""
import z3
from .mir import Unsupported
from .core import *
from .l2 import *
from .builders import *
from . import ops

iabs = lambda x: z3.If(x >= 0, x, -x)
imax = lambda x, y: z3.If(x >= y, x, y)


class Gcd:
    """The contract of ext_gcd(a, b) for a, b >= 0, with ghost witnesses ka, kb of d | a and d | b."""

    @staticmethod
    def ens(a, b, x, y, d, ka, kb):
        return [("a*x + b*y = d", a * x + b * y == d),
                ("d >= 0, and d > 0 unless a = b = 0", z3.And(d >= 0, z3.Implies(a + b > 0, d > 0))),
                ("d divides a and d divides b", z3.And(a == d * ka, b == d * kb, ka >= 0, kb >= 0)),
                ("for b = 0 the result is (1, 0, a)", z3.Implies(b == 0, z3.And(x == 1, y == 0, d == a))),
                ("d*|x| <= max(d, b)", d * iabs(x) <= imax(d, b)),
                ("d*|y| <= max(d, a)", d * iabs(y) <= imax(d, a))]


def poly(cx, hyps, goal, name, hints=(), definite=False):
    """A goal of nonlinear integer arithmetic.  hints are valid polynomial identities the solver need not find itself."""
    for h in hints:
        if h.get_id() not in cx.eng.hints:
            cx.eng.hints[h.get_id()] = h
            poly(cx, [], h, "arithmetic hint %d" % len(cx.eng.hints))
    t = time.time()
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(list(hyps))
    s.add(list(hints))
    s.add(z3.Not(goal))
    r = s.check()
    cx.eng.solver_time += time.time() - t
    cx.eng.queries += 1
    o = Obligation(cx.eng.prefix + name, "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown", "" if r == z3.unsat else str(goal)[:800], time.time() - t)
    if r == z3.sat:
        m = s.model()
        o.model = {d.name(): m[d].as_long() for d in m.decls() if d.arity() == 0 and z3.is_int_value(m[d])}
        o.definite = definite and not any(d.arity() for d in m.decls())
    cx.eng.obs.append(o)
    return r == z3.unsat


def ext_gcd(crate, results, deadline):
    fn = crate.fns.get("ext_gcd")
    if fn is None:
        raise Unsupported("function ext_gcd not found")
    cx = Ctx(crate, "ext_gcd", results, deadline)
    eng = cx.eng
    a, b = z3.Ints("a b")
    calls = []

    def rec(eng, st, args, info):
        a1, b1 = (eng.deref_read(st, v) for v in args)
        eng.oblige(st, z3.And(a1 >= 0, b1 >= 0), "ext_gcd: the recursive call has non-negative arguments")
        eng.oblige(st, b1 < b, "ext_gcd: the second argument decreases (termination)")
        st = st.copy()
        x, y, d, ka, kb = (eng.fresh(st, n) for n in ("x", "y", "d", "ka", "kb"))
        st.assume(*[e for _, e in Gcd.ens(a1, b1, x, y, d, ka, kb)])
        calls.append((a1, b1, ka, kb, x, y, d))
        return [(st, tup(x, y, d))]
    eng.contracts["ext_gcd"] = rec
    eng.contracts["utils::ext_gcd"] = rec
    try:
        st = State()
        st.assume(a >= 0, b >= 0)
        for s, v in eng.call_fn(fn, [a, b], st):
            if not (isinstance(v, Agg) and len(v.f) == 3):
                raise Unsupported("result of ext_gcd")
            x, y, d = (eng.deref_read(s, t) for t in v.f)
            # witnesses of divisibility, from the calls made and the quotients taken
            cand = [I(0), I(1)]
            for c in calls:
                cand += [c[2], c[3]]
                for (p, q), (qq, rr) in eng.divs.items():
                    cand += [qq * c[2] + c[3]]
            ks = []
            hy = list(s.pc)
            for t in (a, b):
                k = next((k for k in cand if quick(hy + eqhints(s, calls), z3.And(t == d * k, k >= 0))), I(1))
                ks.append(k)
            for n, e in Gcd.ens(a, b, x, y, d, *ks):
                if "|" in n:
                    bound(cx, hy, e, n, calls, a, b, x, y, d)
                else:
                    poly(cx, hy, e, n, eqhints(s, calls), definite=n.startswith("a*x"))
    finally:
        cx.done()


def eqhints(s, calls):
    return []


def quick(hyps, goal):
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(hyps)
    s.add(z3.Not(goal))
    return s.check() == z3.unsat


def bound(cx, hy, e, n, calls, a, b, x, y, d):
    """The size bounds; the product of the quotient and the bound of the recursive call is supplied."""
    hints = []
    for a1, b1, ka, kb, x1, y1, d1 in calls:
        for (p, q), (qq, rr) in cx.eng.divs.items():
            p, q = cx.eng.divargs[(p, q)]
            # |s - q t| * d <= d|s| + q * d|t|, valid for q >= 0, d >= 0
            T, S = d1 * iabs(y1), d1 * iabs(x1)
            hints.append(z3.Implies(z3.And(qq >= 0, d1 >= 0), d1 * iabs(x1 - qq * y1) <= S + qq * T))
            hints.append(z3.Implies(z3.And(qq >= 0, T <= a1), qq * T <= qq * a1))
            hints.append(z3.Implies(z3.And(kb >= 1, d1 >= 0), d1 * kb >= d1))
            hints.append(z3.Implies(z3.And(ka >= 1, d1 >= 0), d1 * ka >= d1))
            hints.append(z3.Implies(kb == 0, d1 * kb == 0))
            hints.append(z3.Implies(ka == 0, d1 * ka == 0))
    poly(cx, hy, e, n, hints)


def gcd_contract(cx):
    """ext_gcd as its callers see it."""
    def h(eng, st, args, info):
        a, b = (eng.deref_read(st, v) for v in args)
        eng.oblige(st, z3.And(a >= 0, b >= 0), "ext_gcd: non-negative arguments")
        st = st.copy()
        x, y, d, ka, kb = (eng.fresh(st, n) for n in ("x", "y", "d", "ka", "kb"))
        st.assume(*[e for _, e in Gcd.ens(a, b, x, y, d, ka, kb)])
        cx.gcds.append((a, b, x, y, d, ka, kb))
        return [(st, tup(x, y, d))]
    return h


def mod_inv(crate, results, deadline):
    """mod_inv(p, R) for coprime p >= 1 and R >= 2: a value w with 0 < w < R and p*w = 1 mod R."""
    fn = crate.inherent.get(("AllocFpConfig", "mod_inv"))
    if fn is None:
        raise Unsupported("function mod_inv not found")
    cx = Ctx(crate, "AllocFpConfig::mod_inv", results, deadline)
    cx.gcds = []
    eng = cx.eng
    eng.contracts["ext_gcd"] = eng.contracts["utils::ext_gcd"] = gcd_contract(cx)
    p, R, bp, bR = z3.Ints("p R bp bR")
    try:
        st = State()
        st.assume(p >= 1, R >= 2, p * bp + R * bR == 1)      # p and R are coprime (lemma odd_coprime for odd p and R = 2^e)
        for s, v in eng.call_fn(fn, [p, R], st):
            v = eng.deref_read(s, v)
            if not isz(v):
                raise Unsupported("result of mod_inv")
            hy = list(s.pc)
            hints, ks = [], [I(0)]
            for a, b, x, y, d, ka, kb in cx.gcds:
                # a = d*ka, b = d*kb and a*bp + b*bR = 1 give d*(ka*bp + kb*bR) = 1, so d = 1
                m = z3.Int("m!")
                hints += [z3.Implies(z3.And(d >= 0, d * (ka * bp + kb * bR) == 1), d == 1)]
                hints += [z3.Implies(z3.And(a == p, b == R, a == d * ka, b == d * kb, p * bp + R * bR == 1), d * (ka * bp + kb * bR) == 1)]
                hints += [z3.Implies(x == R, p * x + R * y == R * (p + y)), z3.Implies(x == -R, p * x + R * y == R * (y - p)), z3.Implies(x == 0, p * x == 0)]
                for t in (p + y, y - p, y):
                    z = eng.fresh(s, "z")
                    hy.append(z == t)                # a name for the sum
                    hints += [z3.Implies(R >= 2, R * z != 1), z3.Implies(z == t, R * z == R * t)]
                hints += [p * (x + R) == p * x + p * R, p * (x - R) == p * x - p * R]
                ks += [-y, p - y, -p - y]
            poly(cx, hy, z3.And(v > 0, v < R), "the inverse lies strictly between 0 and R", hints)
            done = False
            for k in ks:
                if quick(hy + hints, p * v == 1 + k * R):
                    done = True
                    poly(cx, hy, p * v == 1 + k * R, "p times the inverse is 1 modulo R", hints)
                    break
            if not done:
                poly(cx, hy, z3.Or([p * v == 1 + k * R for k in ks]), "p times the inverse is 1 modulo R", hints)
    finally:
        cx.done()


def lemma_hints(crate, results, deadline):
    """The lemmas the two proofs use."""
    cx = Ctx(crate, "number lemmas", results, deadline)
    d, k, q, S, T, A, x, y, z = z3.Ints("d k q S T A x y z")
    n, e, i = z3.Ints("n e i")
    poly(cx, [], z3.Implies(d * k == 1, z3.Or(d == 1, d == -1)), "d*k = 1 only for d = 1 or -1")
    poly(cx, [y >= 2], y * z != 1, "R*z = 1 is impossible for R >= 2")
    # d*|s - q*t| <= d*|s| + q*d*|t|, in two steps
    U = z3.Int("U")
    poly(cx, [q >= 0], iabs(q * y) == q * iabs(y), "|q*t| = q*|t|")
    poly(cx, [], iabs(x - U) <= iabs(x) + iabs(U), "|s - u| <= |s| + |u|")
    poly(cx, [d >= 0, x <= y], d * x <= d * y, "multiplying by d >= 0 is monotone")
    poly(cx, [], z3.And(d * (iabs(x) + q * iabs(y)) == d * iabs(x) + q * (d * iabs(y)), d * (x - q * y) == d * x - d * (q * y)), "distributivity")
    # an odd p and 2^e are coprime: from a Bezout pair for 2^e one for 2^(e+1)
    p, u, w, R = z3.Ints("p u w R")
    poly(cx, [p == 2 * k + 1], p * 1 + 1 * (-2 * k) == 1, "odd p and 2^0: coprime (base)")
    # p*u + R*w = 1 and p = 2k+1.  If w is even, R*w = 2R*(w/2).  If w is odd, p*(u+R) + R*(w-p) = 1 and w-p is even.
    poly(cx, [p == 2 * k + 1, p * u + R * w == 1, w == 2 * z], p * u + (2 * R) * z == 1, "odd p and 2^(e+1), even cofactor (step)", [R * (2 * z) == 2 * (R * z)])
    poly(cx, [p == 2 * k + 1, p * u + R * w == 1, w == 2 * z + 1], p * (u + R) + (2 * R) * (z - k) == 1, "odd p and 2^(e+1), odd cofactor (step)",
         [p * (u + R) == p * u + p * R, (2 * R) * (z - k) == 2 * (R * z) - 2 * (R * k), R * w == 2 * (R * z) + R, p * R == 2 * (R * k) + R] if False else
         [z3.Implies(z3.And(p == 2 * k + 1, w == 2 * z + 1), p * (u + R) + (2 * R) * (z - k) == p * u + R * w)])
    poly(cx, [], (2 * k + 1) * (u + R) + (2 * R) * (z - k) == (2 * k + 1) * u + R * (2 * z + 1), "odd p and 2^(e+1): the identity of the odd step")
    poly(cx, [x * u + y * w == d, x == e * n, y == e * i], d == e * (n * u + i * w), "every common divisor of a and b divides a*x + b*y", [(e * n) * u == e * (n * u), (e * i) * w == e * (i * w)])
    cx.done()


def config_new(cx):
    """AllocFpConfig::new for odd p, 1 < p < 2^e, p < 2^N: the stored fields."""
    eng, l2 = cx.eng, cx.l2
    p, e, bp, bR = z3.Ints("p r_exp bp bR")
    R = P(e)
    cx.st.assume(p > 1, p < R, R >= 2, e >= 1, e <= NMAX, cx.N >= 2, p % 2 == 1, p < P(cx.N))
    made = {}

    def b(kind, extra):
        def h(eng, st, a, info):
            st = st.copy()
            l2.obj(st, a[0])
            if not vsame(eng.deref_read(st, a[1]), cfg):
                raise Unsupported("another configuration is passed on")
            mid = eng.fresh(st, "mid_" + kind)
            extra(st, mid, [eng.deref_read(st, x) for x in a[2:]])
            return [(st, ok(mid))]
        return h

    def add(st, mid, a):
        made["add"] = (mid, a[0])
        l2.specs.append((mid, Spec("fpadd", cx.N, p=a[0])))

    def sub(st, mid, a):
        s = l2.spec_of(a[0])
        if s is None or s.kind != "fpadd":
            raise Unsupported("build_sub_circuit is given another module")
        l2.specs.append((mid, Spec("fpsub", cx.N, p=s.kw["p"])))
    C = eng.contracts
    C["AllocFpConfig::build_add_circuit"] = b("add", add)
    C["AllocFpConfig::build_sub_circuit"] = b("sub", sub)
    C["AllocFpConfig::build_mul_circuit"] = b("mul", lambda st, m, a: None)
    C["AllocFpConfig::build_mont_red"] = b("red", lambda st, m, a: None)
    K = z3.Function("inv_cofactor", z3.IntSort(), z3.IntSort(), z3.IntSort())
    calls = []

    def inv(eng, st, a, info):
        x, r = (eng.deref_read(st, v) for v in a)
        st = st.copy()
        eng.oblige(st, z3.And(x >= 1, r >= 2), "mod_inv: precondition 1 <= p and 2 <= R")
        eng.oblige(st, z3.And(x == p, r == R), "mod_inv: called on the modulus and 2^r_exp (coprime)")
        w, k = eng.fresh(st, "inv"), eng.fresh(st, "k")
        st.assume(w > 0, w < r, x * w == 1 + k * r)
        calls.append((x, r, w, k))
        return [(st, w)]
    C["AllocFpConfig::mod_inv"] = inv
    cfg = cx.config("AllocIntConfig")
    for st, v in cx.run(cx.method("AllocFpConfig", "new"), [cx.obj, cfg, p, e]):
        v = cx.okval(v)
        if v is None:
            continue
        hy = list(st.pc)
        cx.fact(vsame(cx.get(v, "c_ref"), cx.obj), "the configuration refers to the given circuit")
        cx.fact(vsame(cx.get(v, "int_config"), cfg), "the configuration keeps the given integer configuration")
        poly(cx, hy, eng.deref_read(st, cx.get(v, "p")) == p, "the configuration stores p")
        poly(cx, hy, eng.deref_read(st, cx.get(v, "r_exp")) == e, "the configuration stores the exponent")
        m = eng.deref_read(st, cx.get(v, "p_minus_inv"))
        hints = []
        for x, r, w, k in calls:
            hints += [x * (r - w) == x * r - x * w, p * (R - w) == p * R - p * w]
        poly(cx, hy, z3.And(m >= 0, m < R), "the stored inverse constant lies in [0, 2^e)", hints)
        ws = [z3.Or([p * m + 1 == (p - k) * R for x, r, w, k in calls] or [FALSE])]
        hints += [(p - k) * R == p * R - k * R for x, r, w, k in calls]
        poly(cx, hy, ws[0], "p times the stored constant is -1 modulo 2^e", hints)
        for f, kind in (("add_mid", "fpadd"), ("sub_mid", "fpsub")):
            sp = l2.spec_of(cx.get(v, f))
            cx.fact(sp is not None and sp.kind == kind, "%s computes %s" % (f, kind), repr(sp))
            if sp is not None:
                poly(cx, hy, sp.kw["p"] == p, "%s is for the modulus p" % f)
        cx.frame(st)


def to_gate_ids(cls):
    def body(cx):
        a = cx.value(cls, "a")
        for s, v in cx.run(cx.method(cls, "to_gate_ids"), [a]):
            v = cx.eng.deref_read(s, v)
            cx.fact(vsame(v, cx.bits(a)), "to_gate_ids returns the vector itself")
            cx.frame(s)
    return body


def fp_from_biguint(cx):
    """AllocFp::from_biguint_unchecked for a value below 2^N."""
    val = z3.Int("val")
    cx.st.assume(val >= 0, val < P(cx.N))
    for s, v in cx.run(cx.method("AllocFp", "from_biguint_unchecked"), [val, cx.config("AllocFpConfig")]):
        out = cx.vec(s, v, "AllocFp")
        cx.goal(list(s.pc), cx.nat(out) == val, "the field value denotes the number")
        cx.frame(s)


def tasks(prop):
    if prop == "C16":
        return [("ext_gcd", ext_gcd), ("AllocFpConfig::mod_inv", mod_inv), ("number lemmas", lemma_hints),
                ("AllocFpConfig::new", lambda c, r, d: ops.case(c, "AllocFpConfig::new", r, d, config_new))]
    if prop == "C15":
        return [(n, lambda c, r, d, n=n, b=b: ops.case(c, n, r, d, b)) for n, b in (
            ("AllocFpConfig::new", config_new), ("AllocFp::from_biguint_unchecked", fp_from_biguint), ("AllocFp::to_gate_ids", to_gate_ids("AllocFp")))]
    return []
