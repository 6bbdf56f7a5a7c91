"""Proofs of the methods and operators of AllocBits, AllocInt and AllocFp and of their configurations."""
import z3, time
from .mir import Unsupported
from .core import *
from .l2 import *
from .builders import *
from .std import subseq

FIELD_SPEC = {"not_mid": "not", "and_mid": "and", "or_mid": "or", "xor_mid": "xor", "eq_mid": "eq", "neq_mid": "neq", "add_mid": "add", "sub_mid": "sub", "mul_mid": "mul",
              "less_mid": "less", "less_or_eq_mid": "less_or_eq", "larger_mid": "larger", "larger_or_eq_mid": "larger_or_eq"}
FP_SPEC = {"add_mid": "fpadd", "sub_mid": "fpsub", "mul_mid": None, "mont_red_mid": None}


class Ops(Ctx):
    def __init__(self, crate, name, results, deadline=None):
        Ctx.__init__(self, crate, name, results, deadline)
        self.N = z3.Int("N")
        self.eng.generics["N"] = self.N
        self.st = State()
        self.st.assume(self.N >= 1, self.N <= NMAX)
        self.obj = self.l2.new_circ(self.st)
        self.ins0, self.outs0 = z3.Int("old_inputs"), z3.Int("old_outputs")
        self.st.assume(self.ins0 >= 0, self.outs0 >= 0)
        self.st.heap[self.obj.id] = Agg("Circ", (self.ext_seq("oldin", self.ins0), self.ext_seq("oldout", self.outs0)))
        self.configs = {}
        C = self.eng.contracts
        for b in BUILDERS:
            C[b] = self.c_builder(b)
        C["AllocInt::from_biguint"] = self.c_from_biguint

    # ---- contracts proved elsewhere
    def c_builder(self, b):
        kind, params = BUILDERS[b]

        def h(eng, st, a, info):
            l2 = self.l2
            l2.obj(st, a[0])
            st = st.copy()
            n = a[1]
            eng.oblige(st, n >= 1, "%s: width at least 1" % b)
            if len(a) != 2 + len(params):
                raise Unsupported("%s takes other parameters" % b)
            for m, (k, w) in zip(a[2:], params):
                s = l2.spec_of(m)
                if s is None or s.kind != k:
                    self.fact(False, "%s is given a module that computes %s" % (b, k), repr(s))
                    raise Unsupported("wrong module")
                eng.oblige(st, s.n == w * n, "%s: the module %s has the right width" % (b, k))
            mid = eng.fresh(st, "mid")
            l2.specs.append((mid, Spec(kind, n)))
            return [(st, ok(mid))]
        return h

    def c_from_biguint(self, eng, st, a, info):
        """AllocInt::from_biguint(val, config): N constant gates holding the bits of val."""
        l2 = self.l2
        val = eng.deref_read(st, a[0])
        cfg = eng.deref_read(st, a[1])
        st = st.copy()
        eng.oblige(st, z3.And(val >= 0, val < P(self.N)), "from_biguint: the value has at most N bits", extra=l2.facts(list(st.pc) + [P(self.N) > val]))
        o = cfg.f[self.index("AllocIntConfig", "c_ref")]
        n = eng.name("g_bits")
        j = eng.jvar()
        ctx = st.ctx
        eng.fams[n] = Fam(n, ctx + (j,), l2.dom(st) + [j >= 0, j < self.N], o.id, "bits", (BITOF(val, j), val))
        f = z3.Function(n, *([z3.IntSort()] * (len(ctx) + 2)))
        seq = Seq([Seg(self.N, j, f(*(ctx + (j,))))])
        return [(st, ok(self.mk("AllocInt", {"val_le": seq, "config": cfg})))]

    # ---- values
    def index(self, s, f):
        return [x for x, _ in self.crate.structs[s]].index(f)

    def mk(self, s, d):
        return Agg(s, [d[f] for f, _ in self.crate.structs[s]])

    def get(self, v, f):
        v = v if isinstance(v, Agg) else None
        if v is None or v.name not in self.crate.structs:
            raise Unsupported("struct value")
        return v.f[self.index(v.name, f)]

    def ext_seq(self, name, n, circ=None, fact=None):
        """n arbitrary gates that exist already."""
        eng = self.eng
        nm = eng.name("g_" + name)
        j = eng.jvar()
        eng.fams[nm] = Fam(nm, (j,), [], circ or self.obj.id, "ext", (fact,) if fact else ())
        return Seq([Seg(n, j, z3.Function(nm, z3.IntSort(), z3.IntSort())(j))])

    def ext_bit(self, name):
        nm = self.eng.name("g_" + name)
        self.eng.fams[nm] = Fam(nm, (), [], self.obj.id, "ext", ())
        return z3.Int(nm)

    def config(self, s, obj=None):
        if obj is None and s in self.configs:
            return self.configs[s]
        d = {}
        o = obj or self.obj
        for f, ty in self.crate.structs[s]:
            if f == "c_ref":
                d[f] = o
            elif s == "AllocFpConfig":
                if f == "int_config":
                    d[f] = self.config("AllocIntConfig", obj)
                elif f in FP_SPEC:
                    d[f] = z3.Int("fp_" + f)
                    if FP_SPEC[f]:
                        self.l2.specs.append((d[f], Spec(FP_SPEC[f], self.N, p=z3.Int("p"))))
                else:
                    d[f] = z3.Int("p" if f == "p" else "fp_" + f)
            elif f in FIELD_SPEC:
                d[f] = z3.Int("%s_%s" % (s, f))
                if self.l2.spec_of(d[f]) is None:
                    self.l2.specs.append((d[f], Spec(FIELD_SPEC[f], self.N)))
            else:
                raise Unsupported("unknown field %s of %s" % (f, s))
        v = self.mk(s, d)
        if obj is None:
            self.configs[s] = v
        return v

    def value(self, s, name, fact=None):
        if s == "AllocBits":
            return self.mk(s, {"bits": self.ext_seq(name, self.N), "config": self.config("AllocBitsConfig")})
        if s == "AllocInt":
            return self.mk(s, {"val_le": self.ext_seq(name, self.N, fact=fact), "config": self.config("AllocIntConfig")})
        if s == "AllocFp":
            return self.mk(s, {"val": self.value("AllocInt", name, fact), "config": self.config("AllocFpConfig")})
        raise Unsupported("value of " + s)

    def bits(self, v):
        if v.name == "AllocFp":
            v = self.get(v, "val")
        return self.get(v, "val_le" if v.name == "AllocInt" else "bits")

    def bit(self, st, seq, i):
        s2 = st.copy()
        s2.assume(i >= 0, i < seq.len())
        return self.l2.V(self.eng.seq_get(s2, seq, simp(i)))

    # ---- running and checking
    def method(self, s, m):
        f = self.crate.inherent.get((s, m))
        if f is None:
            raise Unsupported("%s::%s not found" % (s, m))
        return f

    def trait(self, tr, s, m):
        f = self.crate.traits.get((tr, s, m))
        if f is None:
            raise Unsupported("<%s as %s>::%s not found" % (s, tr, m))
        return f

    def run(self, fn, args):
        fn.parse()
        if len(fn.args) != len(args):
            raise Unsupported("%s takes other parameters" % fn.name)
        return self.eng.call_fn(fn, args, self.st)

    def okval(self, v):
        if isinstance(v, Enum) and v.name == "Result":
            if v.tag == 0:
                return v.pay[0][0]
            self.fact(False, "the operation succeeds", repr(v)[:300])
            return None
        return v

    def frame(self, s, ins=None, outs=None):
        """The circuit keeps its inputs and outputs, except for the given new ones."""
        c, c0 = s.heap[self.obj.id], self.st.heap[self.obj.id]
        for i, new, what in ((0, ins, "inputs"), (1, outs, "outputs")):
            k = len(c0.f[i].segs)
            pre = c.f[i].segs[:k]
            self.fact(len(pre) == k and all(segsame(x, y) for x, y in zip(pre, c0.f[i].segs)), "earlier %s of the circuit are kept" % what)
            rest = Seq(c.f[i].segs[k:])
            if new is None:
                self.fact(not rest.segs, "no %s are added" % what, repr(rest))
            else:
                self.eqseq(s, rest, new, "the new %s are the %s gates in order" % (what, "N" if i == 0 else "N value"))

    def eqseq(self, s, a, b, what):
        if not self.goal(list(s.pc), a.len() == b.len(), what + " (number)"):
            return
        j = z3.Int("j!eq")
        s2 = s.copy()
        s2.assume(j >= 0, j < a.len())
        self.goal(list(s2.pc), self.eng.seq_get(s2, a, j) == self.eng.seq_get(s2, b, j), what)

    def vec(self, s, v, cls):
        """The result is a cls over N gates of the circuit, with the configuration of the operand."""
        if not isinstance(v, Agg) or v.name != cls:
            raise Unsupported("result %r" % (v,))
        seq = self.bits(v)
        self.goal(list(s.pc), seq.len() == self.N, "the result has N gates")
        cfg = self.get(v, "config")
        self.fact(vsame(cfg, self.config(cls + "Config")), "the result has the configuration of the operands", repr(cfg)[:300])
        self.fact(all(self.l2.owns(g.e, self.obj.id) for g in seq.segs), "the gates of the result belong to the circuit")
        return seq

    def nat(self, seq):
        return self.l2.nat(seq)


def case(crate, name, results, deadline, body):
    cx = Ops(crate, name, results, deadline)
    try:
        body(cx)
    finally:
        cx.done()


def binary(cls, tr, m, post):
    """<&cls as tr>::m and the assigning form."""
    def plain(cx):
        a, b = cx.value(cls, "a"), cx.value(cls, "b")
        for s, v in cx.run(cx.trait(tr, "&" + cls, m), [a, b]):
            out = cx.vec(s, v, cls)
            post(cx, s, cx.bits(a), cx.bits(b), out)
            cx.frame(s)

    def assign(cx):
        a, b = cx.value(cls, "a"), cx.value(cls, "b")
        cell = ("arg", "self")
        cx.st.cells[cell] = a
        for s, v in cx.run(cx.trait(tr + "Assign", cls, m + "_assign"), [Ptr(cell, ()), b]):
            out = cx.vec(s, s.cells[cell], cls)
            post(cx, s, cx.bits(a), cx.bits(b), out)
            cx.frame(s)
    return plain, assign


def post_bitwise(k):
    def post(cx, s, a, b, out):
        j = z3.Int("j!goal")
        s2 = s.copy()
        s2.assume(j >= 0, j < cx.N, *[q.at(j) for q in s2.q])
        xs = [cx.bit(s2, a, j)] + ([cx.bit(s2, b, j)] if b is not None else [])
        cx.goal(list(s2.pc), cx.bit(s2, out, j) == BITWISE[k](*xs), "every bit is the %s of the operand bits" % k)
    return post


def post_arith(k):
    def post(cx, s, a, b, out):
        if k == "mul":
            # the result is the output of a multiplier applied to the operands in either order
            okay = False
            for e in ([out.segs[0].e] if len(out.segs) == 1 else []):
                f = cx.eng.fams.get(e.decl().name()) if z3.is_app(e) else None
                if f is not None and f.kind == "mod" and f.call.spec.kind == "mul" and e.num_args() == 1 and e.arg(0).eq(out.segs[0].v):
                    p, q = (cx.nat(cx.l2.arg_part(f.call, i, [])) for i in (0, 1))
                    x, y = cx.nat(a), cx.nat(b)
                    okay = cx.goal(list(s.pc), z3.Or(z3.And(p == x, q == y), z3.And(p == y, q == x)), "the result is the output of the multiplier of width N applied to the operands")
            if not okay:
                raise Unsupported("a product that is not the output of the multiplier module")
            return
        x, y, o = cx.nat(a), cx.nat(b), cx.nat(out)
        for f in cx.l2.arith(k, x, y, cx.N, o, {}):
            cx.goal(list(s.pc), f, "the result is the %s of the operands mod 2^N" % {"add": "sum", "sub": "difference"}[k])
    return post


def post_fp(k):
    def post(cx, s, a, b, out):
        p = z3.Int("p")
        x, y, o = cx.nat(a), cx.nat(b), cx.nat(out)
        hy = list(s.pc) + [p >= 1, 2 * p <= P(simp(cx.N - 1)), cx.N >= 2, x >= 0, x < p, y >= 0, y < p]
        if k == "add":
            cx.goal(hy, o == z3.If(x + y >= p, x + y - p, x + y), "the result is (a + b) mod p for canonical operands")
        else:
            cx.goal(hy, o == z3.If(x >= y, x - y, x - y + p), "the result is (a - b) mod p for canonical operands")
    return post


def compare(cls, m):
    def body(cx):
        a, b = cx.value(cls, "a"), cx.value(cls, "b")
        for s, v in cx.run(cx.method(cls, m), [a, b]):
            g = cx.okval(v)
            if g is None:
                continue
            x, y = cx.nat(cx.bits(a)), cx.nat(cx.bits(b))
            cx.goal(list(s.pc), cx.l2.V(g) == cx.l2.cmp(m, x, y, cx.N), "the bit is the comparison %s of the operands" % m)
            cx.fact(cx.l2.owns(g, cx.obj.id), "the bit is a gate of the circuit")
            cx.frame(s)
    return body


def unary_not(cx):
    a = cx.value("AllocBits", "a")
    for s, v in cx.run(cx.trait("Not", "&AllocBits", "not"), [a]):
        post_bitwise("not")(cx, s, cx.bits(a), None, cx.vec(s, v, "AllocBits"))
        cx.frame(s)


def mux(cx):
    a, b, g = cx.value("AllocBits", "a"), cx.value("AllocBits", "b"), cx.ext_bit("select")
    for s, v in cx.run(cx.method("AllocBits", "mux"), [a, b, g]):
        v = cx.okval(v)
        out = cx.vec(s, v, "AllocBits")
        j = z3.Int("j!goal")
        s2 = s.copy()
        s2.assume(j >= 0, j < cx.N)
        cx.goal(list(s2.pc), cx.bit(s2, out, j) == z3.If(cx.l2.V(g), cx.bit(s2, cx.bits(b), j), cx.bit(s2, cx.bits(a), j)), "every bit is the one of the selected vector")
        cx.frame(s)


def new(cls):
    def body(cx):
        for s, v in cx.run(cx.method(cls, "new"), [cx.config(cls + "Config")]):
            v = cx.okval(v)
            cx.frame(s, ins=cx.vec(s, v, cls))
    return body


def output(cls):
    def body(cx):
        a = cx.value(cls, "a")
        for s, v in cx.run(cx.method(cls, "output"), [a]):
            cx.okval(v)
            cx.frame(s, outs=cx.bits(a))
    return body


def from_gates(cls, m="from_gate_ids"):
    def body(cx):
        k = z3.Int("given")
        cx.st.assume(k >= 0, k <= cx.N)
        g = cx.ext_seq("given", k)
        for s, v in cx.run(cx.method(cls, m), [g, cx.config(cls + "Config")]):
            out = cx.vec(s, cx.okval(v), cls)
            j = z3.Int("j!goal")
            s2 = s.copy()
            s2.assume(j >= 0, j < k)
            cx.goal(list(s2.pc), cx.eng.seq_get(s2, out, j) == cx.eng.seq_get(s2, g, j), "the given gates are the low bits")
            s3 = s.copy()
            s3.assume(j >= k, j < cx.N)
            cx.goal(list(s3.pc), z3.Not(cx.bit(s3, out, j)), "the bits above are zero")
            cx.frame(s)
    return body


def constant(cls, m):
    def body(cx):
        for s, v in cx.run(cx.method(cls, m), [cx.config(cls + "Config")]):
            out = cx.vec(s, cx.okval(v), cls)
            j = z3.Int("j!goal")
            s2 = s.copy()
            s2.assume(j >= 0, j < cx.N)
            cx.goal(list(s2.pc), cx.bit(s2, out, j) == (z3.BoolVal(False) if m == "zero" else j == 0), "the value is " + m)
            cx.frame(s)
    return body


def neg(cls):
    def body(cx):
        a = cx.value(cls, "a")
        for s, v in cx.run(cx.trait("Neg", "&" + cls, "neg"), [a]):
            out = cx.vec(s, v, cls)
            x, o = cx.nat(cx.bits(a)), cx.nat(out)
            if cls == "AllocInt":
                cx.goal(list(s.pc), o == z3.If(x == 0, 0, P(cx.N) - x), "the result is -a mod 2^N")
            else:
                p = z3.Int("p")
                cx.goal(list(s.pc) + [p >= 1, 2 * p <= P(simp(cx.N - 1)), cx.N >= 2, x >= 0, x < p], o == z3.If(x == 0, 0, p - x), "the result is -a mod p for a canonical operand")
            cx.frame(s)
    return body


def shift(m):
    def body(cx):
        a = cx.value("AllocInt", "a")
        k = z3.Int("shift")
        cx.st.assume(k >= 0, k <= cx.N)
        for s, v in cx.run(cx.method("AllocInt", m), [a, k]):
            out = cx.vec(s, cx.okval(v), "AllocInt")
            j = z3.Int("j!goal")
            A = cx.bits(a)
            s2 = s.copy()
            s2.assume(j >= 0, j < cx.N)
            o = cx.bit(s2, out, j)
            if m == "shift_left":
                cx.goal(list(s2.pc) + [j < k], z3.Not(o), "the low bits are zero")
                cx.goal(list(s2.pc) + [j >= k], o == cx.bit(s2, A, simp(j - k)), "the other bits are shifted up (so the result is a * 2^s mod 2^N)")
            else:
                cx.goal(list(s2.pc) + [j < cx.N - k], o == cx.bit(s2, A, simp(j + k)), "the low bits are shifted down")
                cx.goal(list(s2.pc) + [j >= cx.N - k], o == cx.bit(s2, A, simp(cx.N - 1)), "the high bits are copies of the sign")
            cx.frame(s)
    return body


def from_biguint(cx):
    """Against the definition of to_bytes_le (assumed) and bytes2bits_le (contract proved under C17)."""
    eng, l2 = cx.eng, cx.l2
    del eng.contracts["AllocInt::from_biguint"]
    val, L, B = z3.Int("val"), z3.Int("nbytes"), z3.Int("nbits")
    BY = z3.Function("valbyte", z3.IntSort(), z3.IntSort())
    cx.st.assume(val >= 0, L >= 1, L <= NMAX, B >= 0, B <= 8 * L, B <= cx.N, z3.Implies(B > 0, B > 8 * L - 8))
    j = eng.jvar()

    def to_bytes(eng, st, a, info):
        eng.assumed.add("BigUint::to_bytes_le")
        return [(st, Seq([Seg(L, j, BY(j))]))]

    def b2b(eng, st, a, info):
        s = eng.deref_read(st, a[0])
        # bit 8 i + t of the unpacked string is bit t of byte i; bit t of byte i of to_bytes_le is bit 8 i + t of the number
        if len(s.segs) != 1 or not vsame(s.at(z3.Int("q")) if False else s.segs[0].at(z3.Int("q")), BY(z3.Int("q"))):
            raise Unsupported("unpacking of other bytes")
        jj = eng.jvar()
        return [(st, Seq([Seg(simp(8 * L), jj, BITOF(val, jj))]))]
    eng.models["BigUint::to_bytes_le"] = to_bytes
    eng.contracts["bytes2bits_le"] = b2b
    eng.models["BigUint::bits"] = lambda eng, st, a, info: (eng.assumed.add("BigUint::bits"), [(st, B)])[1]
    eng.models["BigUint::bit"] = lambda eng, st, a, info: (eng.assumed.add("BigUint::bit"), [(st, BITOF(val, eng.deref_read(st, a[1])))])[1]
    for s, v in cx.run(cx.method("AllocInt", "from_biguint"), [val, cx.config("AllocIntConfig")]):
        out = cx.vec(s, cx.okval(v), "AllocInt")
        jg = z3.Int("j!goal")
        s2 = s.copy()
        s2.assume(jg >= 0, jg < cx.N)
        cx.goal(list(s2.pc) + [z3.Implies(jg >= B, z3.Not(BITOF(val, jg)))], cx.bit(s2, out, jg) == BITOF(val, jg), "bit j of the value is bit j of the number")
        cx.frame(s)


def config_new(s):
    def body(cx):
        for st, v in cx.run(cx.method(s, "new"), [cx.obj]):
            v = cx.okval(v)
            if v is None:
                continue
            for f, _ in cx.crate.structs[s]:
                x = cx.get(v, f)
                if f == "c_ref":
                    cx.fact(vsame(x, cx.obj), "the configuration refers to the given circuit")
                else:
                    sp = cx.l2.spec_of(x)
                    cx.fact(sp is not None and sp.kind == FIELD_SPEC[f], "%s computes %s" % (f, FIELD_SPEC[f]), repr(sp))
                    if sp is not None:
                        cx.goal(list(st.pc), sp.n == cx.N, "%s has width N" % f)
            cx.frame(st)
    return body


def fp_builder(m, kind):
    """AllocFpConfig::build_add_circuit / build_sub_circuit."""
    def body(cx):
        p = z3.Int("p")
        l2, eng = cx.l2, cx.eng
        cx.st.assume(p >= 1, cx.N >= 2)
        st = cx.st
        fn = cx.method("AllocFpConfig", m)
        cell = ("arg", "c")
        st.cells[cell] = cx.obj
        H = P(simp(cx.N - 1))
        pre = [P(cx.N) == 2 * H, 2 * p <= H, H >= 1]
        st.assume(*pre)
        args = [Ptr(cell, ()), cx.config("AllocIntConfig")]
        if kind == "fpadd":
            args.append(p)
        else:
            mm = z3.Int("mid_add")
            l2.specs.append((mm, Spec("fpadd", cx.N, p=p)))
            args.append(mm)
        for s, v in cx.run(fn, args):
            check_module_fp(cx, s, v, Spec(kind, cx.N, p=p))
    return body


def check_module_fp(cx, s, v, spec):
    l2, eng = cx.l2, cx.eng
    circ = result_module(cx, s, v)
    if circ is None:
        return
    ins, outs = circ.f
    hy = list(s.pc)
    a = cx.goal(hy, ins.len() == 2 * cx.N, "number of inputs")
    b = cx.goal(hy, outs.len() == cx.N, "number of outputs")
    cx.frame(s)
    if not (a and b):
        return
    x, y = (l2.nat(subseq(eng, s, ins, simp(i * cx.N), simp((i + 1) * cx.N))) for i in (0, 1))
    out = l2.nat(outs)
    for f in l2.arith(spec.kind, x, y, cx.N, out, spec.kw):
        cx.goal(hy, f, "the output is the specified " + {"fpadd": "field sum", "fpsub": "field difference"}[spec.kind])


OPS = {}


def add(prop, name, body):
    OPS.setdefault(prop, []).append((name, body))


for tr, m, k in (("BitAnd", "bitand", "and"), ("BitOr", "bitor", "or"), ("BitXor", "bitxor", "xor")):
    p_, a_ = binary("AllocBits", tr, m, post_bitwise(k))
    add("C10", "AllocBits::" + m, p_)
    add("C10", "AllocBits::%s_assign" % m, a_)
add("C10", "AllocBits::not", unary_not)
add("C10", "AllocBits::mux", mux)
add("C10", "AllocBits::eq", compare("AllocBits", "eq"))
add("C10", "AllocBits::neq", compare("AllocBits", "neq"))
add("C10", "AllocBits::new", new("AllocBits"))
add("C10", "AllocBits::output", output("AllocBits"))
add("C10", "AllocBits::from_gate_ids", from_gates("AllocBits"))
add("C10", "AllocBitsConfig::new", config_new("AllocBitsConfig"))
for tr, m, k, pr in (("Add", "add", "add", "C11"), ("Sub", "sub", "sub", "C11"), ("Mul", "mul", "mul", "C12")):
    p_, a_ = binary("AllocInt", tr, m, post_arith(k))
    add(pr, "AllocInt::" + m, p_)
    add(pr, "AllocInt::%s_assign" % m, a_)
add("C11", "AllocInt::neg", neg("AllocInt"))
for m in ("eq", "neq", "less", "less_or_eq", "larger", "larger_or_eq"):
    add("C13", "AllocInt::" + m, compare("AllocInt", m))
for pr in ("C11", "C12", "C13"):
    add(pr, "AllocIntConfig::new", config_new("AllocIntConfig"))
add("C14", "AllocInt::new", new("AllocInt"))
add("C14", "AllocInt::output", output("AllocInt"))
add("C14", "AllocInt::from_gate_ids", from_gates("AllocInt"))
add("C14", "AllocInt::zero", constant("AllocInt", "zero"))
add("C14", "AllocInt::one", constant("AllocInt", "one"))
add("C14", "AllocInt::from_biguint", from_biguint)
add("C14", "AllocInt::shift_left", shift("shift_left"))
add("C14", "AllocInt::shift_right", shift("shift_right"))
for tr, m, k in (("Add", "add", "add"), ("Sub", "sub", "sub")):
    p_, a_ = binary("AllocFp", tr, m, post_fp(k))
    add("C15", "AllocFp::" + m, p_)
    add("C15", "AllocFp::%s_assign" % m, a_)
add("C15", "AllocFp::neg", neg("AllocFp"))
add("C15", "AllocFp::eq", compare("AllocFp", "eq"))
add("C15", "AllocFp::neq", compare("AllocFp", "neq"))
add("C15", "AllocFp::zero", constant("AllocFp", "zero"))
add("C15", "AllocFp::one", constant("AllocFp", "one"))
add("C15", "AllocFp::new", new("AllocFp"))
add("C15", "AllocFp::output", output("AllocFp"))
add("C15", "AllocFp::from_gate_ids_unchecked", from_gates("AllocFp", "from_gate_ids_unchecked"))
add("C15", "AllocFpConfig::build_add_circuit", fp_builder("build_add_circuit", "fpadd"))
add("C15", "AllocFpConfig::build_sub_circuit", fp_builder("build_sub_circuit", "fpsub"))
