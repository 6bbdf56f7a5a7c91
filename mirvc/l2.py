"""Contracts of the circuit-building layer and the proofs of the builders and of the AllocBits / AllocInt / AllocFp operators.

A gate is an integer term; V(g) is its value under an arbitrary fixed assignment of the inputs of its circuit.  Every gate-creating call
site is a family of gates g(k1,..,kd) indexed by the enclosing loops, with the defining equation of its value.  A module call is a family
with one more index (the output position), about which only the specification of the called module is known.
"""
import z3
from .mir import Unsupported
from .core import *
from .std import subseq, need

Vf = z3.Function("V", z3.IntSort(), z3.BoolSort())
P = z3.Function("P2", z3.IntSort(), z3.IntSort())                     # 2^k
MP = z3.Function("MP2", z3.IntSort(), z3.IntSort(), z3.IntSort())      # 2^k * x
BITOF = z3.Function("bitof", z3.IntSort(), z3.IntSort(), z3.BoolSort())  # bit j of a number
NATOF = z3.Function("natof", z3.IntSort(), z3.IntSort(), z3.IntSort())   # the low n bits of a number


class Fam:
    __slots__ = ("name", "ctx", "dom", "circ", "kind", "args", "call", "decl")

    def __init__(self, name, ctx, dom, circ, kind, args, call=None):
        self.name, self.ctx, self.dom, self.circ, self.kind, self.args, self.call = name, ctx, dom, circ, kind, args, call


class Spec:
    """The specification of a module: kind, width and further parameters."""

    def __init__(self, kind, n, **kw):
        self.kind, self.n, self.kw = kind, n, kw

    def __repr__(self):
        return "%s(%s)" % (self.kind, self.n)

    def in_len(self):
        return self.n if self.kind == "not" else simp(2 * self.n)

    def out_len(self):
        if self.kind in ("eq", "neq", "less", "less_or_eq", "larger", "larger_or_eq"):
            return I(1)
        if self.kind == "mul_extend":
            return simp(2 * self.n)
        return self.n


class Call:
    __slots__ = ("ctx", "dom", "circ", "spec", "args", "fam", "st")


BITWISE = {"not": lambda x: z3.Not(x), "and": z3.And, "or": z3.Or, "xor": z3.Xor}


class L2:
    def __init__(self, eng):
        self.eng = eng
        eng.l2 = self
        self.specs = []            # (module id term, Spec)
        self.circs = {}            # object id -> module id term or None
        self.inv = {}              # family name -> function of the argument giving the proved value
        self.keep = []
        self.spec_axioms = {}      # axioms of the specification functions, by name
        self.nats = {}             # name of a Nat function -> (family name, number of arguments)
        self.install()

    # ------------------------------------------------------------ contracts
    def install(self):
        C = self.eng.contracts
        for op in ("not", "and", "or", "xor", "equivalent", "identity"):
            C["BoolCircuitRef::" + op] = self.mk_gate(op)
        C["BoolCircuitRef::input"] = self.c_input
        C["BoolCircuitRef::constant"] = self.c_const
        C["BoolCircuitRef::output"] = self.c_output
        C["BoolCircuitRef::sub_circuit"] = self.c_sub
        C["BoolCircuitRef::module"] = self.c_module
        C["BoolCircuitRef::clone"] = lambda eng, st, a, info: [(st, eng.deref_read(st, a[0]))]

    def obj(self, st, v):
        v = self.eng.deref_read(st, v)
        if not isinstance(v, Obj):
            raise Unsupported("circuit handle %r" % (v,))
        return v

    def new_circ(self, st, mid=None):
        o = Obj(self.eng.name("circ"))
        st.heap[o.id] = Agg("Circ", (Seq(), Seq()))
        self.circs[o.id] = mid
        return o

    def dom(self, st):
        names = {c.decl().name() for c in st.ctx}
        return [c for c in st.pc if has_const(c, names)] if names else []

    def new_gate(self, st, circ, kind, args):
        eng = self.eng
        n = eng.name("g_" + kind)
        if st.ctx:
            t = z3.Function(n, *([z3.IntSort()] * (len(st.ctx) + 1)))(*st.ctx)
        else:
            t = z3.Int(n)
        eng.fams[n] = Fam(n, st.ctx, self.dom(st), circ, kind, args)
        return t

    def owns(self, t, circ):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return self.owns(t.arg(1), circ) and self.owns(t.arg(2), circ)
        f = self.eng.fams.get(t.decl().name()) if z3.is_app(t) else None
        return f is not None and f.circ == circ

    def check_owner(self, st, t, circ, info):
        eng = self.eng
        if not isz(t):
            raise Unsupported("gate operand %r" % (t,))
        if not eng.record:
            return
        if not self.owns(t, circ):
            raise Unsupported("an operand that is not known to be a gate of this circuit: %s" % t)
        if eng.record:
            eng.obs.append(Obligation(eng.prefix + "%s: operand of %s belongs to the circuit" % (short(info.fr.fn.name) if info.fr else "", info.key), "proved", backend="ownership"))

    def mk_gate(self, op):
        def h(eng, st, a, info):
            o = self.obj(st, a[0])
            st = st.copy()
            args = [eng.deref_read(st, x) for x in a[1:]]
            for x in args:
                self.check_owner(st, x, o.id, info)
            return [(st, ok(self.new_gate(st, o.id, op, args)))]
        return h

    def c_input(self, eng, st, a, info):
        o = self.obj(st, a[0])
        st = st.copy()
        g = self.new_gate(st, o.id, "in", ())
        c = st.heap[o.id]
        st.heap[o.id] = Agg("Circ", (Seq(c.f[0].segs + (Seg(I(1), eng.jvar(), g),)), c.f[1]))
        return [(st, ok(g))]

    def c_const(self, eng, st, a, info):
        o = self.obj(st, a[0])
        st = st.copy()
        return [(st, ok(self.new_gate(st, o.id, "const", (a[1],))))]

    def c_output(self, eng, st, a, info):
        o = self.obj(st, a[0])
        st = st.copy()
        self.check_owner(st, a[1], o.id, info)
        c = st.heap[o.id]
        w = c.f[1].len()
        st.heap[o.id] = Agg("Circ", (c.f[0], Seq(c.f[1].segs + (Seg(I(1), eng.jvar(), a[1]),))))
        return [(st, ok(w))]

    def c_sub(self, eng, st, a, info):
        self.obj(st, a[0])
        st = st.copy()
        mid = eng.fresh(st, "mid")
        o = self.new_circ(st, mid)
        return [(st, tup(mid, o))]

    def spec_of(self, mid):
        for t, s in self.specs:
            if t.eq(mid):
                return s
        return None

    def c_module(self, eng, st, a, info):
        o = self.obj(st, a[0])
        st = st.copy()
        mid = eng.deref_read(st, a[1])
        args = eng.deref_read(st, a[2])
        need(args, Seq)
        spec = self.spec_of(mid)
        if spec is None:
            raise Unsupported("call of a module without a specification: %s" % mid)
        where = short(info.fr.fn.name) if info.fr else ""
        eng.oblige(st, args.len() == spec.in_len(), "%s: module %s gets as many arguments as it has inputs" % (where, spec.kind))
        for s in args.segs:
            self.check_owner(st, s.e, o.id, info)
        n = eng.name("m_" + spec.kind)
        c = Call()
        c.ctx, c.dom, c.circ, c.spec, c.args, c.fam = st.ctx, self.dom(st), o.id, spec, args, n
        c.st = st
        j = eng.jvar()
        d = z3.Function(n, *([z3.IntSort()] * (len(st.ctx) + 2)))
        eng.fams[n] = Fam(n, st.ctx + (j,), c.dom + [j >= 0, j < spec.out_len()], o.id, "mod", (), c)
        return [(st, ok(Seq([Seg(spec.out_len(), j, d(*(st.ctx + (j,))))])))]

    # ------------------------------------------------------------ values of gates
    def V(self, t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return ite(t.arg(0), self.V(t.arg(1)), self.V(t.arg(2)))
        f = self.eng.fams.get(t.decl().name()) if z3.is_app(t) else None
        if f is not None and f.kind == "const" and isz(f.args[0]):
            return simp(subst(f.args[0], list(zip(f.ctx, t.children())))) if f.ctx else f.args[0]
        return Vf(t)

    def define(self, t):
        """The defining equation of V(t), or None."""
        f = self.eng.fams.get(t.decl().name()) if z3.is_app(t) else None
        if f is None or f.kind in ("in", "ext"):
            return None
        sub = list(zip(f.ctx, t.children()))
        dom = [z3.substitute(c, *sub) if sub else c for c in f.dom]
        if f.kind == "mod":
            b = self.mod_bit(f.call, sub, t.children()[-1])
            if b is None:
                return None
        else:
            args = [z3.substitute(x, *sub) if sub else x for x in f.args]
            args = [x if z3.is_bool(x) else self.V(simp(x)) for x in args]
            b = {"not": lambda: z3.Not(args[0]), "and": lambda: z3.And(*args), "or": lambda: z3.Or(*args), "xor": lambda: z3.Xor(*args),
                 "equivalent": lambda: args[0] == args[1], "identity": lambda: args[0], "bits": lambda: args[0]}[f.kind]()
        e = Vf(t) == b
        return z3.Implies(z3.And(dom), e) if dom else e

    def arg_part(self, call, i, sub):
        """The i-th operand of a module call, as a sequence."""
        n = call.spec.n
        st = call.st
        s = subseq(self.eng, st, call.args, simp(i * n), simp((i + 1) * n))
        return subst(s, sub) if sub else s

    def mod_bit(self, call, sub, j):
        k = call.spec.kind
        eng = self.eng
        if k in BITWISE:
            xs = []
            for i in range(1 if k == "not" else 2):
                st = call.st.copy()
                st.assume(j >= 0, j < call.spec.n)
                seq = self.arg_part(call, i, [])
                e = eng.seq_get(st, seq, j)
                xs.append(self.V(subst(e, sub) if sub else e))
            return BITWISE[k](*xs)
        if k in ("eq", "neq", "less", "less_or_eq", "larger", "larger_or_eq"):
            x, y = (self.nat(self.arg_part(call, i, sub)) for i in (0, 1))
            return self.cmp(k, x, y, call.spec.n)
        return None

    def signed(self, x, n):
        return z3.If(x >= P(simp(n - 1)), x - P(n), x)

    def cmp(self, k, x, y, n):
        if k == "eq":
            return x == y
        if k == "neq":
            return x != y
        sx, sy = self.signed(x, n), self.signed(y, n)
        return {"less": sx < sy, "less_or_eq": sx <= sy, "larger": sx > sy, "larger_or_eq": sx >= sy}[k]

    # ------------------------------------------------------------ numbers
    def nat(self, seq, depth=0):
        off, ts = I(0), []
        for s in seq.segs:
            v = self.nat_seg(s.n, s.v, s.e, depth)
            if z3.is_int_value(v) and v.as_long() == 0:
                pass
            elif z3.is_int_value(off):
                ts.append(v * (2 ** off.as_long()) if off.as_long() else v)
            else:
                ts.append(MP(off, v))
            off = simp(off + s.n)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else I(0)

    def nat_seg(self, n, j, e, depth=0):
        jn = {j.decl().name()}
        if z3.is_int_value(n) and n.as_long() <= 4:
            ts = [z3.If(self.V(subst(e, [(j, I(i))])), I(2 ** i), I(0)) for i in range(n.as_long())]
            return z3.Sum(ts) if len(ts) > 1 else ts[0]
        if not has_const(e, jn):
            v = self.V(e)
            if lit(v) is False:
                return I(0)
            return z3.If(v, P(n) - 1, I(0))
        if e.decl().kind() == z3.Z3_OP_ITE and not has_const(e.arg(0), jn):
            return z3.If(e.arg(0), self.nat_seg(n, j, e.arg(1), depth), self.nat_seg(n, j, e.arg(2), depth))
        f = self.eng.fams.get(e.decl().name())
        if f is not None:
            args = list(e.children())
            if f.kind == "const":
                v = self.V(e)
                if lit(v) is False:
                    return I(0)
                if lit(v) is True:
                    return P(n) - 1
            if depth < 6:
                sub = list(zip(f.ctx, args))
                if f.kind in ("not", "identity"):
                    x = self.nat_seg(n, j, simp(z3.substitute(f.args[0], *sub)), depth + 1)
                    return P(n) - 1 - x if f.kind == "not" else x
                if f.kind == "and":
                    a, b = [simp(z3.substitute(x, *sub)) for x in f.args]
                    for x, y in ((a, b), (b, a)):
                        if not has_const(y, jn):
                            return z3.If(self.V(y), self.nat_seg(n, j, x, depth + 1), I(0))
                        vy = self.V(y)
                        if lit(vy) is not None:
                            return self.nat_seg(n, j, x, depth + 1) if lit(vy) else I(0)
            # F(.., lo + j)
            pos = [i for i, x in enumerate(args) if has_const(x, jn)]
            if pos == [len(args) - 1]:
                lo = simp(args[-1] - j)
                if not has_const(lo, jn):
                    nm = "Nat_" + f.name
                    self.nats[nm] = f.name
                    d = z3.Function(nm, *([z3.IntSort()] * (len(args) + 2)))
                    return d(*(args[:-1] + [lo, n]))
        # an unknown shape: a number that depends on the sequence
        jj = z3.Int("J")
        key = simp(z3.substitute(e, (j, jj)))
        nm = "NatX_" + str(abs(hash(key.sexpr())))
        return z3.Int(nm + "_" + str(abs(hash(simp(n).sexpr()))))

    # ------------------------------------------------------------ theory
    def facts(self, hyps, rounds=8, limit=400):
        """Defining equations, module specifications and arithmetic of powers of two, for the terms that occur."""
        out, seen, work = [], set(), list(hyps)
        done = set()
        natat, vat, pws, mps = [], [], {}, []
        for r in range(rounds):
            new = []
            stack = list(work)
            while stack:
                x = stack.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                out.append(None)       # keep ids alive
                self.keep.append(x)
                if z3.is_quantifier(x):
                    continue
                if z3.is_app(x):
                    stack.extend(x.children())
                    nm = x.decl().name()
                    if nm == "V":
                        new += self.unfold_v(x, vat)
                    elif nm == "P2":
                        pws[simp(x.arg(0)).get_id()] = simp(x.arg(0))
                    elif nm == "MP2":
                        mps.append(x)
                    elif nm in self.nats:
                        natat.append(x)
                        new += self.unfold_nat(x)
                    elif nm.startswith("NatX_"):
                        new.append(x >= 0)
                    elif nm in self.spec_axioms:
                        new += self.spec_axioms[nm](x)
            # relations between a number and its bits
            for v in vat:
                for a in natat:
                    key = (v.get_id(), a.get_id())
                    if key in done:
                        continue
                    done.add(key)
                    new += self.bit_fact(v, a)
            new = [x for x in new if not z3.is_true(x)]
            out += new
            work = new
            if not new or len(out) > 4 * limit:
                break
        out = [x for x in out if x is not None]
        # powers of two
        ps = list(pws.values())
        for i, a in enumerate(ps):
            out.append(z3.Implies(a >= 0, P(a) >= 1))
            out.append(z3.Implies(a == 0, P(a) == 1))
            for b in ps[i + 1:]:
                d = simp(a - b)
                if z3.is_int_value(d) and abs(d.as_long()) <= 8:
                    k = d.as_long()
                    lo = a if k < 0 else b
                    out.append(z3.Implies(lo >= 0, P(a) * (2 ** -k) == P(b) if k < 0 else P(a) == P(b) * (2 ** k)))
        for m in mps:
            o, x = m.arg(0), m.arg(1)
            out.append(z3.Implies(o == 0, m == x))
            out.append(z3.Implies(x == 0, m == 0))
            out.append(z3.Implies(x >= 0, m >= x))
            out.append(z3.Implies(x == 1, m == P(o)))
        return out


    def unfold_v(self, x, vat):
        t = x.arg(0)
        vat.append(x)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return [Vf(t) == self.V(t)]
        if not z3.is_app(t):
            return []
        nm = t.decl().name()
        if nm in self.inv:
            r = self.inv[nm](t)
            if r is not None:
                return r
        d = self.define(t)
        f = self.eng.fams.get(nm)
        if d is None and f is not None and f.kind == "mod":
            # the number formed by all outputs of the call
            ar = list(t.children())
            sub = list(zip(f.call.ctx, ar))
            ln = f.call.spec.out_len()
            nn = "Nat_" + f.name
            self.nats[nn] = f.name
            a = z3.Function(nn, *([z3.IntSort()] * (len(ar) + 2)))(*(ar[:-1] + [I(0), simp(z3.substitute(ln, *sub)) if sub else ln]))
            return [a >= 0]
        return [d] if d is not None else []

    def unfold_nat(self, a):
        f = self.eng.fams[self.nats[a.decl().name()]]
        ar = a.children()
        lo, n = ar[-2], ar[-1]
        dom = []
        out = [z3.Implies(n >= 0, z3.And(a >= 0, a <= P(n) - 1))]
        if f.kind == "mod":
            c = f.call
            sub = list(zip(c.ctx, ar[:-2]))
            if simp(lo).eq(I(0)) and simp(z3.substitute(c.spec.out_len(), *sub) if sub else c.spec.out_len()).eq(simp(n)):
                if f.name in self.inv:
                    r = self.inv[f.name](a)
                    if r is not None:
                        return out + r
                fs = self.mod_nat(c, sub, a)
                d = [z3.substitute(x, *sub) if sub else x for x in c.dom]
                out += [z3.Implies(z3.And(d), x) for x in fs] if d else fs
        if f.kind == "ext" and f.args:
            out += f.args[0](self, a, lo, n)
        if f.kind == "bits":
            v = f.args[1]
            # the number held by the vector
            if simp(lo).eq(I(0)):
                out.append(a == NATOF(v, n))
                out.append(z3.Implies(z3.And(v >= 0, v < P(n)), NATOF(v, n) == v))
        return out

    def mod_nat(self, c, sub, out):
        """What the specification of the called module says about the number its outputs form."""
        k, n = c.spec.kind, c.spec.n
        if k in ("not",):
            return [out == P(n) - 1 - self.nat(self.arg_part(c, 0, sub))]
        if k in BITWISE:
            return []
        x, y = (self.nat(self.arg_part(c, i, sub)) for i in (0, 1))
        return self.arith(k, x, y, n, out, c.spec.kw)

    def arith(self, k, x, y, n, out, kw):
        p2 = P(n)
        rng = [x >= 0, x < p2, y >= 0, y < p2]
        if k == "add":
            return [out == z3.If(x + y >= p2, x + y - p2, x + y)]
        if k == "sub":
            return [out == z3.If(x >= y, x - y, x - y + p2)]
        if k == "mul":
            return [z3.Implies(x == 0, out == 0), z3.Implies(y == 0, out == 0), z3.Implies(x == 1, out == y), z3.Implies(y == 1, out == x)]
        if k == "fpadd":
            p = kw["p"]
            s = z3.If(x + y >= p2, x + y - p2, x + y)
            h = P(simp(n - 1))
            return [out == z3.If(s < h, z3.If(s >= p, s - p, s), z3.If(s + p >= p2, s + p - p2, s + p))]
        if k == "fpsub":
            p = kw["p"]
            # canonical operands only
            return [z3.Implies(z3.And(x < p, y < p), out == z3.If(x >= y, x - y, x - y + p))]
        return []

    def bit_fact(self, v, a):
        """The top bit of a number: V(F(.., lo + n - 1)) iff Nat_F(.., lo, n) >= 2^(n-1)."""
        t = v.arg(0)
        fn = self.nats[a.decl().name()]
        if not z3.is_app(t) or t.decl().name() != fn:
            return []
        ar, at = a.children(), t.children()
        if len(at) + 1 != len(ar) or not all(simp(x).eq(simp(y)) for x, y in zip(ar[:-2], at[:-1])):
            return []
        lo, n, i = ar[-2], ar[-1], at[-1]
        if simp(i - lo - n + 1).eq(I(0)):
            return [z3.Implies(n >= 1, v == (a >= P(simp(n - 1))))]
        return []

    # ------------------------------------------------------------ proving
    def prove(self, hyps, goal, timeout=20000):
        """unsat / sat / unknown for hyps and not goal, with the facts about the terms that occur."""
        hy = list(hyps) + [z3.Not(goal)]
        hy += self.facts(hy)
        return self.eng.check(hy, timeout)
