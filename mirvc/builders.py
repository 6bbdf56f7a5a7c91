"""Proofs of the module builders: the circuit that is built satisfies the specification of its module."""
import z3, time
from .mir import Unsupported
from .core import *
from .l2 import *
from .std import subseq

NMAX = 2 ** 32
STATS = None


class Ctx:
    """One verification task: an engine, the contracts of the circuit layer and the list of results."""

    def __init__(self, crate, name, results, deadline=None):
        self.crate, self.name, self.results = crate, name, results
        self.eng = Engine(crate, deadline)
        self.l2 = L2(self.eng)
        self.eng.prefix = name + ": "

    def done(self):
        self.results.extend(self.eng.obs)
        if STATS is not None:
            e = self.eng
            STATS.append({"inlined": set(e.inlined), "contracts": set(e.used), "models": set(e.assumed), "solver_s": e.solver_time, "queries": e.queries})

    def goal(self, hyps, g, what):
        """A postcondition."""
        t = time.time()
        r = self.l2.prove(hyps, g)
        o = Obligation(self.eng.prefix + what, "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown", "" if r == z3.unsat else str(g)[:1500], time.time() - t)
        if r == z3.sat:
            hy = list(hyps) + [z3.Not(g)]
            hy += self.l2.facts(hy)
            o.definite, o.model = pure(self.eng, hy), model_ints(self.eng, hy)
        self.eng.obs.append(o)
        return r == z3.unsat

    def arith(self, hyps, g, what):
        """A goal without circuit theory."""
        t = time.time()
        r = self.eng.check(list(hyps) + [z3.Not(g)], 20000)
        o = Obligation(self.eng.prefix + what, "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown", "" if r == z3.unsat else str(g)[:1500], time.time() - t)
        if r == z3.sat:
            o.model = model_ints(self.eng, list(hyps) + [z3.Not(g)])
        self.eng.obs.append(o)
        return r == z3.unsat

    def fact(self, okay, what, detail=""):
        self.eng.obs.append(Obligation(self.eng.prefix + what, "proved" if okay else "refuted", detail, backend="structural"))
        return okay


class SpecSeq:
    """A recursively defined specification sequence S(0) = base, S(t+1) = step(t, S(t))."""

    def __init__(self, l2, name, sort, base, step):
        self.f = z3.Function(l2.eng.name(name), z3.IntSort(), sort)
        self.base, self.step = base, step
        self.depth = {}
        l2.spec_axioms[self.f.name()] = self.axioms
        self.l2 = l2

    def __call__(self, t):
        return self.f(simp(t))

    def axioms(self, x):
        t = x.arg(0)
        d = self.depth.get(t.get_id(), 0)
        if d >= 3:
            return []
        p = simp(t - 1)
        self.l2.keep.append(p)
        self.depth.setdefault(p.get_id(), d + 1)
        return [z3.Implies(t == 0, x == self.base), z3.Implies(t >= 1, x == self.step(p, self.f(p)))]


def recursive_fams(l2):
    """The families whose definition reaches themselves."""
    fams = l2.eng.fams

    def deps(f):
        out = set()
        xs = list(f.args) if f.kind != "mod" else [s.e for s in f.call.args.segs]
        st, seen = [x for x in xs if isz(x)], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().name() in fams:
                    out.add(x.decl().name())
                st.extend(x.children())
        return out
    D = {n: deps(f) for n, f in fams.items()}
    out = []
    for n in fams:
        seen, st = set(), list(D[n])
        while st:
            m = st.pop()
            if m in seen:
                continue
            seen.add(m)
            st.extend(D[m])
        if n in seen:
            out.append(n)
    return out


def fam_dom(f, x):
    return z3.And([z3.substitute(c, (f.ctx[0], x)) for c in f.dom] or [TRUE])


def bit_invariants(cx, hyps, seqs):
    """Finds, for each recursive family of bits F(k), a specification sequence S and an offset with V(F(k)) = S(k + o), by induction on k."""
    l2, eng = cx.l2, cx.eng
    cands = {}
    for n in recursive_fams(l2):
        f = eng.fams[n]
        if f.kind == "mod" or len(f.ctx) != 1:
            continue
        cands[n] = [(i, o) for i in range(len(seqs)) for o in (0, 1, 2)]
    k = z3.Int("k!ind")

    def value(n, c, x):
        return seqs[c[0]](x + c[1])
    saved = dict(l2.inv)
    changed = True
    while changed and any(cands.values()):
        changed = False

        def handler(n):
            f = eng.fams[n]

            def h(t):
                x = t.arg(0)
                if x.eq(k):
                    d = l2.define(t)
                    return [d]
                # an earlier element
                return [z3.Implies(z3.And(x >= 0, x < k, fam_dom(f, x)), z3.And([Vf(t) == value(n, c, x) for c in cands[n]] or [TRUE]))]
            return h
        for n in cands:
            l2.inv[n] = handler(n)
        for n in list(cands):
            f = eng.fams[n]
            keep = []
            for c in cands[n]:
                r = l2.prove(hyps + [k >= 0, fam_dom(f, k)], Vf(eng_app(f, k)) == value(n, c, k), 5000)
                if r == z3.unsat:
                    keep.append(c)
                else:
                    changed = True
            cands[n] = keep
    l2.inv = saved
    for n in cands:
        if cands[n]:
            f = eng.fams[n]
            l2.inv[n] = (lambda n, f: lambda t: [z3.Implies(fam_dom(f, t.arg(0)), z3.And([Vf(t) == value(n, c, t.arg(0)) for c in cands[n]]))])(n, f)
            eng.obs.append(Obligation(eng.prefix + "invariant of the recursive gates %s" % n, "proved"))


def eng_app(f, *xs):
    return z3.Function(f.name, *([z3.IntSort()] * (len(xs) + 1)))(*xs)


def nat_invariants(cx, hyps, seqs, width):
    """The same for vectors computed by a chain of module calls: Nat(m(k)) = S(k + 1)."""
    l2, eng = cx.l2, cx.eng
    cands = {}
    for n in recursive_fams(l2):
        f = eng.fams[n]
        if f.kind != "mod" or len(f.ctx) != 2:
            continue
        cands[n] = [(i, o) for i in range(len(seqs)) for o in (1, 0)]
    k = z3.Int("k!ind")
    saved = dict(l2.inv)
    changed = True

    def natt(f, x, n=None):
        return z3.Function("Nat_" + f.name, *([z3.IntSort()] * 4))(x, I(0), f.call.spec.out_len())
    while changed and any(cands.values()):
        changed = False

        def handler(n):
            f = eng.fams[n]

            def h(t):
                if not t.decl().name().startswith("Nat_"):
                    return []
                x = t.arg(0)
                if x.eq(k):
                    return None
                return [z3.Implies(z3.And(x >= 0, x < k), z3.And([t == seqs[c[0]](x + c[1]) for c in cands[n]] or [TRUE]))]
            return h
        for n in cands:
            l2.nats["Nat_" + n] = n
            l2.inv[n] = handler(n)
        for n in list(cands):
            f = eng.fams[n]
            keep = []
            d = [z3.substitute(c, (f.ctx[0], k)) for c in f.call.dom]
            for c in cands[n]:
                r = l2.prove(hyps + [k >= 0] + d, natt(f, k) == seqs[c[0]](k + c[1]), 10000)
                if r == z3.unsat:
                    keep.append(c)
                else:
                    changed = True
            cands[n] = keep
    l2.inv = saved
    for n in cands:
        f = eng.fams[n]
        if cands[n]:
            def h(t, n=n, f=f):
                if not t.decl().name().startswith("Nat_"):
                    return []
                x = t.arg(0)
                d = [z3.substitute(c, (f.ctx[0], x)) for c in f.call.dom]
                return [z3.Implies(z3.And(d), z3.And([t == seqs[c[0]](x + c[1]) for c in cands[n]]))]
            l2.inv[n] = h
            eng.obs.append(Obligation(eng.prefix + "invariant of the vectors %s" % n, "proved"))


# builder -> (kind, [(parameter name, kind of the module it takes, width factor)])
BUILDERS = {
    "build_not_circuit": ("not", []), "build_and_circuit": ("and", []), "build_or_circuit": ("or", []), "build_xor_circuit": ("xor", []),
    "build_eq_circuit": ("eq", []), "build_neq_circuit": ("neq", [("eq", 1)]),
    "build_add_circuit": ("add", []), "build_sub_circuit": ("sub", [("add", 1)]), "build_mul_circuit": ("mul", [("add", 1)]),
    "build_mul_extend_circuit": ("mul_extend", [("add", 2)]),
    "build_less_circuit": ("less", [("sub", 1)]), "build_less_or_eq_circuit": ("less_or_eq", [("less", 1), ("eq", 1)]),
    "build_larger_circuit": ("larger", [("less_or_eq", 1)]), "build_larger_or_eq_circuit": ("larger_or_eq", [("less", 1)]),
}


def verify_builder(crate, name, results, deadline=None):
    kind, params = BUILDERS[name]
    fn = crate.fns.get(name)
    if fn is None:
        raise Unsupported("function %s not found" % name)
    cx = Ctx(crate, name, results, deadline)
    eng, l2 = cx.eng, cx.l2
    try:
        n = z3.Int("n")
        st = State()
        st.assume(n >= 1, n <= NMAX)
        o = l2.new_circ(st)
        cell = ("arg", "c")
        st.cells[cell] = o
        args = [Ptr(cell, ()), n]
        for k, w in params:
            m = z3.Int("mid_" + k)
            l2.specs.append((m, Spec(k, n if w == 1 else simp(w * n))))
            args.append(m)
        if len(fn.parse().args if False else (fn.parse(), fn.args)[1]) != len(args):
            raise Unsupported("%s takes other parameters" % name)
        for s, v in eng.call_fn(fn, args, st):
            check_module(cx, s, v, o, Spec(kind, n))
    finally:
        cx.done()


def result_module(cx, s, v):
    """The circuit registered under the returned module id."""
    if not (isinstance(v, Enum) and v.name == "Result" and v.tag == 0):
        cx.fact(False, "the builder succeeds", repr(v))
        return None
    mid = v.pay[0][0]
    for oid, m in cx.l2.circs.items():
        if m is not None and isz(mid) and m.eq(mid):
            return s.heap[oid]
    cx.fact(False, "the returned id is the one of the circuit that was built", repr(mid))
    return None


def check_module(cx, s, v, caller, spec):
    l2, eng = cx.l2, cx.eng
    circ = result_module(cx, s, v)
    if circ is None:
        return
    ins, outs = circ.f
    n = spec.n
    hy = list(s.pc)
    a = cx.goal(hy, ins.len() == spec.in_len(), "number of inputs")
    b = cx.goal(hy, outs.len() == spec.out_len(), "number of outputs")
    c = s.heap[caller.id]
    cx.fact(not c.f[0].segs and not c.f[1].segs, "the calling circuit keeps its inputs and outputs")
    if not (a and b):
        return
    part = [subseq(eng, s, ins, simp(i * n), simp((i + 1) * n)) for i in range(1 if spec.kind == "not" else 2)]

    def inbit(i, t):
        s2 = s.copy()
        s2.assume(t >= 0, t < n)
        return l2.V(eng.seq_get(s2, part[i], simp(t)))
    k = spec.kind
    j = z3.Int("j!goal")
    sj = s.copy()
    sj.assume(j >= 0, j < spec.out_len())
    hj = list(sj.pc)
    if k in BITWISE:
        out = l2.V(eng.seq_get(sj, outs, j))
        cx.goal(hj, out == BITWISE[k](*[inbit(i, j) for i in range(len(part))]), "every output bit is the %s of the input bits" % k)
        return
    if k == "add":
        C = SpecSeq(l2, "Carry", z3.BoolSort(), FALSE, lambda t, c: z3.Or(z3.And(inbit(0, t), inbit(1, t)), z3.And(z3.Or(inbit(0, t), inbit(1, t)), c)))
        bit_invariants(cx, hy, [C])
        out = l2.V(eng.seq_get(sj, outs, j))
        cx.goal(hj, out == z3.Xor(z3.Xor(inbit(0, j), inbit(1, j)), C(j)), "output bit j is a_j + b_j + carry_j (so the output is a + b mod 2^n, lemma ripple)")
        return
    x, y = l2.nat(part[0]), l2.nat(part[1])
    if k in ("eq", "neq"):
        E = SpecSeq(l2, "Prefix", z3.BoolSort(), TRUE, lambda t, c: z3.And(c, inbit(0, t) == inbit(1, t)))
        bit_invariants(cx, hy, [E, lambda t: z3.Not(E(t))])
        out = l2.V(eng.seq_get(s, outs, I(0)))
        hy = hy + [E(n) == (x == y)]      # lemma prefix
        cx.goal(hy, out == l2.cmp(k, x, y, n), "the output bit is 1 iff the operands are %s" % ("equal" if k == "eq" else "different"))
        return
    if k in ("less", "less_or_eq", "larger", "larger_or_eq"):
        out = l2.V(eng.seq_get(s, outs, I(0)))
        cx.goal(hy, out == l2.cmp(k, x, y, n), "the output bit is the signed comparison " + k)
        return
    if k in ("mul", "mul_extend"):
        def term(p, q):
            # 2^t * (bit t of q ? low bits of p : 0)
            def f(t, m):
                s2 = s.copy()
                s2.assume(t >= 0, t < n)
                ln = simp(n - t) if k == "mul" else n
                lowp = l2.nat(subseq(eng, s2, part[p], I(0), ln))
                tt = MP(t, z3.If(inbit(q, t), lowp, I(0)))
                w = P(spec.out_len())
                return z3.If(m + tt >= w, m + tt - w, m + tt)
            return f
        M1 = SpecSeq(l2, "Sum", z3.IntSort(), I(0), term(0, 1))
        M2 = SpecSeq(l2, "Sum", z3.IntSort(), I(0), term(1, 0))
        nat_invariants(cx, hy, [M1, M2], spec.out_len())
        out = l2.nat(outs)
        PROD = z3.Int("product")            # the specified result; the lemma shift_add equates both sums to it
        hy = hy + [M1(n) == PROD, M2(n) == PROD]
        cx.goal(hy, out == PROD, "the output is the sum of the shifted operands (so the output is a * b mod 2^%s, lemma shift_add)" % ("n" if k == "mul" else "(2n)"))
        return
    out = l2.nat(outs)
    for f in l2.arith(k, x, y, n, out, spec.kw):
        cx.goal(hy, f, "the output is the %s of the operands mod 2^n" % {"sub": "difference"}.get(k, k))
