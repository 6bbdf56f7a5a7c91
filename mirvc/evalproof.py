"""C03: contracts of the evaluator, for a circuit of any size that satisfies INV (level1.py) and any evaluation order.

The evaluator keeps two maps, E (bits of evaluated gates that are still needed) and N (how often they are still needed).  The contract relates
them to two ghost functions of the evaluation, done (gates evaluated so far) and R (R(x) = number of operand positions of gates not yet done that
hold x):
  J1  a bit in E is the value of its gate, and its gate is in N
  J2  the bit of a done gate that is still needed (R(x) > 0 or x is an output) is in E
  J3  only done gates are in E
  J4  N(x) >= (R(x) if x is done) + out(x),  J5  N(x) <= (dep(x) if x is done) + out(x)
  J6  the inputs are done
where out(x) is the number of outputs registered for x and dep(x) the number of dependences the circuit reports for x, which is the number
of operand positions holding x (established by `new` and every operation, see level1.py).
"""
import z3
from .mir import Unsupported
from .core import *
from .circuit import *
from .maps import SMap, Base, lookup
from . import level1, loops
from .level1 import VF, IN, res

B = z3.BoolSort()
ED = z3.Function("E.dom", Z, Z, B)
EV = z3.Function("E.val", Z, Z, B)
ND = z3.Function("N.dom", Z, Z, B)
NV = z3.Function("N.val", Z, Z, Z)
DONE = z3.Function("done", Z, Z, B)
R = z3.Function("R", Z, Z, Z)
START = I(-7)            # the ghost state in which exactly the inputs are done


def emap(sid):
    return SMap(Base("E", (sid,), lambda p, k: ED(p[0], k), lambda p, k: EV(p[0], k)))


def nmap(sid):
    return SMap(Base("N", (sid,), lambda p, k: ND(p[0], k), lambda p, k: NV(p[0], k)))


ENV = z3.Function("env", Z, Z)           # the assignment under which the call with the given first gate evaluates the called circuit
OUTV = z3.Function("outv", Z, Z, Z, B)    # the value of an output of a circuit under an assignment


class Ev:
    def __init__(self, crate, name, results, deadline, modules=False):
        self.cx = cx = CCtx(crate, name, results, deadline)
        self.eng, self.th, self.st, self.c = cx.eng, cx.th, cx.st, cx.cid
        eng, th, c = self.eng, self.th, self.c
        level1.install_values(cx)
        if [f for f, _ in crate.structs.get("NXAOBoolEvaluator", ())] != ["circuit"]:
            raise Unsupported("fields of the evaluator")
        self.evaluator = Agg("NXAOBoolEvaluator", (cx.ref,))
        self.g = None
        self.rel = {}
        th.maxnest = 1
        self.modules, self.call = modules, False
        unfold = th.extra["V"]
        th.extra["V"] = lambda k: list(unfold(k)) + self.module_value(k) if th.nested(k) == 0 else []
        j = z3.Int("j!out")
        self.outkey = F("c.output_map.val", (c, j))
        self.cnt = eng.counter(j, self.outkey)
        self.nout = th.f("output_len", c)
        eng.hooks["inv"] = self
        eng.hooks["inverse"] = self.inverse
        ex = th.extra
        ex["E.dom"] = ex["N.dom"] = ex["N.val"] = ex["E.val"] = self.assumed
        ex["R"] = self.r_facts
        ex["done"] = self.done_facts
        old = th.trig["c.output_map.val"]
        th.trig["c.output_map.val"] = lambda c_, w: old(c_, w) + [z3.Implies(z3.And(w >= 0, w < self.nout), self.out(th.f("output_map.val", c, w)) >= 1)]
        if not modules:
            # every gate is a logic gate, an input or a constant
            g0 = th.trig[th.g + ".tag"]
            th.trig[th.g + ".tag"] = lambda c_, k: list(g0(c_, k)) + [z3.Implies(th.known(c_, k), th.tag(c_, k) != th.kind("Module"))]
        else:
            th.calls()
            eng.contracts["<NXAOBoolEvaluator as BoolEvaluator>::eval_output"] = self.call_circuit
        for m in ("eval_single_gate",):
            eng.contracts["NXAOBoolEvaluator::" + m] = self.call_gate
            a0 = th.trig[th.g + ".Module.input_ids.at"]
            th.trig[th.g + ".Module.input_ids.at"] = lambda c_, k, w: list(a0(c_, k, w)) + self.arg_facts(k, w)
        th.rounds = 4

    # ---- vocabulary
    def out(self, x):
        return self.cnt(self.nout, x)

    def dep(self, x):
        c = self.c
        d = F("c.gate_dependence_map.dom", (c, x), B)
        return z3.If(d, self.th.f("gate_dependence_map.val.len", c, x), 0)

    def mult(self, g, x):
        th, t = self.th, self.th.tag(self.c, g)
        n = lambda v: F(th.g + "." + v, (self.c, g))
        one = lambda v: z3.If(n(v) == x, 1, 0)
        e = z3.If(t == th.kind("Not"), one("Not.id"), 0)
        for v in ("And", "Xor", "Or"):
            e = z3.If(t == th.kind(v), one(v + ".left_id") + one(v + ".right_id"), e)
        if self.modules:
            e = z3.If(t == th.kind("Module"), self.args(g)(n("Module.input_ids.len"), x), e)
        return e

    def m(self, k, f):
        return F(self.th.g + ".Module." + f, (self.c, k))

    def args(self, g):
        """args(g)(n, x): how many of the first n arguments of the module gate g are x"""
        j = z3.Int("j!arg")
        return self.eng.counter(j, F(self.th.g + ".Module.input_ids.at", (self.c, g, j)))

    def arg_facts(self, k, w):
        """The lemmas about Cnt for the arguments of the gate being evaluated."""
        if self.g is None or not k.eq(self.g):
            return []
        n = self.m(k, "input_ids.len")
        x = F(self.th.g + ".Module.input_ids.at", (self.c, k, w))
        f = self.args(k)
        return [z3.Implies(z3.And(w >= 0, w < n), z3.And(f(n, x) >= f(w, x) + 1, f(w, x) >= 0))]

    def blk(self, x):
        """The first gate of the call that x belongs to; x itself if it is no module gate."""
        return z3.If(self.th.tag(self.c, x) == self.th.kind("Module"), x - self.m(x, "out_index"), x) if self.modules else x

    def handle(self, k):
        return F("s.module_map.val.0.rc", (self.m(k, "module_id"),))

    def module_value(self, k):
        if not self.modules:
            return []
        th = self.th
        return [z3.Implies(z3.And(th.known(self.c, k), th.tag(self.c, k) == th.kind("Module")),
                           VF(k) == OUTV(self.handle(k), self.m(k, "out_index"), ENV(k - self.m(k, "out_index"))))]

    def in_call(self, x, y):
        """y belongs to the call of the module gate x"""
        b = x - self.m(x, "out_index")
        return z3.And(self.th.tag(self.c, x) == self.th.kind("Module"), y >= b, y < b + self.m(x, "output_len"))

    def J(self, x, ed, ev, nd, nv, done, r):
        th, c = self.th, self.c
        n = z3.If(nd, nv, 0)
        kn = th.known(c, x)
        return [("bits kept are the values of their gates", z3.Implies(ed, z3.And(kn, ev == VF(x), nd))),
                ("bits still needed are kept", z3.Implies(z3.And(kn, done, r + self.out(x) > 0), ed)),
                ("only evaluated gates have bits", z3.Implies(ed, done)),
                ("remaining uses are not underestimated", n >= z3.If(done, r, 0) + self.out(x)),
                ("remaining uses are bounded", n <= z3.If(done, self.dep(x), 0) + self.out(x)),
                ("inputs are evaluated", z3.Implies(z3.And(kn, th.tag(c, x) == th.kind("Input")), done))]

    def J7(self, x, done):
        """The gates of a call are evaluated together."""
        th, c = self.th, self.c
        return z3.Implies(z3.And(th.known(c, x), th.tag(c, x) == th.kind("Module")), done(x) == done(x - self.m(x, "out_index")))

    # ---- facts
    def assumed(self, s, x):
        out = [f for _, f in self.J(x, ED(s, x), EV(s, x), ND(s, x), NV(s, x), DONE(s, x), R(s, x))]
        if self.modules and simple(x):
            b = x - self.m(x, "out_index")
            out.append(self.J7(x, lambda y: DONE(s, y)))
            out += self.th.block(self.c, x, b)
            if self.call:
                out += self.th.block(self.c, self.g, x) + self.th.block(self.c, self.g, b)
        return out

    def r_facts(self, s, x):
        out = [R(s, x) >= 0, R(s, x) <= self.dep(x)]
        if s.eq(START):
            out.append(R(s, x) == self.dep(x))
        if self.g is not None:
            out.append(z3.Implies(z3.And(self.th.known(self.c, self.g), z3.Not(DONE(s, self.g))), R(s, x) >= self.mult(self.g, x)))
        return out

    def done_facts(self, s, x):
        th, c = self.th, self.c
        if s.eq(START):
            return [DONE(s, x) == z3.And(th.known(c, x), th.tag(c, x) == th.kind("Input"))]
        out = list(self.th.instance(self.assumed, [s, x]))
        nm = s.decl().name() if z3.is_app(s) else ""
        h = self.rel.get(nm)
        if h is not None:
            ps, s0, bound = h
            sub = list(zip(ps, s.children()))
            s0, bound = (z3.substitute(e, *sub) if sub else e for e in (s0, bound))
            out += [z3.Implies(DONE(s0, x), DONE(s, x)), z3.Implies(DONE(s, x), z3.Or(DONE(s0, x), self.blk(x) <= bound))]
            if nm.startswith("S!") and self.modules:
                out.append(z3.Implies(self.args(self.g)(s.arg(0), x) > 0, DONE(s, x)))
            if nm.startswith("S!") and z3.is_app(x) and x.decl().name() == th.g + ".Module.input_ids.at":
                k, y = s.arg(0), x.arg(2)
                out.append(z3.Implies(z3.And(x.arg(1) == self.g, y >= 0, y < k), DONE(s, x)))
        return out

    # ---- state
    def ghost(self, st):
        return st.heap["ghost"]

    def maps(self, st, pe, pn):
        e, n = self.eng.deref_read(st, pe), self.eng.deref_read(st, pn)
        for m in (e, n):
            if not isinstance(m, SMap):
                raise Unsupported("the maps of the evaluator: " + (m.why if isinstance(m, Poison) else type(m).__name__))
        return e, n

    def holds(self, st, e, n, what, mark=None):
        """J at an arbitrary gate."""
        eng = self.eng
        s = st.copy()
        x = eng.const("x")
        s.assume(x >= 0, x < 2 ** 64)
        if self.modules:
            s.assume(*self.th.block(self.c, x, x - self.m(x, "out_index")))
        gh = self.ghost(s)
        done, r = lambda y: DONE(gh, y), R(gh, x)
        if mark is not None:
            m = simp(z3.And(self.th.tag(self.c, mark) == self.th.kind("Module"), z3.BoolVal(self.modules)))
            if eng.proved(s, m):
                # the gates of the call are done; their operand positions include those of the gate
                done, r1 = lambda y: z3.Or(DONE(gh, y), self.in_call(mark, y)), eng.const("r")
                s.assume(r1 >= 0, r1 <= r - self.mult(mark, x))
                r = r1
            else:
                s.assume(z3.Not(m))
                done, r = lambda y: z3.Or(DONE(gh, y), y == mark), r - self.mult(mark, x)
        de, ve = lookup(eng, s, e, x)
        dn, vn = lookup(eng, s, n, x)
        ve = FALSE if ve is None else ve
        vn = I(0) if vn is None else vn
        if not isz(ve) or not isz(vn):
            raise Unsupported("values of the evaluator's maps")
        for nm, f in self.J(x, de, ve, dn, vn, done(x), r):
            eng.oblige(s.copy(), f, what + ": " + nm)
        if self.modules:
            eng.oblige(s.copy(), self.J7(x, done), what + ": the gates of a call are evaluated together")

    def need(self, st, g, what):
        gh = self.ghost(st)
        self.eng.oblige(st, self.th.known(self.c, g), what + " is a known gate")
        self.eng.oblige(st, R(gh, g) + self.out(g) >= 1, what + " is still needed")

    # ---- the contract of eval_single_gate, as a caller sees it
    def call_gate(self, eng, st, a, info):
        this, g, pe, pn = a
        if not vsame(eng.deref_read(st, this), self.evaluator):
            raise Unsupported("another evaluator")
        g = eng.deref_read(st, g)
        st = st.copy()
        self.need(st, g, "the requested gate")
        e, n = self.maps(st, pe, pn)
        d, _ = lookup(eng, st, e, g)
        eng.oblige(st, z3.Not(d), "a gate whose bit is kept is not evaluated again")
        if self.g is not None:
            eng.oblige(st, z3.And(g >= 0, g < self.g), "recursion on an earlier gate")
            eng.oblige(st, self.blk(g) < self.blk(self.g), "recursion on an earlier call")
        self.holds(st, e, n, "before evaluating an operand" if self.g is not None else "before evaluating an output")
        s0 = self.ghost(st)
        sid = eng.fresh(st, "sid")
        self.rel[sid.decl().name()] = (tuple(st.ctx), s0, self.blk(g))
        st.heap["ghost"] = sid
        eng.ptr_write(st, pe, emap(sid))
        eng.ptr_write(st, pn, nmap(sid))
        st.assume(ED(sid, g))
        return [(st, ok(UNIT))]

    # ---- the contract of eval_output, as the evaluation of a module gate sees it (called circuits do not call back: they are smaller)
    def call_circuit(self, eng, st, a, info):
        v = eng.deref_read(st, a[0])
        if not isinstance(v, Agg) or v.name != "NXAOBoolEvaluator" or len(v.f) != 1 or self.g is None:
            raise Unsupported("evaluation of another circuit")
        h = level1.rc_of(v.f[0]).f[0]
        bits = eng.deref_read(st, a[1])
        if not isinstance(bits, Seq):
            raise Unsupported("arguments of a module")
        st = st.copy()
        g, th = self.g, self.th
        eng.oblige(st, h == self.handle(g), "the circuit evaluated is the one registered for the call")
        eng.oblige(st, bits.len() == th.f("input_len", h), "the called circuit gets as many bits as it has inputs")
        i = eng.const("i")
        s = st.copy()
        s.assume(i >= 0, i < bits.len())
        if eng.feasible(s, TRUE):
            s.assume(*[q.at(i) for q in s.q])
            eng.oblige(s, eng.seq_get(s, bits, i) == VF(F(th.g + ".Module.input_ids.at", (self.c, g, i))), "input i of the called circuit gets the value of the i-th argument")
        j = eng.jvar()
        return [(st, ok(Seq([Seg(th.f("output_len", h), j, OUTV(h, j, ENV(g - self.m(g, "out_index"))))])))]

    # ---- loops that call it: the maps at the start of an iteration are any that satisfy J
    def owns(self, path, v0, bs):
        if path == (("h", "ghost"),):
            return "ghost"
        for b in bs:
            if isinstance(b, SMap) and b.base.name in ("E", "N") and not (isinstance(v0, SMap) and v0.base.name == b.base.name and vsame(v0.base.params[0], b.base.params[0])):
                return b.base.name
        return None

    def sid(self, f, k):
        return z3.Function("S!" + f.names.decl().name(), Z, Z)(k)

    def value(self, eng, f, k):
        s = self.sid(f, k)
        if self.g is not None and f.x == "ghost":
            self.rel[s.decl().name()] = ((f.names,), f.v0, self.blk(self.g) - 1)
        return s if f.x == "ghost" else emap(s) if f.x == "E" else nmap(s)

    def check(self, eng, st0, forms, k, backs, name):
        at = {f.x: p for p, f in forms.items() if f.kind == "inv"}
        if set(at) != {"ghost", "E", "N"} or len(at) != sum(f.kind == "inv" for f in forms.values()):
            raise Unsupported("loop over the evaluator's maps")
        for st, what in [(st0, "on entry of the loop")] + [(b, "after an iteration of the loop") for b in backs]:
            v = {x: loops.getp(loops.root(st, p[0]), p[1:]) for x, p in at.items()}
            self.holds(st, v["E"], v["N"], what)
            if self.g is None or st is st0:
                continue
            s0, s1 = self.ghost(st0), v["ghost"]
            x, j = eng.const("x"), eng.const("j")
            s = st.copy()
            s.assume(DONE(s0, x))
            eng.oblige(s, DONE(s1, x), what + ": evaluated gates stay evaluated")
            s = st.copy()
            s.assume(DONE(s1, x))
            eng.oblige(s, z3.Or(DONE(s0, x), self.blk(x) < self.blk(self.g)), what + ": only earlier gates are evaluated")
            s = st.copy()
            s.assume(j >= 0, j <= k)
            a = F(self.th.g + ".Module.input_ids.at", (self.c, self.g, j))
            eng.oblige(s, DONE(s1, a), what + ": the arguments so far are evaluated")

    def inverse(self, k, key):
        t = F("c.input_map.val.Some", (self.c, k))
        if key.eq(t):
            return lambda x: F(self.th.g + ".Input.wire_id", (self.c, x))
        return None


def simple(x):
    """x is not itself the first gate of a call"""
    seen, work = set(), [x]
    while work:
        y = work.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_app(y):
            if y.decl().name().endswith(".out_index"):
                return False
            work.extend(y.children())
    return True


def fn_of(crate, name):
    f = crate.inherent.get(("NXAOBoolEvaluator", name)) or crate.traits.get(("BoolEvaluator", "NXAOBoolEvaluator", name))
    if f is None:
        raise Unsupported("NXAOBoolEvaluator::" + name)
    return f


def same_circuit(ev, s):
    """Evaluation leaves the circuit as it is."""
    if not vsame(s.heap[-1], ev.cx.pre) or not vsame(s.heap[-2], ev.st.heap[-2]):
        raise Unsupported("evaluation writes to the circuit")
    ev.eng.oblige(s, TRUE, "evaluation does not change the circuit")
    level1.unlocked(ev.cx, s)


def single_gate(kind, modules=False):
    def run(crate, results, deadline):
        ev = Ev(crate, "eval_single_gate (%s)" % kind, results, deadline, modules)
        eng, th, st = ev.eng, ev.th, ev.st
        g, s0 = z3.Int("g"), z3.Int("sid0")
        ev.g, ev.call = g, kind == "Module"
        st.assume(th.known(ev.c, g), th.tag(ev.c, g) == th.kind(kind), z3.Not(ED(s0, g)), R(s0, g) + ev.out(g) >= 1)
        st.heap["ghost"] = s0
        pe, pn = Ptr(("arg", "E"), ()), Ptr(("arg", "N"), ())
        st.cells[("arg", "E")] = emap(s0)
        st.cells[("arg", "N")] = nmap(s0)
        eng.oblige(st.copy(), z3.Not(DONE(s0, g)), "the gate has not been evaluated before")
        try:
            outs = eng.call_fn(fn_of(crate, "eval_single_gate"), [ev.evaluator, g, pe, pn], st)
            if kind != "Input" and not any(eng.feasible(s, TRUE) for s, _ in outs):
                raise Unsupported("no path is possible (contradictory assumptions)")
            for s, v in outs:
                s = s.copy()
                eng.oblige(s, res(ev.cx, s, v) == 0, "evaluating a gate succeeds")
                e, n = ev.maps(s, pe, pn)
                d, _ = lookup(eng, s, e, g)
                eng.oblige(s, d, "the bit of the gate is available afterwards")
                gh = ev.ghost(s)
                eng.oblige(s.copy(), z3.Not(DONE(gh, g)), "the gate is evaluated once")
                ev.holds(s, e, n, "afterwards", mark=g)
                x = eng.const("x")
                s2 = s.copy()
                s2.assume(z3.Or(DONE(gh, x), ev.in_call(g, x) if kind == "Module" else x == g))
                if modules:
                    s2.assume(*th.block(ev.c, g, x))
                eng.oblige(s2, z3.Or(DONE(s0, x), ev.blk(x) <= ev.blk(g)), "only gates up to this one are evaluated")
                s2 = s.copy()
                s2.assume(DONE(s0, x))
                eng.oblige(s2, DONE(gh, x), "evaluated gates stay evaluated")
                same_circuit(ev, s)
        finally:
            ev.cx.done()
    return run


def eval_output(modules):
    def run(crate, results, deadline):
        ev = Ev(crate, "eval_output", results, deadline, modules)
        eng, th, st = ev.eng, ev.th, ev.st
        nin = th.f("input_len", ev.c)
        j = eng.jvar()
        inputs = Seq([Seg(nin, j, IN(j))])
        st.heap["ghost"] = START
        st.cells[("arg", "self")] = ev.evaluator
        th.trig["in"] = lambda i: []
        try:
            outs = eng.call_fn(fn_of(crate, "eval_output"), [Ptr(("arg", "self"), ()), inputs], st)
            if not any(eng.feasible(s, TRUE) for s, _ in outs):
                raise Unsupported("no path through eval_output is possible (contradictory assumptions)")
            for s, v in outs:
                s = s.copy()
                eng.oblige(s, res(ev.cx, s, v) == 0, "evaluation succeeds")
                bits = v.pay[0][0]
                eng.oblige(s.copy(), bits.len() == ev.nout, "one bit per output")
                i = eng.const("i")
                s2 = s.copy()
                s2.assume(i >= 0, i < ev.nout)
                if eng.feasible(s2, TRUE):
                    s2.assume(*[q.at(i) for q in s2.q])      # what is known of iteration i of the loops
                    eng.oblige(s2, eng.seq_get(s2, bits, i) == VF(th.f("output_map.val", ev.c, i)), "bit i is the value of the gate registered as output i")
                same_circuit(ev, s)
                if not vsame(s.cells[("arg", "self")], ev.evaluator):
                    raise Unsupported("evaluation changes the evaluator")
        finally:
            ev.cx.done()
    return run


def sums(crate, results, deadline):
    """The facts about Cnt and R used above, by induction over the number of gates (or outputs) T."""
    eng = Engine(crate, deadline)
    eng.prefix = "sums: "
    T, g, x, i = z3.Ints("T g x i")
    key, cnt = z3.Function("key", Z, Z), z3.Function("Cnt", Z, Z)           # Cnt for one fixed x
    m, r, r2, al = (z3.Function(n, Z, Z) for n in ("m", "R", "R'", "all"))   # mult(., x) for one fixed x and the partial sums over gates < T
    dn, call = z3.Function("d", Z, B), z3.Function("call", Z, B)
    dx = z3.Bool("dx")           # a property of x that the gate at every position has
    r3 = z3.Function("R''", Z, Z)
    st = State()
    st.assume(T >= 0, cnt(0) == 0, cnt(T + 1) == cnt(T) + z3.If(key(T) == x, 1, 0), m(T) >= 0, r(0) == 0, r2(0) == 0, al(0) == 0,
              al(T + 1) == al(T) + m(T), r(T + 1) == r(T) + z3.If(dn(T), 0, m(T)), r2(T + 1) == r2(T) + z3.If(z3.Or(dn(T), T == g), 0, m(T)),
              r3(0) == 0, r3(T + 1) == r3(T) + z3.If(z3.Or(dn(T), call(T)), 0, m(T)), call(g), z3.Implies(key(T) == x, dx), cnt(i + 1) == cnt(i) + z3.If(key(i) == x, 1, 0))
    for what, claim in (
            ("0 <= Cnt(T, x) <= T", lambda t: z3.And(cnt(t) >= 0, cnt(t) <= t)),
            ("a position holding x counts", lambda t: z3.And(cnt(t) >= 0, z3.Implies(z3.And(i >= 0, i < t, key(i) == x), cnt(t) >= 1))),
            ("0 <= R(x) <= dep(x)", lambda t: z3.And(r(t) >= 0, r(t) <= al(t))),
            ("a gate that is not done contributes its operand positions", lambda t: z3.And(r(t) >= 0, z3.Implies(z3.And(g >= 0, g < t, z3.Not(dn(g))), r(t) >= m(g)))),
            ("evaluating the gates of a call removes at least the operand positions of one of them",
             lambda t: z3.And(r3(t) >= 0, r3(t) <= r(t) - z3.If(z3.And(g >= 0, g < t, z3.Not(dn(g))), m(g), 0))),
            ("a gate that counts is at one of the positions", lambda t: z3.And(cnt(t) >= 0, z3.Implies(cnt(t) > 0, dx))),
            ("the positions after T still count", lambda t: z3.Implies(z3.And(i >= 0, i < t), cnt(t) >= cnt(i) + z3.If(key(i) == x, 1, 0))),
            ("evaluating a gate removes its operand positions", lambda t: r2(t) == r(t) - z3.If(z3.And(g >= 0, g < t, z3.Not(dn(g))), m(g), 0))):
        eng.oblige(st.copy(), claim(z3.IntVal(0)), what + ": base")
        s = st.copy()
        s.assume(claim(T))
        eng.oblige(s, claim(T + 1), what + ": step")
    # at the start exactly the inputs are done, and they have no operands
    s = st.copy()
    s.assume(r(T) == al(T), z3.Implies(dn(T), m(T) == 0))
    eng.oblige(s, r(T + 1) == al(T + 1), "at the start R(x) = dep(x): step")
    results.extend(eng.obs)


def tasks(prop):
    if prop not in ("C03", "C04"):
        return []
    kinds = ["Input", "Const", "Not", "Xor", "And", "Or"] + (["Module"] if prop == "C04" else [])
    return [("eval_single_gate (%s)" % k, single_gate(k, prop == "C04")) for k in kinds] + [("eval_output", eval_output(prop == "C04")), ("sums", sums)]
