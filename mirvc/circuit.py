"""Circuits of arbitrary size as symbolic values: every field of the circuit struct is an uninterpreted function of the circuit and the key,
constrained by the representation invariant (INV below), which level1.py proves to be established by `new` and preserved by every operation."""
import z3
from .mir import Unsupported, Ty
from .core import *
from . import maps
from .maps import SMap, Base

LIM = 2 ** 40          # assumption: no count of wires, gates, modules or arguments reaches 2^40 (memory)
INTS = ("usize", "u64", "u32", "u8", "i64", "i32", "GateId", "WireId", "ModuleId")
GEN = {"G": "NXAOBoolGate", "C": "NXAOBoolCircuit", "Self": "NXAOBoolCircuit"}
Z = z3.IntSort()


def F(name, args, sort=None):
    if not args:
        return z3.Const(name, Z if sort is None else sort)
    return z3.Function(name, *([Z] * len(args) + [Z if sort is None else sort]))(*args)


def sym(crate, ty, name, args):
    """A value of the given type all of whose leaves are uninterpreted functions of args."""
    n = GEN.get(ty.name, ty.name)
    if n in INTS:
        return F(name, args)
    if n == "bool":
        return F(name, args, z3.BoolSort())
    if n == "Option":
        return Enum("Option", F(name + ".tag", args), {0: (), 1: (sym(crate, ty.args[0], name + ".Some", args),)})
    if n == "Vec":
        j = z3.Int("j!" + name)
        return Seq([Seg(F(name + ".len", args), j, sym(crate, ty.args[0], name + ".at", args + (j,)))])
    if n == "HashMap":
        if ty.args[0].name not in INTS:
            raise Unsupported("map with keys of type " + ty.args[0].name)
        return SMap(Base(name, args, lambda p, k: F(name + ".dom", tuple(p) + (k,), z3.BoolSort()), lambda p, k: sym(crate, ty.args[1], name + ".val", tuple(p) + (k,))))
    if n == "Rc":
        return Agg("Rc", (F(name + ".rc", args),))
    if n == "PhantomData":
        return Tok("PhantomData")
    if n == "()":
        return Agg("()", [sym(crate, t, "%s.%d" % (name, i), args) for i, t in enumerate(ty.args)])
    if n in crate.structs:
        return Agg(n, [sym(crate, t, name + "." + f, args) for f, t in crate.structs[n]])
    if n in crate.enums:
        pay = {}
        for i, (v, fs) in enumerate(crate.enums[n]):
            pay[i] = tuple(sym(crate, t, name + "." + v + ("." + f if len(fs) > 1 else ""), args) for f, t in fs)
        return Enum(n, F(name + ".tag", args), pay)
    raise Unsupported("a field of type %r" % ty)


def field(crate, struct, f):
    for i, (n, _) in enumerate(crate.structs.get(struct, ())):
        if n == f:
            return i
    raise Unsupported("%s has no field %s" % (struct, f))


class Theory:
    """INV and the values of gates, instantiated at the terms that occur."""

    def __init__(self, crate, eng):
        self.crate, self.eng = crate, eng
        self.trig = {}
        self.gates = [v for v, _ in crate.enums.get("NXAOBoolGate", ())]
        if sorted(self.gates) != sorted(["Input", "Const", "Not", "And", "Xor", "Or", "Module"]):
            raise Unsupported("gate kinds")
        for v, fs in crate.enums["NXAOBoolGate"]:
            if len(fs) != 1 or fs[0][1].name != v + "Gate":
                raise Unsupported("gate kinds")
        self.memo, self.terms, self.inst = {}, {}, {}
        self.maxnest = 99
        self.extra = {}
        eng.theory = self
        g = "c.gate_map.val"
        self.g = g
        for n in ["tag", "Input.wire_id", "Const.value", "Not.id", "And.left_id", "And.right_id", "Xor.left_id", "Xor.right_id", "Or.left_id", "Or.right_id",
                  "Module.input_len", "Module.output_len", "Module.input_ids.len", "Module.out_index", "Module.module_id"]:
            self.trig[g + "." + n] = self.gate_inv
        self.trig[g + ".Module.input_ids.at"] = self.arg_inv
        self.trig["c.input_map.val.Some"] = self.input_inv
        self.trig["c.output_map.val"] = self.output_inv
        self.trig["c.const_gates.at"] = self.const_inv
        for n in ("input_len", "output_len", "num_wire", "num_gate", "num_const", "gate_index", "const_gates.len"):
            self.trig["c." + n] = self.scalar_inv
        self.trig["c.gate_dependence_map.val.len"] = lambda c, k: [self.f("gate_dependence_map.val.len", c, k) >= 0, self.f("gate_dependence_map.val.len", c, k) < LIM]
        self.trig["s.num_module"] = lambda *a: [self.eng_int("s.num_module", a) >= 0, self.eng_int("s.num_module", a) < LIM]
        self.trig["s.module_map.val.0.rc"] = lambda *a: [self.eng_int("s.module_map.val.0.rc", a) >= 0]
        self.rounds = 3

    def eng_int(self, n, a):
        return F(n, a)

    def f(self, name, *a, sort=None):
        return F("c." + name, a, sort)

    def tag(self, c, k):
        return F(self.g + ".tag", (c, k))

    def kind(self, v):
        return self.gates.index(v)

    def idx(self, c):
        return self.f("gate_index", c)

    def scalar_inv(self, c):
        ns = [self.f(n, c) for n in ("input_len", "output_len", "num_gate", "num_const", "gate_index", "num_wire")]
        return [z3.And([z3.And(n >= 0, n < LIM) for n in ns]), ns[5] == ns[0] + ns[3] + ns[2], self.f("const_gates.len", c) >= 0, self.f("const_gates.len", c) <= self.idx(c)]

    def known(self, c, k):
        return z3.And(k >= 0, k < self.idx(c))

    def gate_inv(self, c, k):
        if self.nested(k) > self.maxnest:
            return []
        g = self.g
        t = self.tag(c, k)
        a = (c, k)
        w = F(g + ".Input.wire_id", a)
        cs = [z3.And(t >= 0, t < len(self.gates)),
              z3.Implies(t == self.kind("Input"), z3.And(w >= 0, w < self.f("input_len", c), self.f("input_map.val.Some", c, w) == k)),
              z3.Implies(t == self.kind("Not"), z3.And(F(g + ".Not.id", a) >= 0, F(g + ".Not.id", a) < k))]
        for v in ("And", "Xor", "Or"):
            l, r = F("%s.%s.left_id" % (g, v), a), F("%s.%s.right_id" % (g, v), a)
            cs.append(z3.Implies(t == self.kind(v), z3.And(l >= 0, l < k, r >= 0, r < k)))
        m = lambda n: F("%s.Module.%s" % (g, n), a)
        cs.append(z3.Implies(t == self.kind("Module"), z3.And(m("out_index") >= 0, m("out_index") < m("output_len"), m("output_len") < LIM, m("input_len") >= 0, m("input_len") < LIM,
                                                              m("out_index") <= k, m("input_ids.len") >= 0, m("input_ids.len") < LIM)))
        return [z3.Implies(self.known(c, k), z3.And(cs))]

    def block(self, c, x, y):
        """The gates of a call are consecutive: y, if it lies in the call of the module gate x, is a module gate of the same call."""
        m = lambda n, k: F("%s.Module.%s" % (self.g, n), (c, k))
        b = x - m("out_index", x)
        same = [m(n, y) == m(n, x) for n in ("module_id", "output_len", "input_len", "input_ids.len")]
        return [z3.Implies(z3.And(self.known(c, x), self.tag(c, x) == self.kind("Module"), y >= b, y < b + m("output_len", x)),
                           z3.And([self.known(c, y), self.tag(c, y) == self.kind("Module"), m("out_index", y) == y - b] + same))]

    def calls(self):
        """Module gates call registered circuits with as many arguments as they have inputs; outputs are only ever added."""
        g0 = self.trig[self.g + ".tag"]

        def more(c, k):
            m = lambda n: F("%s.Module.%s" % (self.g, n), (c, k))
            h = F("s.module_map.val.0.rc", (m("module_id"),))
            return list(g0(c, k)) + [z3.Implies(z3.And(self.known(c, k), self.tag(c, k) == self.kind("Module")),
                                                z3.And(m("module_id") >= 0, m("module_id") < z3.Int("s.num_module"), m("input_ids.len") == self.f("input_len", h), m("input_len") == self.f("input_len", h),
                                                       m("output_len") <= self.f("output_len", h)))]
        self.trig[self.g + ".tag"] = more

    def heads(self):
        """The arguments of the gates of a call are the same (those of its first gate)."""
        a0 = self.trig[self.g + ".Module.input_ids.at"]

        def more(c, k, j):
            o = F(self.g + ".Module.out_index", (c, k))
            at = lambda x: F(self.g + ".Module.input_ids.at", (c, x, j))
            if ".out_index" in k.sexpr():
                return list(a0(c, k, j))
            return list(a0(c, k, j)) + [z3.Implies(z3.And(self.known(c, k), self.tag(c, k) == self.kind("Module"), j >= 0, j < F(self.g + ".Module.input_ids.len", (c, k))), at(k) == at(simp(k - o)))]
        self.trig[self.g + ".Module.input_ids.at"] = more

    def arg_inv(self, c, k, j):
        g = self.g
        m = lambda n: F("%s.Module.%s" % (g, n), (c, k))
        v = F(g + ".Module.input_ids.at", (c, k, j))
        return [z3.Implies(z3.And(self.known(c, k), self.tag(c, k) == self.kind("Module"), j >= 0, j < m("input_ids.len")), z3.And(v >= 0, v < k - m("out_index")))]

    def input_inv(self, c, w):
        v = self.f("input_map.val.Some", c, w)
        return [z3.Implies(z3.And(w >= 0, w < self.f("input_len", c)),
                           z3.And(v >= 0, v < self.idx(c), self.tag(c, v) == self.kind("Input"), F(self.g + ".Input.wire_id", (c, v)) == w))]

    def output_inv(self, c, w):
        v = self.f("output_map.val", c, w)
        return [z3.Implies(z3.And(w >= 0, w < self.f("output_len", c)), z3.And(v >= 0, v < self.idx(c)))]

    def const_inv(self, c, j):
        v = self.f("const_gates.at", c, j)
        return [z3.Implies(z3.And(j >= 0, j < self.f("const_gates.len", c)), z3.And(v >= 0, v < self.idx(c), self.tag(c, v) == self.kind("Const")))]

    # ---- instantiation
    def facts(self, t):
        """The instances triggered by an application."""
        nm = t.decl().name()
        h = self.trig.get(nm)
        a = [t.arg(i) for i in range(t.num_args())]
        if any(has_bound(x) for x in a):
            return ()
        if h is not None:
            return self.instance(h, a)
        if nm in self.eng.mapcounters:
            f, e = self.eng.mapcounters[nm]
            T, x = a
            p = simp(T - 1)
            return [f(T, x) >= 0, z3.Implies(T >= 0, f(T, x) <= T), z3.Implies(T == 0, f(T, x) == 0),
                    z3.Implies(T > 0, f(T, x) == f(p, x) + z3.If(z3.substitute(e, (z3.Int("t!cnt"), p)) == x, 1, 0))]
        if nm in self.eng.mapsums:
            out = maps.sum_facts(self.eng, nm, a) if sum_depth(a[-1]) < 3 else []
            h = self.extra.get("lemma:" + nm)
            return out + (list(h(*a)) if h else [])
        if nm in self.eng.alls:
            return maps.all_facts(self.eng, nm, a) if sum_depth(a[-1]) < 3 else []
        h = self.extra.get(nm)
        if h is not None:
            return self.instance(h, a)
        return ()

    def instance(self, h, a):
        """One set of facts for each rule and arguments, whichever application triggers it."""
        key = (h,) + tuple(x.get_id() for x in a)
        r = self.inst.get(key)
        if r is None:
            r = (a, list(h(*a)))
            self.inst[key] = r
        return r[1]

    def nested(self, k):
        """How many gates are followed to reach k."""
        n = 0
        while z3.is_app(k) and k.num_args() >= 2 and k.decl().name().startswith(self.g + "."):
            n, k = n + 1, k.arg(1)
        return n

    def apps(self, x):
        """The applications of uninterpreted functions in x, outside quantifiers: (id, term) pairs, kept for each term."""
        i = x.get_id()
        r = self.terms.get(i)
        if r is not None:
            return r[1]
        out, seen, work = [], set(), [x]
        while work:
            y = work.pop()
            k = y.get_id()
            if k in seen:
                continue
            seen.add(k)
            if z3.is_quantifier(y) or not z3.is_app(y):
                continue
            if y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append((k, y))
            r = self.terms.get(k)
            if r is not None:
                for a in r[1]:
                    if a[0] not in seen:
                        seen.add(a[0])
                        out.append(a)
                continue
            work.extend(y.children())
        self.terms[i] = (x, out)
        return out

    def __call__(self, st, hy, light=False):
        out, seen, had = [], set(), set()
        work = list(hy)
        for r in range(self.rounds if not light else 2):
            new = []
            for x in work:
                for i, y in self.apps(x):
                    if i in seen:
                        continue
                    seen.add(i)
                    fs = self.memo.get(i)
                    if fs is None:
                        fs = (y, [f for f in self.facts(y) if not z3.is_true(f)])
                        self.memo[i] = fs
                    for f in fs[1]:
                        if f.get_id() not in had:
                            had.add(f.get_id())
                            new.append(f)
            out += new
            work = new
        return out


def sum_depth(k):
    """How far k lies below the term it was unfolded from."""
    n = 0
    while z3.is_app(k) and z3.is_add(k) and z3.is_int_value(k.arg(0)) and k.arg(0).as_long() < 0:
        n -= k.arg(0).as_long()
        k = k.arg(1)
    return n


def has_bound(t):
    return z3.is_var(t)


def circuit(crate, cid):
    """The circuit with identity cid, satisfying INV."""
    v = sym(crate, Ty("NXAOBoolCircuit"), "c", (cid,))
    f = list(v.f)

    def put(name, x):
        f[field(crate, "NXAOBoolCircuit", name)] = x
    rngdom = lambda n: (lambda p, k: simp(z3.And(k >= 0, k < F("c." + n, tuple(p)))))
    for m, n in (("gate_map", "gate_index"), ("input_map", "input_len"), ("output_map", "output_len")):
        b = f[field(crate, "NXAOBoolCircuit", m)]
        field(crate, "NXAOBoolCircuit", n)
        if not isinstance(b, SMap):
            raise Unsupported("representation of " + m)
        val = b.base.valf
        if m == "input_map":
            def val(p, k):
                return some(F("c.input_map.val.Some", tuple(p) + (k,)))
        put(m, SMap(Base(b.base.name, b.base.params, rngdom(n), val)))
    for n in ("num_wire", "num_gate", "num_const"):
        field(crate, "NXAOBoolCircuit", n)
    return Agg(v.name, f)


def storage(crate):
    v = sym(crate, Ty("ModuleStorage"), "s", ())
    f = list(v.f)
    i = field(crate, "ModuleStorage", "module_map")
    field(crate, "ModuleStorage", "num_module")
    b = f[i]
    if not isinstance(b, SMap):
        raise Unsupported("representation of module_map")
    f[i] = SMap(Base(b.base.name, (), lambda p, k: simp(z3.And(k >= 0, k < z3.Int("s.num_module"))), b.base.valf))
    return Agg(v.name, f)


class CCtx:
    """A verification task about the circuit layer: a circuit in cell -1 that satisfies INV, its module registry in cell -2."""

    def __init__(self, crate, name, results, deadline, self_kind="sym"):
        self.crate, self.name, self.results = crate, name, results
        for k in ("GateId", "WireId", "ModuleId"):
            # the map models compare keys by value
            if len(crate.structs.get(k, ())) != 1 or crate.structs[k][0][1].name != "u64" or not {(k, "PartialEq"), (k, "Eq"), (k, "Hash")} <= crate.derives:
                raise Unsupported("equality or hash of %s is not the derived one" % k)
        self.eng = Engine(crate, deadline)
        maps.install(self.eng)
        self.eng.prefix = name + ": "
        self.th = Theory(crate, self.eng)
        self.cid = I(-1)
        st = State()
        st.heap["next"] = -100
        c = circuit(crate, self.cid)
        f = list(c.f)
        si = field(crate, "NXAOBoolCircuit", "module_storage")
        self.reg = Agg("ModuleStorageRef", (Agg("Rc", (I(-2),)),))
        f[si] = self.reg
        self.pre = Agg(c.name, f)
        st.heap[-1] = self.pre
        st.heap[-2] = storage(crate)
        self.st = st
        self.ptr = Ptr(("h", -1), ())
        self.ref = Agg("BoolCircuitRef", (Agg("Rc", (I(-1),)), Tok("PhantomData")))
        for n, t in (("gates", self.th.idx(self.cid)), ("inputs", self.th.f("input_len", self.cid)), ("outputs", self.th.f("output_len", self.cid)),
                     ("consts", self.th.f("num_const", self.cid)), ("modules", z3.Int("s.num_module"))):
            st.assume(z3.Int(n) == t)

        def cell(eng, st, idt):
            # the circuit behind a registered handle; it is never the circuit that is being changed
            return self.other(idt)
        self.eng.hooks["cell"] = cell

    def other(self, idt):
        c = circuit(self.crate, idt)
        return c

    def done(self):
        from . import builders
        self.results.extend(self.eng.obs)
        if builders.STATS is not None:
            e = self.eng
            builders.STATS.append({"inlined": set(e.inlined), "contracts": set(e.used), "models": set(e.assumed), "solver_s": e.solver_time, "queries": e.queries})

    def method(self, m):
        fn = self.crate.traits.get(("BoolCircuit", "NXAOBoolCircuit", m))
        if fn is None:
            raise Unsupported("method " + m)
        return fn

    def call(self, st, m, args):
        """A mutating operation on the circuit."""
        out = self.eng.call_fn(self.method(m), [self.ptr] + list(args), st)
        # guard against vacuity: some path through the operation must be possible
        if not any(self.eng.feasible(s, TRUE) for s, _ in out):
            raise Unsupported("no path through " + m + " is possible (contradictory assumptions)")
        return out

    def obs(self, st, circ, m, args=()):
        """An observer applied to a snapshot of the circuit; it must not change anything."""
        out = []
        for s, v in self.eng.call_fn(self.method(m), [circ] + list(args), st):
            out.append((s, self.eng.deref_read(s, v)))
        return out

    def fld(self, circ, name):
        return circ.f[field(self.crate, "NXAOBoolCircuit", name)]

    def agree(self, st, a, b, m, args, what):
        """The observer gives the same on the two snapshots."""
        for s, x in self.obs(st, a, m, args):
            for s2, y in self.obs(s, b, m, args):
                self.eng.oblige(s2, self.eng.veq(s2, x, y), what)

    def key(self, name, st, lo=0, hi=2 ** 64 - 1):
        x = z3.Int(name)
        st.assume(x >= lo, x <= hi)
        return x
