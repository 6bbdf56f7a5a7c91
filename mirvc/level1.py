"""C01, C02, C05 (and the circuit part of C03): contracts of the circuit operations, for a circuit of any size that satisfies INV.

Every operation of `NXAOBoolCircuit` is executed symbolically (its MIR, not a copy) from an arbitrary circuit satisfying INV.  The contracts
are stated with the public observers, which are executed symbolically too: an observer on the state after the operation is compared with the
same observer on the state before it, at an arbitrary key.  INV is established by `new` and preserved by every operation, so the contracts
hold after every history of operations.
"""
import z3
from .mir import Unsupported
from .core import *
from .circuit import *
from .maps import SMap, lookup, veclen

VF = z3.Function("V", Z, z3.BoolSort())          # the value of a gate of the circuit before the operation, under an arbitrary assignment
IN = z3.Function("in", Z, z3.BoolSort())
LOGIC = ("Not", "And", "Xor", "Or")


def res(cx, s, v):
    if not isinstance(v, Enum) or v.name != "Result":
        raise Unsupported("result of the operation")
    return v.tag if isz(v.tag) else I(v.tag)


def equal(cx, st, a, b, what):
    """Obligations for the equality of two values."""
    eng = cx.eng
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("comparison of a value that is not described")
    if vsame(a, b):
        eng.oblige(st, TRUE, what)
        return
    if isz(a) and isz(b):
        eng.oblige(st.copy(), a == b, what)
        return
    if isinstance(a, Enum) and isinstance(b, Enum) and a.name == b.name:
        ta, tb = a.tag if isz(a.tag) else I(a.tag), b.tag if isz(b.tag) else I(b.tag)
        s = st.copy()
        eng.oblige(s, ta == tb, what)
        for k in sorted(set(a.pay) & set(b.pay)):
            if a.pay[k] and eng.feasible(s, ta == k):
                s2 = s.copy()
                s2.assume(ta == k)
                for x, y in zip(a.pay[k], b.pay[k]):
                    equal(cx, s2, x, y, what)
        return
    if isinstance(a, Agg) and isinstance(b, Agg) and a.name == b.name and len(a.f) == len(b.f):
        for x, y in zip(a.f, b.f):
            equal(cx, st, x, y, what)
        return
    if isinstance(a, Seq) and isinstance(b, Seq):
        s = st.copy()
        eng.oblige(s, a.len() == b.len(), what + " (length)")
        j = eng.const("at")
        s.assume(j >= 0, j < a.len())
        if eng.feasible(s, TRUE):
            equal(cx, s, eng.seq_get(s, a, j), eng.seq_get(s, b, j), what)
        return
    raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))


def agree(cx, st, a, b, m, args, what):
    for s, x in cx.obs(st, a, m, args):
        for s2, y in cx.obs(s, b, m, args):
            equal(cx, s2, x, y, what)


def gate_term(cx, st, circ, g, depth=0):
    """The Boolean function of a gate of the state after the operation, in terms of the values of the gates that existed before."""
    eng, th = cx.eng, cx.th
    g = simp(g)
    if eng.proved(st, z3.And(g >= 0, g < th.idx(cx.cid))):
        return VF(g)
    if depth > 6:
        raise Unsupported("chain of new gates")
    if not eng.proved(st, g >= th.idx(cx.cid)):
        raise Unsupported("gate that may be new or old")
    outs = cx.obs(st, circ, "get_gate", [g])
    if len(outs) != 1:
        raise Unsupported("get_gate forks")
    s, v = outs[0]
    cx.eng.oblige(s, res(cx, s, v) == 0, "a gate created by the operation can be looked up")
    gate = v.pay[0][0]
    if isz(gate.tag):
        raise Unsupported("kind of a new gate")
    k, p = th.gates[gate.tag], gate.pay[gate.tag][0]
    fs = [f for f, _ in cx.crate.structs[k + "Gate"]]
    get = lambda n: p.f[fs.index(n)]
    rec = lambda n: gate_term(cx, s, circ, get(n), depth + 1)
    if k == "Input":
        return IN(get("wire_id"))
    if k == "Const":
        return get("value")
    if k == "Not":
        return z3.Not(rec("id"))
    if k == "And":
        return z3.And(rec("left_id"), rec("right_id"))
    if k == "Or":
        return z3.Or(rec("left_id"), rec("right_id"))
    if k == "Xor":
        return z3.Xor(rec("left_id"), rec("right_id"))
    raise Unsupported("value of a module gate")


def install_values(cx):
    """V is the value of each gate of the circuit before the operation: the operation named by its kind on the values of its operands."""
    th = cx.th
    c = cx.cid
    g = th.g

    def unfold(k):
        t = th.tag(c, k)
        a = (c, k)
        n = lambda x: F(g + "." + x, a)
        return [z3.Implies(th.known(c, k), z3.And(
            z3.Implies(t == th.kind("Input"), VF(k) == IN(n("Input.wire_id"))),
            z3.Implies(t == th.kind("Const"), VF(k) == F(g + ".Const.value", a, z3.BoolSort())),
            z3.Implies(t == th.kind("Not"), VF(k) == z3.Not(VF(n("Not.id")))),
            z3.Implies(t == th.kind("And"), VF(k) == z3.And(VF(n("And.left_id")), VF(n("And.right_id")))),
            z3.Implies(t == th.kind("Or"), VF(k) == z3.Or(VF(n("Or.left_id")), VF(n("Or.right_id")))),
            z3.Implies(t == th.kind("Xor"), VF(k) == z3.Xor(VF(n("Xor.left_id")), VF(n("Xor.right_id"))))))]
    th.extra["V"] = unfold


def inv(cx, st, circ, what="INV", reg=None):
    """The representation invariant of a circuit, at arbitrary keys."""
    eng, th, fld = cx.eng, cx.th, lambda n: cx.fld(circ, n)
    P = what + ": "
    idx, nin, nout = fld("gate_index"), fld("input_len"), fld("output_len")
    ns = {n: fld(n) for n in ("num_wire", "num_gate", "num_const")}
    for n in (idx, nin, nout) + tuple(ns.values()):
        if not isz(n):
            raise Unsupported("a counter of the circuit")
        eng.oblige(st.copy(), n >= 0, P + "counters are not negative")
    eng.oblige(st.copy(), ns["num_wire"] == nin + ns["num_const"] + ns["num_gate"], P + "wires = inputs + constants + gates")
    # gates
    s = st.copy()
    x = eng.const("x")
    s.assume(x >= 0, x < 2 ** 64)
    d, v = lookup(eng, s, fld("gate_map"), x)
    eng.oblige(s.copy(), d == (x < idx), P + "the known gates are 0..gate_index-1")
    s.assume(d, x < idx)
    if v is not None and eng.feasible(s, TRUE):
        if not isinstance(v, Enum):
            raise Unsupported("gate map")
        t = v.tag if isz(v.tag) else I(v.tag)
        for i, k in enumerate(th.gates):
            if i not in v.pay or not eng.feasible(s, t == i):
                continue
            s2 = s.copy()
            s2.assume(t == i)
            p = v.pay[i][0]
            fs = [f for f, _ in cx.crate.structs[k + "Gate"]]
            get = lambda n: p.f[fs.index(n)]
            for n in ("id", "left_id", "right_id"):
                if n in fs:
                    eng.oblige(s2.copy(), z3.And(get(n) >= 0, get(n) < x), P + "operands of %s gates are earlier gates" % k)
            if k == "Input":
                w = get("wire_id")
                s3 = s2.copy()
                eng.oblige(s3, z3.And(w >= 0, w < nin), P + "the wire of an input gate is an input")
                d2, v2 = lookup(eng, s3, fld("input_map"), w)
                eng.oblige(s3, d2, P + "the wire of an input gate is registered")
                equal(cx, s3, v2, some(x), P + "the wire of an input gate leads to it")
            if k == "Module":
                ids = get("input_ids")
                eng.oblige(s2.copy(), z3.And(get("out_index") >= 0, get("out_index") < get("output_len"), get("out_index") <= x), P + "module gates have a position among their outputs")
                j = eng.const("j")
                s3 = s2.copy()
                s3.assume(j >= 0, j < ids.len())
                a = eng.seq_get(s3, ids, j) if eng.feasible(s3, TRUE) else None
                if a is not None:
                    eng.oblige(s3, z3.And(a >= 0, a < x - get("out_index")), P + "arguments of module gates are earlier gates")
    # inputs
    s = st.copy()
    w = eng.const("w")
    s.assume(w >= 0, w < 2 ** 64)
    d, v = lookup(eng, s, fld("input_map"), w)
    eng.oblige(s.copy(), d == (w < nin), P + "the registered inputs are 0..input_len-1")
    s.assume(d, w < nin)
    if v is not None and eng.feasible(s, TRUE):
        t = v.tag if isz(v.tag) else I(v.tag)
        eng.oblige(s, t == 1, P + "every input leads to a gate")
        g = v.pay[1][0]
        d2, v2 = lookup(eng, s, fld("gate_map"), g)
        eng.oblige(s, z3.And(g >= 0, g < idx, d2), P + "every input leads to a known gate")
        equal(cx, s, v2, Enum("NXAOBoolGate", th.kind("Input"), {th.kind("Input"): (Agg("InputGate", (w,)),)}), P + "every input leads to its input gate")
    # outputs
    s = st.copy()
    w = eng.const("w")
    s.assume(w >= 0, w < 2 ** 64)
    d, v = lookup(eng, s, fld("output_map"), w)
    eng.oblige(s.copy(), d == (w < nout), P + "the registered outputs are 0..output_len-1")
    s.assume(d, w < nout)
    if v is not None and eng.feasible(s, TRUE):
        eng.oblige(s, z3.And(v >= 0, v < idx), P + "every output leads to a known gate")
    # constants
    cg = fld("const_gates")
    if not isinstance(cg, Seq):
        raise Unsupported("const_gates")
    s = st.copy()
    j = eng.const("j")
    s.assume(j >= 0, j < cg.len())
    eng.oblige(s.copy(), cg.len() <= idx, P + "no more constant gates than gates")
    if eng.feasible(s, TRUE):
        v = eng.seq_get(s, cg, j)
        d2, v2 = lookup(eng, s, fld("gate_map"), v)
        eng.oblige(s, z3.And(v >= 0, v < idx, d2), P + "constant gates are known gates")
        t = v2.tag if isz(v2.tag) else I(v2.tag)
        eng.oblige(s, t == th.kind("Const"), P + "the listed constant gates are constants")
    rc = fld("module_storage")
    if reg is not None:
        equal(cx, st, rc, reg, P + "the module registry is shared")


def inv_calls(cx, st, circ, what="INV of calls", pre=True, args=True):
    """The gates of a module call are consecutive and alike; the module called is registered and has had that many outputs."""
    eng, th = cx.eng, cx.th
    fs = [f for f, _ in cx.crate.structs["ModuleGate"]]
    M = th.kind("Module")
    s = st.copy()
    x, y = eng.const("x"), eng.const("y")
    s.assume(x >= 0, x < 2 ** 64, y >= 0, y < 2 ** 64)
    if pre:
        s.assume(*th.block(cx.cid, x, y))
    d, v = lookup(eng, s, cx.fld(circ, "gate_map"), x)
    if v is None or M not in v.pay:
        eng.oblige(s, TRUE, what + ": no calls")
        return
    tag = lambda v: v.tag if isz(v.tag) else I(v.tag)
    s.assume(d, tag(v) == M)
    if not eng.feasible(s, TRUE):
        eng.oblige(s, TRUE, what + ": no calls")
        return
    p = v.pay[M][0]
    get = lambda p, n: p.f[fs.index(n)]
    mid = get(p, "module_id")
    (s1, r), = cx.obs(s, circ, "get_module", [mid])
    eng.oblige(s1, res(cx, s1, r) == 0, what + ": the module of a call is registered")
    h = rc_of(r.pay[0][0]).f[0]
    for n, own in (("input_len", True), ("output_len", False)):
        w = th.f(n, h)
        eng.oblige(s1.copy(), get(p, n) == w if own else get(p, n) <= w, what + ": a call has the %s of the module" % n)
    if args:
        eng.oblige(s1.copy(), get(p, "input_ids").len() == get(p, "input_len"), what + ": a call has as many arguments as the module has inputs")
    b = get(p, "out_index")
    s.assume(y >= x - b, y < x - b + get(p, "output_len"))
    if not eng.feasible(s, TRUE):
        raise Unsupported("a call without gates")
    d2, v2 = lookup(eng, s, cx.fld(circ, "gate_map"), y)
    if v2 is None or M not in v2.pay:
        raise Unsupported("a gate of a call is of another kind")
    eng.oblige(s, d2, what + ": the gates of a call are known")
    eng.oblige(s, tag(v2) == M, what + ": the gates of a call are module gates")
    q = v2.pay[M][0]
    eng.oblige(s.copy(), get(q, "out_index") == y - (x - b), what + ": the gates of a call are consecutive")
    for n in ("module_id", "output_len", "input_len", "input_ids"):
        equal(cx, s, get(q, n), get(p, n), what + ": the gates of a call have the same " + n)


def unlocked(cx, st):
    for n in st.heap:
        if isinstance(n, tuple) and n[0] == "flag":
            cx.eng.oblige(st.copy(), z3.BoolVal(st.heap[n] == 0), "no borrow is left open")


def frame(cx, st, post):
    """Nothing that existed before has changed."""
    th = cx.th
    s = st.copy()
    x = cx.eng.const("x")
    s.assume(x >= 0, x < th.idx(cx.cid))
    agree(cx, s, post, cx.pre, "get_gate", [x], "no earlier gate changes its kind or operands")
    s = st.copy()
    w = cx.eng.const("w")
    s.assume(w >= 0, w < th.f("input_len", cx.cid))
    agree(cx, s, post, cx.pre, "input_to_gate_id", [w], "no input registered earlier changes")
    s = st.copy()
    w = cx.eng.const("w")
    s.assume(w >= 0, w < th.f("output_len", cx.cid))
    agree(cx, s, post, cx.pre, "output_to_gate_id", [w], "no output registered earlier changes")


def registry_frame(cx, st, pre_heap, post):
    """The registry resolves every identifier as before."""
    s = st.copy()
    x = cx.eng.const("m")
    s.assume(x >= 0, x < 2 ** 64)
    old = s.copy()
    for s1, a in cx.obs(s, post, "get_module", [x]):
        s2 = s1.copy()
        s2.heap = dict(pre_heap)
        for s3, b in cx.obs(s2, cx.pre, "get_module", [x]):
            equal(cx, s3, a, b, "every module identifier resolves as before")


def unchanged(cx, st, post, pre_heap, what):
    """Every observer gives what it gave before, at every key."""
    for m in ("input_len", "output_len", "num_wire", "num_gate", "num_const", "get_const_gates"):
        agree(cx, st, post, cx.pre, m, [], what + ": " + m)
    for m in ("get_gate", "input_to_gate_id", "output_to_gate_id"):
        s = st.copy()
        x = cx.eng.const("x")
        s.assume(x >= 0, x < 2 ** 64)
        agree(cx, s, post, cx.pre, m, [x], what + ": " + m)
    registry_frame(cx, st, pre_heap, post)


def counters(cx, st, post, dout=0):
    """The counters grow by the numbers of gates created, by kind."""
    eng, th = cx.eng, cx.th
    n = simp(cx.fld(post, "gate_index") - th.idx(cx.cid))
    if not z3.is_int_value(n):
        raise Unsupported("number of new gates")
    cnt = {k: 0 for k in th.gates}
    for i in range(n.as_long()):
        d, v = lookup(eng, st, cx.fld(post, "gate_map"), simp(th.idx(cx.cid) + i))
        if v is None or isz(v.tag):
            raise Unsupported("kind of a new gate")
        cnt[th.gates[v.tag]] += 1
    want = {"input_len": cnt["Input"], "output_len": dout, "num_const": cnt["Const"], "num_gate": sum(cnt[k] for k in LOGIC)}
    tot = I(0)
    for m, dlt in want.items():
        for s, v in cx.obs(st, post, m):
            eng.oblige(s.copy(), v == th.f(m, cx.cid) + dlt, "%s counts exactly what was created" % m)
            if m != "output_len":
                tot = tot + v
    for s, v in cx.obs(st, post, "num_wire"):
        eng.oblige(s.copy(), v == tot, "num_wire = inputs + constants + gates")


def new_constants(cx, st, post):
    eng, th = cx.eng, cx.th
    out = []
    for i in range(simp(cx.fld(post, "gate_index") - th.idx(cx.cid)).as_long()):
        d, v = lookup(eng, st, cx.fld(post, "gate_map"), simp(th.idx(cx.cid) + i))
        if v.tag == th.kind("Const"):
            out.append(simp(th.idx(cx.cid) + i))
    return out


def slots(cx, st, post, x):
    """How many operand positions of the new logic gates hold the gate x."""
    th, eng = cx.th, cx.eng
    n = simp(cx.fld(post, "gate_index") - th.idx(cx.cid))
    if not z3.is_int_value(n):
        raise Unsupported("number of new gates")
    tot = I(0)
    for i in range(n.as_long()):
        d, v = lookup(eng, st, cx.fld(post, "gate_map"), simp(th.idx(cx.cid) + i))
        if v is None or isz(v.tag):
            raise Unsupported("kind of a new gate")
        k, p = th.gates[v.tag], v.pay[v.tag][0]
        fs = [f for f, _ in cx.crate.structs[k + "Gate"]]
        for f in ("id", "left_id", "right_id"):
            if f in fs:
                tot = tot + z3.If(p.f[fs.index(f)] == x, 1, 0)
    return tot


def dep_len(cx, st, circ, x):
    """[(state, number of dependences reported for gate x)]"""
    out = []
    for s, v in cx.obs(st, circ, "get_depended_gates", [x]):
        t = res(cx, s, v)
        cx.eng.oblige(s, t == 0, "get_depended_gates succeeds")
        if not isinstance(v.pay[0][0], Seq):
            raise Unsupported("get_depended_gates")
        out.append((s, v.pay[0][0].len()))
    return out


OPS = {
    "input": (0, None),
    "constant": ("b", lambda a: a[0]),
    "not": (1, lambda a: z3.Not(VF(a[0]))),
    "and": (2, lambda a: z3.And(VF(a[0]), VF(a[1]))),
    "or": (2, lambda a: z3.Or(VF(a[0]), VF(a[1]))),
    "xor": (2, lambda a: z3.Xor(VF(a[0]), VF(a[1]))),
    "equivalent": (2, lambda a: VF(a[0]) == VF(a[1])),
    "identity": (1, lambda a: VF(a[0])),
}


def operation(prop, op):
    ar, spec = OPS[op]

    def run(crate, results, deadline):
        cx = CCtx(crate, op, results, deadline)
        eng, th, st = cx.eng, cx.th, cx.st
        if prop == "C04":
            th.calls()
            th.heads()
        install_values(cx)
        if ar == "b":
            args = [z3.Bool("value")]
        else:
            args = [z3.Int(n) for n in ("a", "b")[:ar]]
            for a in args:
                st.assume(a >= 0, a < th.idx(cx.cid))
        pre_heap = dict(st.heap)
        try:
            for s, r in cx.call(st, op, args):
                s = s.copy()
                post = s.heap[-1]
                eng.oblige(s, res(cx, s, r) == 0, "the operation succeeds")
                g = r.pay[0][0]
                if prop == "C01":
                    unlocked(cx, s)
                    for s2, v in cx.obs(s, cx.pre, "get_gate", [g]):
                        eng.oblige(s2.copy(), res(cx, s2, v) == 1, "the identifier was not used before")
                    for s2, v in cx.obs(s, post, "get_gate", [g]):
                        eng.oblige(s2.copy(), res(cx, s2, v) == 0, "the identifier is known afterwards")
                    val = gate_term(cx, s, post, g)
                    want = spec(args) if spec else IN(th.f("input_len", cx.cid))
                    eng.oblige(s.copy(), val == want, "the new gate has the value of the operation on its operands")
                    frame(cx, s, post)
                    inv(cx, s, post, reg=cx.reg)
                elif prop == "C02":
                    counters(cx, s, post)
                    if op == "input":
                        for s2, v in cx.obs(s, post, "input_to_gate_id", [th.f("input_len", cx.cid)]):
                            equal(cx, s2, v, ok(some(g)), "the new input is registered at the next position")
                    new = tuple(Seg(I(1), eng.jvar(), k) for k in new_constants(cx, s, post))
                    for s2, v in cx.obs(s, post, "get_const_gates"):
                        for s3, v0 in cx.obs(s2, cx.pre, "get_const_gates"):
                            equal(cx, s3, v, Seq(v0.segs + new), "new constants are listed after the others, in order")
                    inv(cx, s, post, reg=cx.reg)
                elif prop == "C05":
                    registry_frame(cx, s, pre_heap, post)
                elif prop in ("C03", "C04"):
                    x = eng.const("x")
                    s.assume(x >= 0, x < 2 ** 64)
                    for s1, n1 in dep_len(cx, s, post, x):
                        for s2, n0 in dep_len(cx, s1, cx.pre, x):
                            eng.oblige(s2.copy(), n1 == n0 + slots(cx, s2, post, x), "every operand position adds exactly one dependence")
                    inv(cx, s, post, reg=cx.reg)
                    if prop == "C04":
                        frame(cx, s, post)
                        inv_calls(cx, s, post)
        finally:
            cx.done()
    return run


def output(prop):
    def run(crate, results, deadline):
        cx = CCtx(crate, "output", results, deadline)
        eng, th, st = cx.eng, cx.th, cx.st
        if prop == "C04":
            th.calls()
            th.heads()
        a = cx.key("a", st)
        pre_heap = dict(st.heap)
        nout = th.f("output_len", cx.cid)
        try:
            for s, r in cx.call(st, "output", [a]):
                t = res(cx, s, r)
                for good in (True, False):
                    s1 = s.copy()
                    c = th.known(cx.cid, a)
                    s1.assume(c if good else z3.Not(c))
                    if not eng.feasible(s1, TRUE):
                        continue
                    post = s1.heap[-1]
                    eng.oblige(s1, t == (0 if good else 1), "registering a known gate succeeds" if good else "registering an unknown gate is an error")
                    if prop == "C01":
                        frame(cx, s1, post)
                        agree(cx, s1, post, cx.pre, "num_gate", [], "registering an output creates no gate")
                        inv(cx, s1, post, reg=cx.reg)
                    elif prop == "C02" and good:
                        w = r.pay[0][0]
                        eng.oblige(s1, w == nout, "outputs are numbered in the order of creation")
                        for s2, v in cx.obs(s1, post, "output_to_gate_id", [w]):
                            equal(cx, s2, v, ok(a), "the new output leads to the registered gate")
                        counters(cx, s1, post, 1)
                        agree(cx, s1, post, cx.pre, "get_const_gates", [], "the list of constants is unchanged")
                        frame(cx, s1, post)
                        inv(cx, s1, post, reg=cx.reg)
                    elif prop == "C02":
                        unchanged(cx, s1, post, pre_heap, "nothing changes")
                        inv(cx, s1, post, reg=cx.reg)
                    elif prop == "C05":
                        registry_frame(cx, s1, pre_heap, post)
                    elif prop in ("C03", "C04"):
                        x = eng.const("x")
                        s1.assume(x >= 0, x < 2 ** 64)
                        for s2, n1 in dep_len(cx, s1, post, x):
                            for s3, n0 in dep_len(cx, s2, cx.pre, x):
                                eng.oblige(s3.copy(), n1 == n0, "an output adds no dependence")
                        inv(cx, s1, post, reg=cx.reg)
                        if prop == "C04":
                            frame(cx, s1, post)
                            inv_calls(cx, s1, post)
        finally:
            cx.done()
    return run


def lookups(crate, results, deadline):
    """The observers on an arbitrary circuit satisfying INV."""
    cx = CCtx(crate, "lookups", results, deadline)
    eng, th, st = cx.eng, cx.th, cx.st
    w = cx.key("w", st)
    c = cx.cid
    try:
        for m, dom, val in (("input_to_gate_id", th.f("input_len", c), None), ("output_to_gate_id", th.f("output_len", c), None), ("get_gate", th.idx(c), None),
                            ("get_module", z3.Int("s.num_module"), None)):
            for good in (True, False):
                s = st.copy()
                s.assume(w < dom if good else w >= dom)
                for s1, v in cx.obs(s, cx.pre, m, [w]):
                    eng.oblige(s1.copy(), res(cx, s1, v) == (0 if good else 1), "%s: %s" % (m, "a registered position is found" if good else "an unregistered position is an error"))
                    if good and m == "input_to_gate_id":
                        g = v.pay[0][0].pay[1][0]
                        for s2, x in cx.obs(s1, cx.pre, "get_gate", [g]):
                            equal(cx, s2, x, ok(Enum("NXAOBoolGate", th.kind("Input"), {th.kind("Input"): (Agg("InputGate", (w,)),)})), "input w leads to the input gate of wire w")
        for m in ("input_len", "output_len", "num_wire", "num_gate", "num_const"):
            for s1, v in cx.obs(st, cx.pre, m):
                eng.oblige(s1.copy(), v == th.f(m, c), m + " reports the counter")
        inv(cx, st, cx.pre, "INV as assumed")
    finally:
        cx.done()


def fresh(crate, results, deadline):
    """`new` establishes INV."""
    cx = CCtx(crate, "new", results, deadline)
    eng, st = cx.eng, cx.st
    fn = crate.inherent.get(("NXAOBoolCircuit", "new"))
    if fn is None:
        raise Unsupported("NXAOBoolCircuit::new")
    try:
        for s, v in eng.call_fn(fn, [cx.reg], st):
            inv(cx, s, v, "a new circuit", cx.reg)
            inv_calls(cx, s, v, "a new circuit", pre=False)
            for m in ("input_len", "output_len", "num_wire", "num_gate", "num_const"):
                for s1, n in cx.obs(s, v, m):
                    eng.oblige(s1.copy(), n == 0, "a new circuit has %s 0" % m)
            for s1, n in cx.obs(s, v, "get_const_gates"):
                eng.oblige(s1.copy(), n.len() == 0, "a new circuit has no constants")
            x = eng.const("x")
            s.assume(x >= 0, x < 2 ** 64)
            for s1, n in dep_len(cx, s, v, x):
                eng.oblige(s1.copy(), n == 0, "a new circuit has no dependences")
    finally:
        cx.done()


def new_registry(crate, results, deadline):
    cx = CCtx(crate, "new registry", results, deadline)
    eng, st = cx.eng, cx.st
    fn = crate.inherent.get(("ModuleStorageRef", "new"))
    if fn is None:
        raise Unsupported("ModuleStorageRef::new")
    try:
        for s, v in eng.call_fn(fn, [], st):
            n = simp(v.f[0].f[0]).as_long()
            reg_inv(cx, s, s.heap[n], "a new registry")
            eng.oblige(s.copy(), s.heap[n].f[field(crate, "ModuleStorage", "num_module")] == 0, "a new registry is empty")
    finally:
        cx.done()


def reg_inv(cx, st, reg, what="INV of the registry"):
    eng = cx.eng
    n = reg.f[field(cx.crate, "ModuleStorage", "num_module")]
    m = reg.f[field(cx.crate, "ModuleStorage", "module_map")]
    s = st.copy()
    x = eng.const("m")
    s.assume(x >= 0, x < 2 ** 64)
    d, v = lookup(eng, s, m, x)
    eng.oblige(s.copy(), n >= 0, what + ": the counter is not negative")
    eng.oblige(s.copy(), d == (x < n), what + ": the registered identifiers are 0..num_module-1")


def rc_of(v):
    """The Rc of a BoolCircuitRef."""
    if not isinstance(v, Agg) or v.name != "BoolCircuitRef":
        raise Unsupported("a circuit handle")
    for x in v.f:
        if isinstance(x, Agg) and x.name == "Rc":
            return x
    raise Unsupported("a circuit handle")


def register(op, prop="C05"):
    def run(crate, results, deadline):
        cx = CCtx(crate, op, results, deadline)
        eng, th, st = cx.eng, cx.th, cx.st
        if prop == "C04":
            th.calls()
            th.heads()
        h = z3.Int("handle")
        st.assume(h >= 0)
        arg = Agg("BoolCircuitRef", (Agg("Rc", (h,)), Tok("PhantomData")))
        pre_heap = dict(st.heap)
        try:
            for s, r in cx.call(st, op, [arg] if op == "register_module" else []):
                s = s.copy()
                post = s.heap[-1]
                unlocked(cx, s)
                if op == "register_module":
                    mid, hd = r, arg
                else:
                    mid, hd = r.f
                s0 = s.copy()
                s0.heap = dict(pre_heap)
                for s1, v in cx.obs(s0, cx.pre, "get_module", [mid]):
                    eng.oblige(s1.copy(), res(cx, s1, v) == 1, "the identifier was not used before in the registry")
                # any circuit that shares the registry
                other = list(circuit(crate, I(7)).f)
                other[field(crate, "NXAOBoolCircuit", "module_storage")] = cx.reg
                for who, circ in (("this circuit", post), ("every circuit sharing the registry", Agg("NXAOBoolCircuit", other))):
                    for s1, v in cx.obs(s, circ, "get_module", [mid]):
                        eng.oblige(s1, res(cx, s1, v) == 0, "the identifier resolves from " + who)
                        equal(cx, s1, rc_of(v.pay[0][0]), rc_of(hd), "the identifier resolves to that very circuit from " + who)
                    s2 = s.copy()
                    x = eng.const("m")
                    s2.assume(x >= 0, x < z3.Int("s.num_module"))
                    for s3, v in cx.obs(s2, circ, "get_module", [x]):
                        s4 = s3.copy()
                        s4.heap = dict(pre_heap)
                        for s5, w in cx.obs(s4, cx.pre, "get_module", [x]):
                            equal(cx, s5, v, w, "earlier identifiers resolve as before from " + who)
                for m in ("input_len", "output_len", "num_wire", "num_gate", "num_const"):
                    agree(cx, s, post, cx.pre, m, [], "the registering circuit does not change: " + m)
                frame(cx, s, post)
                inv(cx, s, post, reg=cx.reg)
                reg_inv(cx, s, s.heap[-2])
                if prop == "C04":
                    inv_calls(cx, s, post)
                if op == "sub_circuit":
                    n = simp(rc_of(hd).f[0])
                    if not z3.is_int_value(n) or n.as_long() not in s.heap or n.as_long() >= -2:
                        raise Unsupported("the circuit behind the handle")
                    c = s.heap[n.as_long()]
                    inv(cx, s, c, "the sub-circuit", cx.reg)
                    if prop == "C04":
                        inv_calls(cx, s, c, "the sub-circuit", pre=False)
                    for m in ("input_len", "output_len", "num_wire", "num_gate", "num_const"):
                        for s1, v in cx.obs(s, c, m):
                            eng.oblige(s1.copy(), v == 0, "a sub-circuit starts empty: " + m)
        finally:
            cx.done()
    return run


def module(prop):
    def run(crate, results, deadline):
        cx = CCtx(crate, "module", results, deadline)
        eng, th, st = cx.eng, cx.th, cx.st
        if prop == "C04":
            th.calls()
            th.heads()
        m = cx.key("m", st)
        n = z3.Int("nargs")
        st.assume(n >= 0, n < LIM)
        j = eng.jvar()
        ARG = z3.Function("arg", Z, Z)
        args = Seq([Seg(n, j, ARG(j))])
        th.trig["arg"] = lambda i: [z3.Implies(z3.And(i >= 0, i < n), z3.And(ARG(i) >= 0, ARG(i) < th.idx(cx.cid)))]
        pre_heap = dict(st.heap)
        nm = z3.Int("s.num_module")
        try:
            for good in (True, False):
                st1 = st.copy()
                st1.assume(m < nm if good else m >= nm)
                h = None
                if good:
                    (s0, v0), = cx.obs(st1, cx.pre, "get_module", [m])
                    h = rc_of(v0.pay[0][0]).f[0]
                for s, r in cx.call(st1, "module", [m, args]):
                    s = s.copy()
                    post = s.heap[-1]
                    eng.oblige(s, res(cx, s, r) == (0 if good else 1), "calling a registered module succeeds" if good else "calling an unregistered identifier is an error")
                    unlocked(cx, s)
                    if not good:
                        if prop in ("C02", "C05"):
                            unchanged(cx, s, post, pre_heap, "a failed call changes nothing")
                            inv(cx, s, post, reg=cx.reg)
                        continue
                    rs = r.pay[0][0]
                    O = lambda f: th.f(f, h)
                    idx = th.idx(cx.cid)
                    if prop in ("C01", "C04", "C05"):
                        eng.oblige(s, rs.len() == O("output_len"), "a call yields one gate per output of the module")
                        i = eng.const("i")
                        s1 = s.copy()
                        s1.assume(i >= 0, i < O("output_len"))
                        g = eng.seq_get(s1, rs, i) if eng.feasible(s1, TRUE) else None
                        for s2, v in cx.obs(s1, cx.pre, "get_gate", [g]):
                            eng.oblige(s2.copy(), res(cx, s2, v) == 1, "the identifiers were not used before")
                        i2 = eng.const("i2")
                        s2 = s1.copy()
                        s2.assume(i2 >= 0, i2 < O("output_len"), i2 != i)
                        eng.oblige(s2, eng.seq_get(s2, rs, i2) != g, "the identifiers of a call are distinct")
                        if prop in ("C04", "C05"):
                            want = {"input_len": O("input_len"), "output_len": O("output_len"), "input_ids": args, "out_index": i, "module_id": m}
                            fs = [f for f, _ in crate.structs["ModuleGate"]]
                            for s2, v in cx.obs(s1, post, "get_gate", [g]):
                                eng.oblige(s2, res(cx, s2, v) == 0, "the new gates are known")
                                gate = v.pay[0][0]
                                eng.oblige(s2, (gate.tag if isz(gate.tag) else I(gate.tag)) == th.kind("Module"), "the new gates are module gates")
                                p = gate.pay[th.kind("Module")][0]
                                for f in want:
                                    equal(cx, s2, p.f[fs.index(f)], want[f], "the i-th new gate records %s of the call" % f)
                            registry_frame(cx, s, pre_heap, post)
                            eng.oblige(s.copy(), cx.fld(post, "gate_index") == idx + O("output_len"), "a call creates exactly one gate per output")
                        frame(cx, s, post)
                    if prop == "C02":
                        tot = I(0)
                        for f in ("input_len", "output_len", "num_const", "num_gate"):
                            d = O(f) if f in ("num_const", "num_gate") else 0
                            for s2, v in cx.obs(s, post, f):
                                eng.oblige(s2.copy(), v == th.f(f, cx.cid) + d, "%s counts the module's own" % f)
                                tot = tot + (v if f != "output_len" else 0)
                        for s2, v in cx.obs(s, post, "num_wire"):
                            eng.oblige(s2.copy(), v == tot, "num_wire = inputs + constants + gates")
                        agree(cx, s, post, cx.pre, "get_const_gates", [], "the list of constants is unchanged")
                    if prop == "C04":
                        s0, x = s, eng.const("x")
                        s = s.copy()
                        s.assume(x >= 0, x < 2 ** 64)
                        cnt = eng.counter(j, ARG(j))
                        for s2, n1 in dep_len(cx, s, post, x):
                            for s3, n0 in dep_len(cx, s2, cx.pre, x):
                                eng.oblige(s3.copy(), n1 == n0 + O("output_len") * cnt(n, x), "every argument position adds one dependence per output of the module")
                        s = s0
                        s.assume(n == O("input_len"))
                        inv_calls(cx, s, post)
                    inv(cx, s, post, reg=cx.reg)
        finally:
            cx.done()
    return run


DELEGATES = ["input_len", "output_len", "num_wire", "num_gate", "num_const", "input_to_gate_id", "output_to_gate_id", "get_gate", "get_module", "get_const_gates", "get_depended_gates",
             "input", "output", "constant", "not", "xor", "and", "or", "equivalent", "identity", "register_module", "sub_circuit"]


def delegate(m):
    """The method of the shared handle does what the method of the circuit does, and leaves no borrow open."""
    def run(crate, results, deadline):
        cx = CCtx(crate, "BoolCircuitRef::" + m, results, deadline)
        eng, th, st = cx.eng, cx.th, cx.st
        fn = crate.inherent.get(("BoolCircuitRef", m))
        if fn is None:
            raise Unsupported("BoolCircuitRef::" + m)
        direct = cx.method(m)
        direct.parse()
        args = []
        for a in direct.args[1:]:
            t = direct.locals[a]
            while t.name in ("&", "&mut"):
                t = t.args[0]
            if t.name == "bool":
                args.append(z3.Bool("v%d" % len(args)))
            elif t.name in INTS:
                args.append(cx.key("v%d" % len(args), st))
            elif t.name in ("[]", "slice") or repr(t).startswith("["):
                n, ARG = z3.Int("nargs"), z3.Function("arg", Z, Z)
                st.assume(n >= 0, n < LIM)
                jv = eng.jvar()
                args.append(Seq([Seg(n, jv, ARG(jv))]))
                th.trig["arg"] = lambda i: [z3.Implies(z3.And(i >= 0, i < n), z3.And(ARG(i) >= 0, ARG(i) < th.idx(cx.cid)))]
            elif t.name == "BoolCircuitRef":
                h = z3.Int("handle")
                st.assume(h >= 0)
                args.append(Agg("BoolCircuitRef", (Agg("Rc", (h,)), Tok("PhantomData"))))
            else:
                raise Unsupported("argument of type %r" % t)
        if m in ("not", "and", "or", "xor", "equivalent", "identity"):
            for a in args:
                st.assume(a < th.idx(cx.cid))
        s0 = st.copy()
        s0.cells[("arg", "self")] = cx.ref
        mut = fn.parse() or fn.locals[fn.args[0]].name == "&mut"
        this = Ptr(("arg", "self"), ()) if mut else cx.ref
        try:
            ctr, j = eng.ctr, eng.jctr
            a = eng.call_fn(fn, [this] + args, s0)
            eng.ctr, eng.jctr = ctr, j
            b = eng.call_fn(direct, [cx.ptr if direct.locals[direct.args[0]].name == "&mut" else cx.pre] + args, st)
            eng.ctr += 1000
            if len(a) != len(b):
                raise Unsupported("the two executions split differently")
            for (s, x), (s2, y) in zip(a, b):
                s3 = s.copy()
                s3.assume(*s2.pc[len(st.pc):])
                unlocked(cx, s)
                ok_ = vsame(eng.deref_read(s, x), eng.deref_read(s2, y))
                same = all(vsame(s.heap.get(k), s2.heap.get(k)) for k in set(s.heap) | set(s2.heap) if isinstance(k, int))
                if not ok_:
                    equal(cx, s3, eng.deref_read(s, x), eng.deref_read(s2, y), "the result is that of the circuit's own method")
                else:
                    eng.oblige(s3, TRUE, "the result is that of the circuit's own method")
                if not same:
                    raise Unsupported("the states after the handle's and the circuit's method differ")
                eng.oblige(s3, TRUE, "the circuit behind the handle changes as by its own method")
                for k in s.heap:
                    if k not in s2.heap and not (isinstance(k, tuple) and k[0] == "flag"):
                        raise Unsupported("heap")
        finally:
            cx.done()
    return run


def handle_new(crate, results, deadline):
    """to_ref puts this very circuit behind a fresh handle; clone of a handle is the same handle."""
    cx = CCtx(crate, "to_ref", results, deadline)
    eng, st = cx.eng, cx.st
    try:
        for s, v in eng.call_fn(cx.method("to_ref"), [cx.pre], st):
            n = simp(rc_of(v).f[0])
            okay = z3.is_int_value(n) and n.as_long() in s.heap and n.as_long() not in st.heap
            if not okay:
                raise Unsupported("the handle")
            eng.oblige(s.copy(), z3.BoolVal(vsame(s.heap[n.as_long()], cx.pre)), "the handle leads to the circuit")
        fn = crate.inherent.get(("BoolCircuitRef", "clone"))
        if fn is None:
            raise Unsupported("BoolCircuitRef::clone")
        for s, v in eng.call_fn(fn, [cx.ref], st):
            equal(cx, s, rc_of(v), rc_of(cx.ref), "a clone of a handle leads to the same circuit")
    finally:
        cx.done()


def tasks(prop):
    if prop not in ("C01", "C02", "C03", "C04", "C05"):
        return []
    out = [("new", fresh)] if prop in ("C01", "C02", "C03", "C04") else []
    out += [(op, operation(prop, op)) for op in OPS]
    out.append(("output", output(prop)))
    if prop != "C03":
        out.append(("module", module(prop)))
    if prop in ("C02", "C03", "C04"):
        out.append(("lookups", lookups))
    if prop == "C05":
        out += [("new registry", new_registry), ("register_module", register("register_module")), ("sub_circuit", register("sub_circuit")), ("lookups", lookups), ("to_ref", handle_new)]
    if prop == "C04":
        out += [("register_module", register("register_module", prop)), ("sub_circuit", register("sub_circuit", prop))]
    if prop in ("C01", "C02", "C03", "C04", "C05"):
        d = {"C01": ["input", "output", "constant", "not", "xor", "and", "or", "equivalent", "identity", "get_gate"],
             "C02": ["input_len", "output_len", "num_wire", "num_gate", "num_const", "input_to_gate_id", "output_to_gate_id", "get_gate", "get_const_gates", "input", "output", "constant"],
             "C03": ["input_len", "output_len", "input_to_gate_id", "output_to_gate_id", "get_gate", "get_depended_gates", "input", "output", "constant", "not", "xor", "and", "or", "equivalent", "identity"],
             "C04": ["input_len", "output_len", "get_gate", "get_module", "get_depended_gates", "module", "register_module", "sub_circuit"],
             "C05": ["get_module", "register_module", "sub_circuit", "module"]}[prop]
        out += [("BoolCircuitRef::" + m, delegate(m)) for m in d]
    return out
