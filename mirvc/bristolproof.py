"""C06, C07: contracts of the Bristol reader, for a file of any length with any tokens.

A file is a sequence of lines, a line a sequence of tokens; the strings are opaque, except that two of them can be compared, that a token may
or may not parse as a number, and that a line may be empty (models of BufRead::lines, split_whitespace, str::parse).  The meaning of a file
is given by two functions defined by recursion over its gate lines:
  DEF(k, w)   wire w is defined by the inputs or one of the first k gate lines
  VAL(k, w)   the Boolean value it then has
The circuit operations are used by their contracts (C01): each yields a gate with the value of the operation on its operands.
"""
import z3
from .mir import Unsupported
from .core import *
from .circuit import Theory, F, LIM, Z
from .maps import SMap, Base, lookup
from . import loops, maps
from .std import to_iter, it_next

B = z3.BoolSort()
LINE = lambda i: F("file.line", (i,))
LEN = lambda l: F("text.len", (l,))
NTOK = lambda l: F("line.tokens", (l,))
TOK = lambda l, j: F("line.token", (l, j))
ISNUM = lambda t: F("text.isnum", (t,), B)
NUM = lambda t: F("text.num", (t,))
IOK = lambda i: F("file.readable", (i,), B)
NL = z3.Int("file.lines")
NG = z3.Int("file.gatelines")
WF = z3.Bool("file.wellformed")
DEF = lambda k, w: F("DEF", (k, w), B)
VAL = lambda k, w: F("VAL", (k, w), B)
WG = lambda k, w: F("wiregate", (k, w))
GI = lambda i: F("inputgate", (i,))
V = lambda g: F("V", (g,), B)
IN = lambda i: F("in", (i,), B)
KNOWN = lambda g: F("gate.known", (g,), B)
NAMES = ["INV", "XOR", "AND", "OR", "EQW", "EQ"]


def text(t):
    return Agg("Text", (t,))


def install_text(eng):
    """Strings as integers: equal strings are equal integers."""
    codes = {}

    def code(s):
        if s not in codes:
            codes[s] = -1 - len(codes)
        return I(codes[s])
    eng.textcode = code
    M = eng.models

    def reg(*names):
        def d(f):
            for n in names:
                def g(eng, st, a, info, f=f, n=n):
                    eng.assumed.add(n)
                    return f(eng, st, a, info)
                M[n] = g
            return f
        return d

    def rd(eng, st, v):
        v = eng.deref_read(st, v)
        if isinstance(v, Tok) and v.name.startswith("str:") and not v.a:
            return text(code(v.name[4:]))
        return v

    def is_text(v):
        return isinstance(v, Agg) and v.name == "Text"

    old_eq = M["PartialEq::eq"]

    @reg("PartialEq::eq", "PartialEq::ne")
    def _(eng, st, a, info):
        x, y = rd(eng, st, a[0]), rd(eng, st, a[1])
        if is_text(x) and is_text(y):
            e = simp(x.f[0] == y.f[0])
            return [(st, e if info.key.endswith("eq") else simp(z3.Not(e)))]
        return old_eq(eng, st, a, info)

    @reg("BufRead::lines")
    def _(eng, st, a, info):
        j = eng.jvar()
        v = Enum("Result", z3.If(IOK(j), I(0), I(1)), {0: (text(LINE(j)),), 1: (Tok("io::Error"),)})
        return [(st, to_iter(eng, st, Seq([Seg(NL, j, v)])))]

    @reg("str::split_whitespace", "str::split_ascii_whitespace")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        if not is_text(v):
            raise Unsupported("split of another string")
        j = eng.jvar()
        return [(st, to_iter(eng, st, Seq([Seg(NTOK(v.f[0]), j, text(TOK(v.f[0], j)))])))]

    @reg("str::parse", "FromStr::from_str")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        t = info.callee
        ty = next((n for n in ("usize", "u64", "u32", "u16", "u8") if "<%s>" % n in t or t.startswith("<%s as" % n)), None)
        if ty is None or not is_text(v):
            raise Unsupported("parse of " + t[:60])
        lo, hi = eng.width(Ty_(ty))
        good = z3.And(ISNUM(v.f[0]), NUM(v.f[0]) <= hi)
        return [(st, Enum("Result", z3.If(good, I(0), I(1)), {0: (NUM(v.f[0]),), 1: (Tok("ParseIntError"),)}))]
    old_deref = M.get("Deref::deref")

    @reg("Deref::deref", "String::as_str", "AsRef::as_ref", "Borrow::borrow")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        if is_text(v):
            return [(st, v)]
        return old_deref(eng, st, a, info)

    def both(name, f):
        old = M.get(name)

        def g(eng, st, a, info):
            v = rd(eng, st, a[0])
            if is_text(v):
                eng.assumed.add(name)
                return [(st, f(v.f[0]))]
            if old is None:
                raise Unsupported("call of " + name)
            return old(eng, st, a, info)
        M[name] = g
    both("String::len", lambda t: LEN(t))
    both("str::len", lambda t: LEN(t))
    both("String::is_empty", lambda t: simp(LEN(t) == 0))
    both("str::is_empty", lambda t: simp(LEN(t) == 0))
    # a trimmed line: the same tokens, empty iff it has none
    for n in ("str::trim", "str::trim_end", "str::trim_start", "String::trim"):
        both(n, lambda t: Agg("Trimmed", (t,)))
    for n, f in (("str::is_empty", lambda t: simp(NTOK(t) <= 0)), ("str::split_whitespace", None)):
        def g(eng, st, a, info, f=f, old=M[n]):
            v = rd(eng, st, a[0])
            if isinstance(v, Agg) and v.name == "Trimmed":
                if f:
                    return [(st, f(v.f[0]))]
                a = [text(v.f[0])] + list(a[1:])
            return old(eng, st, a, info)
        M[n] = g


def Ty_(n):
    from .mir import Ty
    return Ty(n)


class FileTheory(Theory):
    def __init__(self, eng):
        self.eng = eng
        self.trig, self.extra, self.g = {}, {}, "?"
        self.memo, self.terms, self.inst = {}, {}, {}
        self.maxnest, self.rounds = 99, 4
        eng.theory = self

    def __call__(self, st, hy, light=False):
        n = st.heap.get("nin") if st is not None else None
        if n is not None:
            # the circuit has that many inputs, and its counters stay below LIM
            add = [z3.And(n >= 0, n < LIM)]
            # what the finished loops established in their first two iterations and the last one
            for q in st.q:
                add += [q.at(i) for i in (I(0), I(1), simp(q.hi - 1))]
            hy = list(hy) + add
            return add + Theory.__call__(self, st, hy, light)
        return Theory.__call__(self, st, hy, light)


class Rd:
    """One execution of the reader on an arbitrary file, into an empty circuit."""

    def __init__(self, crate, name, prop, results, deadline):
        self.crate, self.prop, self.results = crate, prop, results
        self.eng = eng = Engine(crate, deadline)
        eng.prefix = name + ": "
        maps.install(eng)
        install_text(eng)
        self.th = th = FileTheory(eng)
        self.st = st = State()
        st.heap["nin"] = I(0)
        st.heap["outs"] = Seq()
        code = eng.textcode
        for n in NAMES:
            code(n)
        self.at = lambda i, j: TOK(LINE(I(i)), j)
        # header
        self.ni, self.no, self.nw = NUM(self.at(1, I(0))), NUM(self.at(2, I(0))), NUM(self.at(0, I(1)))
        k = z3.Int("k!file")
        self.sin = eng.summer((), k, NUM(TOK(LINE(I(1)), k + 1)), True)
        self.sout = eng.summer((), k, NUM(TOK(LINE(I(2)), k + 1)), True)
        self.S, self.O = self.sin(self.ni), self.sout(self.no)
        isn = lambda i, j: self.isu(self.at(i, j))
        self.header = [NL >= 4, IOK(I(0)), IOK(I(1)), IOK(I(2)), NTOK(LINE(I(0))) >= 2, NTOK(LINE(I(1))) >= 1 + self.ni, NTOK(LINE(I(2))) >= 1 + self.no,
                       isn(0, I(0)), isn(0, I(1)), isn(1, I(0)), isn(2, I(0)), self.O <= self.nw]
        st.assume(NL >= 0, z3.Implies(NL >= 4, z3.And(NG >= 0, NG <= NL - 4)), z3.Implies(NG < NL - 4, LEN(LINE(4 + NG)) == 0), z3.Implies(WF, z3.And(self.header)),
                  z3.Implies(WF, z3.And(IOK(I(3)), z3.Or(NG == NL - 4, IOK(4 + NG)))))
        if prop == "C06":
            st.assume(WF)
        self.triggers()
        eng.hooks["inv"] = self
        for op in ("not", "and", "or", "xor", "identity", "constant", "input", "output", "equivalent"):
            eng.contracts["BoolCircuitRef::" + op] = lambda e, s, a, i, op=op: self.op(op, s, a)
        self.exits = None

    def isu(self, t):
        return z3.And(ISNUM(t), NUM(t) < 2 ** 64)

    # ---- the meaning of a gate line
    def gate_line(self, k):
        l = LINE(4 + k)
        t = lambda i: TOK(l, I(i))
        n = lambda i: NUM(t(i))
        code = self.eng.textcode
        two = lambda s: z3.And(n(0) == 2, TOK(l, I(5)) == code(s), NTOK(l) >= 6, self.isu(t(2)), self.isu(t(3)), self.isu(t(4)), DEF(k, n(2)), DEF(k, n(3)))
        one = lambda s, *c: z3.And(n(0) == 1, TOK(l, I(4)) == code(s), NTOK(l) >= 5, self.isu(t(2)), self.isu(t(3)), *c)
        shape = z3.And(self.isu(t(0)), self.isu(t(1)), n(1) == 1)
        kinds = {"XOR": two("XOR"), "AND": two("AND"), "OR": two("OR"), "INV": one("INV", DEF(k, n(2))), "EQW": one("EQW", DEF(k, n(2))), "EQ": one("EQ", z3.Or(n(2) == 0, n(2) == 1))}
        wf = z3.And(IOK(4 + k), shape, z3.Or(list(kinds.values())))
        out = z3.If(n(0) == 2, n(4), n(3))
        a, b = VAL(k, n(2)), VAL(k, n(3))
        v = z3.Not(a)
        for s, e in (("EQW", a), ("EQ", n(2) == 1)):
            v = z3.If(TOK(l, I(4)) == code(s), e, v)
        w = z3.Xor(a, b)
        for s, e in (("AND", z3.And(a, b)), ("OR", z3.Or(a, b))):
            w = z3.If(TOK(l, I(5)) == code(s), e, w)
        return wf, out, z3.If(n(0) == 2, w, v)

    def triggers(self):
        th, ex = self.th, self.th.extra
        # the number of a token that is not a number is of no consequence
        ex["text.num"] = lambda t: [NUM(t) >= 0]
        ex["text.isnum"] = lambda t: [z3.Implies(z3.And(t < 0, t >= -len(NAMES)), z3.Not(ISNUM(t)))]
        ex["text.len"] = lambda t: [LEN(t) >= 0]
        ex["line.tokens"] = lambda l: [NTOK(l) >= 0, z3.Implies(NTOK(l) > 0, LEN(l) > 0)]
        ex["inputgate"] = lambda i: [z3.Implies(i >= 0, z3.And(KNOWN(GI(i)), V(GI(i)) == IN(i)))]
        ex["wiregate"] = lambda k, w: [z3.Implies(DEF(k, w), z3.And(KNOWN(WG(k, w)), V(WG(k, w)) == VAL(k, w)))]

        def line(i):
            if z3.is_int_value(i) and i.as_long() < 4:
                return []
            wf, _, _ = self.gate_line(simp(i - 4))
            return [z3.Implies(z3.And(NL >= 4, i >= 4, i < 4 + NG), LEN(LINE(i)) > 0), z3.Implies(z3.And(WF, i >= 4, i < 4 + NG), wf)]
        ex["file.line"] = line
        ex["file.readable"] = line

        def token(l, j):
            if not z3.is_app(l) or l.num_args() != 1:
                return []
            i = l.arg(0)
            for r, n in ((1, self.ni), (2, self.no)):
                if z3.is_int_value(i) and i.as_long() == r:
                    return [z3.Implies(z3.And(WF, j >= 0, j < 1 + n), self.isu(TOK(l, j)))]
            return []
        ex["line.token"] = token

        def unfold(k, w):
            if z3.is_int_value(k) and k.as_long() <= 0:
                return [DEF(k, w) == z3.And(w >= 0, w < self.S), z3.Implies(DEF(k, w), VAL(k, w) == IN(w))] if k.as_long() == 0 else []
            p = simp(k - 1)
            _, out, v = self.gate_line(p)
            return [z3.Implies(k == 0, z3.And(DEF(k, w) == z3.And(w >= 0, w < self.S), z3.Implies(DEF(k, w), VAL(k, w) == IN(w)))),
                    z3.Implies(k > 0, z3.And(DEF(k, w) == z3.Or(DEF(p, w), w == out), VAL(k, w) == z3.If(w == out, v, VAL(p, w))))]
        # the outputs of a well-formed file are defined
        ex["VAL"] = lambda k, w: unfold(k, w) if depth(k) < 2 else []
        ex["DEF"] = lambda k, w: (unfold(k, w) if depth(k) < 2 else []) + [z3.Implies(z3.And(WF, k == NG, w >= self.nw - self.O, w < self.nw), DEF(k, w))]
        for s, n in ((self.sin, self.ni), (self.sout, self.no)):
            def partial(T, s=s, n=n):
                d = NUM(TOK(LINE(I(1 if s is self.sin else 2)), simp(T + 1)))
                return [z3.Implies(T >= 0, s(T) >= 0), z3.Implies(z3.And(T >= 0, T <= n), s(T) <= s(n)), z3.Implies(z3.And(T >= 0, T < n), s(T) + d <= s(n))]
            self.th.extra["lemma:" + s.name()] = partial

    # ---- contracts of the circuit
    def op(self, op, st, a):
        eng = self.eng
        st = st.copy()
        self.circuit(st, a[0])
        if op == "input":
            n = st.heap["nin"]
            st.heap["nin"] = simp(n + 1)
            return [(st, ok(GI(n)))]
        if op == "constant":
            xs, v = [], a[1]
        else:
            xs = [eng.deref_read(st, x) for x in a[1:]]
            for x in xs:
                eng.oblige(st, KNOWN(x), "the operands of %s are gates of the circuit" % op)
            if op == "output":
                if not isinstance(st.heap["outs"], Seq):
                    raise Unsupported("outputs that the loop summary does not describe")
                st.heap["outs"] = Seq(st.heap["outs"].segs + (Seg(I(1), eng.jvar(), xs[0]),))
                return [(st, ok(UNIT))]
            p = [V(x) for x in xs]
            v = {"not": lambda: z3.Not(p[0]), "identity": lambda: p[0], "and": lambda: z3.And(p[0], p[1]), "or": lambda: z3.Or(p[0], p[1]), "xor": lambda: z3.Xor(p[0], p[1]),
                 "equivalent": lambda: p[0] == p[1]}[op]()
        g = eng.fresh(st, "gate")
        st.assume(KNOWN(g), V(g) == v)
        return [(st, ok(g))]

    def circuit(self, st, p):
        v = self.eng.deref_read(st, p)
        if not isinstance(v, Tok) or v.name != "circuit":
            raise Unsupported("another circuit")

    # ---- the loop over the gate lines: at the start of iteration k the map is that of DEF and VAL
    def owns(self, path, v0, bs):
        for b in bs:
            if isinstance(b, SMap) and isinstance(v0, SMap) and any(made(e) for e in b.log):
                return "wires"
        return None

    def value(self, eng, f, k):
        return SMap(Base("wires", (k,), lambda p, w: DEF(p[0], w), lambda p, w: WG(p[0], w)))

    def check(self, eng, st0, forms, k, backs, name):
        at = {f.x: p for p, f in forms.items() if f.kind == "inv"}
        if set(at) != {"wires"} or sum(f.kind == "inv" for f in forms.values()) != 1:
            raise Unsupported("loop over the gate lines")
        for st, kk, what in [(st0, I(0), "before the gate lines")] + [(b, k + 1, "after a gate line") for b in backs]:
            s = st.copy()
            p = at["wires"]
            m = loops.getp(loops.root(st, p[0]), p[1:])
            if not isinstance(m, SMap):
                raise Unsupported("the map of the wires")
            if st is not st0:
                if self.prop == "C07":
                    wf, _, _ = self.gate_line(k)
                    eng.oblige(s.copy(), wf, "a gate line that is accepted is well-formed")
                eng.oblige(s.copy(), LEN(LINE(4 + k)) > 0, "an empty line ends the gates")
            self.wires(s, m, simp(kk), what)

    def wires(self, st, m, k, what):
        eng = self.eng
        w = eng.const("w")
        s = st.copy()
        s.assume(w >= 0, w < 2 ** 64)
        d, g = lookup(eng, s, m, w)
        eng.oblige(s.copy(), d == DEF(k, w), what + ": exactly the defined wires have a gate")
        if g is not None and eng.feasible(s, d):
            s.assume(d)
            eng.oblige(s.copy(), KNOWN(g), what + ": the gate of a wire is a gate of the circuit")
            if self.prop == "C06":
                eng.oblige(s.copy(), V(g) == VAL(k, w), what + ": the gate of a wire has the value of the wire")


def made(e):
    if e[0] == "ins":
        return isz(e[2]) and z3.is_int(e[2]) and not (z3.is_app(e[2]) and e[2].decl().name() == "inputgate")
    if e[0] == "ite":
        return any(made(x) for x in e[2] + e[3])
    return False


def depth(k):
    n = 0
    while z3.is_app(k) and k.num_args() == 2 and z3.is_int_value(k.arg(0)) and k.arg(0).as_long() < 0:
        n -= k.arg(0).as_long()
        k = k.arg(1)
    return n


def read(prop):
    def run(crate, results, deadline):
        rd = Rd(crate, "read", prop, results, deadline)
        eng, st = rd.eng, rd.st
        fs = [f for f, _ in crate.structs.get("BristolReader", ())]
        if "gate_of_wire" not in fs:
            raise Unsupported("fields of the reader")
        old = SMap(Base("old", (), lambda p, k: F("old.dom", (k,), B), lambda p, k: F("old.val", (k,))))
        st.cells[("arg", "self")] = Agg("BristolReader", [old if f == "gate_of_wire" else Tok("PhantomData") for f in fs])
        if any(f not in ("gate_of_wire", "_g", "_c") for f in fs):
            raise Unsupported("fields of the reader")
        st.cells[("arg", "c")] = Tok("circuit")
        fn = crate.inherent.get(("BristolReader", "read"))
        if fn is None:
            raise Unsupported("BristolReader::read")
        try:
            outs = eng.call_fn(fn, [Ptr(("arg", "self"), ()), Tok("file"), Ptr(("arg", "c"), ())], st)
            good = 0
            for s, v in outs:
                if not isinstance(v, Enum) or isz(v.tag):
                    raise Unsupported("result of read")
                s = s.copy()
                s.assume(*[q.at(NG) for q in s.q])
                if not eng.feasible(s, TRUE):
                    continue
                if v.tag == 1:
                    if prop == "C06":
                        eng.oblige(s, FALSE, "a well-formed file is read without an error")
                    continue
                # guard against vacuity: some path that accepts a well-formed file must be possible
                good += not eng.proved(s, z3.Not(WF))
                ok_exit(rd, s, prop)
            if not good:
                raise Unsupported("no file is read successfully")
        finally:
            rd.results.extend(eng.obs)
            stats(eng)
    return run


def stats(e):
    from . import builders
    if builders.STATS is not None:
        builders.STATS.append({"inlined": set(e.inlined), "contracts": set(e.used), "models": set(e.assumed), "solver_s": e.solver_time, "queries": e.queries})


def ok_exit(rd, s, prop):
    eng = rd.eng
    if prop == "C07":
        for f in rd.header:
            eng.oblige(s.copy(), f, "a file that is accepted has a well-formed header")
        i = eng.const("i")
        for r, n in ((1, rd.ni), (2, rd.no)):
            s2 = s.copy()
            s2.assume(i >= 0, i < n, *[q.at(i) for q in s.q])
            eng.oblige(s2, rd.isu(TOK(LINE(I(r)), 1 + i)), "the group sizes of a file that is accepted are numbers")
        i = eng.const("i")
        s2 = s.copy()
        s2.assume(i >= rd.nw - rd.O, i < rd.nw, *[q.at(simp(j)) for q in s.q for j in (i - (rd.nw - rd.O), rd.nw - 1 - i)])
        eng.oblige(s2, DEF(NG, i), "the outputs of a file that is accepted are defined")
        return
    eng.oblige(s.copy(), s.heap["nin"] == rd.S, "as many inputs as the input groups total")
    outs = s.heap["outs"]
    if not isinstance(outs, Seq):
        raise Unsupported("the outputs")
    eng.oblige(s.copy(), outs.len() == rd.O, "as many outputs as the output groups total")
    i = eng.const("i")
    s2 = s.copy()
    s2.assume(i >= 0, i < rd.O, *[q.at(i) for q in s.q])
    if eng.feasible(s2, TRUE):
        g = eng.seq_get(s2, outs, i)
        eng.oblige(s2.copy(), V(g) == VAL(NG, rd.nw - rd.O + i), "output i has the value of the i-th of the last wires")


def sums(crate, results, deadline):
    """The facts about the partial sums of the group sizes, by induction over the number of groups n."""
    eng = Engine(crate, deadline)
    eng.prefix = "sums: "
    n, T = z3.Ints("n T")
    s, d = z3.Function("s", Z, Z), z3.Function("d", Z, Z)
    st = State()
    st.assume(n >= 0, T >= 0, s(0) == 0, s(n + 1) == s(n) + d(n), d(n) >= 0, s(T + 1) == s(T) + d(T), d(T) >= 0)
    for what, claim in (("s(n) >= 0", lambda m: s(m) >= 0), ("s(T) <= s(n) for T <= n", lambda m: z3.Implies(T <= m, s(T) <= s(m))),
                        ("s(T) + d(T) <= s(n) for T < n", lambda m: z3.Implies(T < m, s(T) + d(T) <= s(m)))):
        eng.oblige(st.copy(), claim(z3.IntVal(0)), what + ": base")
        q = st.copy()
        q.assume(claim(n))
        eng.oblige(q, claim(n + 1), what + ": step")
    results.extend(eng.obs)


OPS = ["input", "constant", "not", "xor", "and", "or", "identity"]


def tasks(prop):
    if prop not in ("C06", "C07"):
        return []
    from . import level1
    out = [("BristolReader::read", read(prop)), ("sums", sums)]
    if prop == "C06":
        # the contracts of the circuit that the reader uses
        out += [(op, level1.operation("C01", op)) for op in level1.OPS if op in OPS] + [("output", level1.output("C05")), ("new", level1.fresh)]
        out += [("BoolCircuitRef::" + m, level1.delegate(m)) for m in OPS + ["output"]]
    return out
