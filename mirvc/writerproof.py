"""C08, C09: contracts of the Bristol writer, for a circuit of any size that satisfies INV (level1.py), with modules nested to any depth.

The writer keeps M (wire of each gate of the circuit being written that has one), C (value of each constant wire), the next wire and the next
constant wire.  W(w) is the value of wire w in the file: that of the input, the constant in C, or the one given by the gate line that defines
the wire.  A line of the document may be appended only where it defines the next wire from wires already defined, and W then satisfies its
equation.  The contracts relate all this to the circuit, at every call boundary:
  P1  a gate in M is a gate of the circuit, its wire is defined, and the value of the wire is the value of the gate
  P2  every wire from the number of inputs and constants on has its line: lines = next wire - inputs - constants
  P3  inputs and constants are in M
  P4  the gates of a call are in M together
  P5  the constant wires left are enough for the calls that are not yet expanded
  P6  C holds exactly the constant wires below the next one, and they keep their values
"""
import z3
from .mir import Unsupported
from .core import *
from .circuit import *
from .maps import SMap, Base, lookup
from . import level1, loops
from .level1 import VF, IN, res, rc_of

B = z3.BoolSort()
MD = z3.Function("M.dom", Z, Z, B)
MV = z3.Function("M.val", Z, Z, Z)
MHD = z3.Function("MH.dom", Z, Z, B)
MHV = z3.Function("MH.val", Z, Z, Z)
CV = z3.Function("C.val", Z, B)
W = z3.Function("W", Z, B)
NW = z3.Function("NW", Z, Z)
LC = z3.Function("LC", Z, Z)
NC = z3.Function("NC", Z, Z)            # constants of a circuit with all calls expanded: those it lists, and NC of the module for the first gate of each call
CR = z3.Function("CR", Z, Z)
N0, CLO, CHI = z3.Ints("N0 CLO CHI")     # inputs and constants, inputs of the circuit being written; the constant wires of this circuit end at CHI
ENV = z3.Function("env", Z, Z)
OUTV = z3.Function("outv", Z, Z, Z, B)
CPOS = lambda c, x: F("c.constpos", (c, x))
START = I(-7)


# kind of a gate line: number of operands, value of the wire it defines
GATELINES = {"XOR": (2, lambda a, b: z3.Xor(W(a), W(b))), "AND": (2, lambda a, b: z3.And(W(a), W(b))), "OR": (2, lambda a, b: z3.Or(W(a), W(b))),
             "INV": (1, lambda a: z3.Not(W(a))), "EQW": (1, lambda a: W(a)), "EQ": (1, lambda a: a == 1)}


def mmap(sid):
    return SMap(Base("M", (sid,), lambda p, k: MD(p[0], k), lambda p, k: MV(p[0], k)))


def hmap(sid):
    return SMap(Base("MH", (sid,), lambda p, k: MHD(p[0], k), lambda p, k: MHV(p[0], k)))


def cmap(sid):
    return SMap(Base("C", (sid,), lambda p, k: simp(z3.And(k >= CLO, k < LC(p[0]))), lambda p, k: W(k)))


# ---------------------------------------------------------------- text

def unescape(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c != "\\":
            out.append(ord(c))
            i += 1
            continue
        d = s[i + 1]
        if d == "x":
            out.append(int(s[i + 2:i + 4], 16))
            i += 4
            continue
        m = {"n": 10, "t": 9, "r": 13, "\\": 92, '"': 34, "'": 39, "0": 0}
        if d not in m:
            raise Unsupported("escape in a string")
        out.append(m[d])
        i += 2
    return bytes(out)


def lit_(b):
    return Tok("lit:" + b.decode("latin-1"))


def num_(x):
    return Agg("Num", (x,))


def strv(ps):
    out = []
    for p in ps:
        if isinstance(p, Tok) and out and isinstance(out[-1], Tok):
            out[-1] = Tok(out[-1].name + p.name[4:])
        elif not (isinstance(p, Tok) and p.name == "lit:"):
            out.append(p)
    return Agg("Str", tuple(out))


def lines_(n):
    return Agg("Str", (Agg("Lines", (n,)),))


def pieces(v):
    if isinstance(v, Tok) and v.name.startswith("str:") and not v.a:
        return [lit_(unescape(v.name[4:]))]
    if isinstance(v, Tok) and v.name.startswith("bstr:") and not v.a:
        return [lit_(unescape(v.name[5:]))]
    if isinstance(v, Agg) and v.name == "Str":
        return list(v.f)
    if isz(v) and z3.is_int(v):
        return [num_(v)]
    if isinstance(v, Poison):
        raise Unsupported("value not described by the loop summary: " + v.why)
    raise Unsupported("text of %s" % type(v).__name__)


def lines_of(ps):
    """The complete lines at the beginning, as lists of tokens (a literal or a number), and what follows them."""
    out, cur, tok = [], [], None

    def close():
        nonlocal tok
        if tok is not None:
            cur.append(tok)
        tok = None
    rest = 0
    for i, p in enumerate(ps):
        if not isinstance(p, Tok):
            if p.name != "Num":
                break
            tok = p if tok is None else "mixed"
            continue
        s = p.name[4:]
        for n, ch in enumerate(s):
            if ch == "\n":
                close()
                out.append(cur)
                cur = []
                rest = (i, n + 1)
            elif ch in " \t\r":
                close()
            else:
                tok = ch if tok is None else tok + ch if isinstance(tok, str) and tok != "mixed" else "mixed"
    if not out:
        return [], ps
    i, n = rest
    p = Tok("lit:" + ps[i].name[4 + n:])
    return out, ([p] if p.name != "lit:" else []) + list(ps[i + 1:])


def install_text(eng, wr):
    M = eng.models

    def reg(*names):
        def d(f):
            for n in names:
                old = M.get(n)

                def g(eng, st, a, info, f=f, n=n, old=old):
                    r = f(eng, st, a, info)
                    if r is None:
                        if old is None:
                            raise Unsupported("call of " + n)
                        return old(eng, st, a, info)
                    eng.assumed.add(n)
                    return r
                M[n] = g
            return f
        return d

    def rd(eng, st, v):
        return eng.deref_read(st, v)

    def is_text(v):
        return isinstance(v, Agg) and v.name == "Str" or isinstance(v, Tok) and (v.name.startswith("str:") or v.name.startswith("bstr:")) and not v.a

    @reg("String::new", "String::with_capacity", "String::default")
    def _(eng, st, a, info):
        return [(st, strv([]))]

    @reg("ToString::to_string", "String::from", "str::to_string", "str::to_owned", "ToOwned::to_owned", "Into::into", "From::from", "Clone::clone", "Deref::deref", "DerefMut::deref_mut", "String::as_str", "String::as_bytes", "str::as_bytes",
         "AsRef::as_ref", "Borrow::borrow", "String::into_bytes", "str::as_str", "String::clone")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        if is_text(v) or (info.key == "ToString::to_string" and isz(v) and z3.is_int(v)):
            return [(st, strv(pieces(v)))]
        return None

    @reg("rt::new_display", "Argument::new_display")
    def _(eng, st, a, info):
        return [(st, Agg("FmtArg", (strv(pieces(rd(eng, st, a[0]))),)))]

    @reg("Arguments::new", "Arguments::new_v1")
    def _(eng, st, a, info):
        t = rd(eng, st, a[0])
        if not isinstance(t, Tok) or not t.name.startswith("bstr:"):
            raise Unsupported("format string")
        args = rd(eng, st, a[1])
        b, out, i, n = unescape(t.name[5:]), [], 0, 0
        while True:
            if i >= len(b):
                raise Unsupported("format string")
            c = b[i]
            if c == 0:
                break
            if c < 0x80:
                out.append(lit_(b[i + 1:i + 1 + c]))
                i += 1 + c
            elif c == 0x80:
                m = b[i + 1] + 256 * b[i + 2]
                out.append(lit_(b[i + 3:i + 3 + m]))
                i += 3 + m
            elif c == 0xc0:
                x = eng.seq_get(st, args, I(n)) if isinstance(args, Seq) else args.f[n]
                x = rd(eng, st, x)
                if not isinstance(x, Agg) or x.name != "FmtArg":
                    raise Unsupported("format arguments")
                out += list(x.f[0].f)
                n, i = n + 1, i + 1
            else:
                raise Unsupported("format specification")
        return [(st, strv(out))]

    @reg("Arguments::new_const", "Arguments::from_str", "fmt::format", "format", "must_use", "hint::must_use", "fmt::must_use", "Arguments::from_str_nonconst")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        if isinstance(v, Seq):
            v = eng.seq_get(st, v, I(0))
            v = rd(eng, st, v)
        return [(st, strv(pieces(v)))] if is_text(v) else None

    def append(eng, st, p, more):
        v = rd(eng, st, p)
        if not is_text(v):
            return None
        st = st.copy()
        st, v = wr.extend(st, strv(pieces(v) + list(more)))
        eng.ptr_write(st, p, v)
        return st

    @reg("String::push_str", "AddAssign::add_assign", "Extend::extend", "String::push")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        if not is_text(v):
            return None
        x = rd(eng, st, a[1])
        if isz(x):
            x = simp(x)
            if not z3.is_int_value(x):
                raise Unsupported("push of a variable character")
            x = Tok("str:" + chr(x.as_long())) if x.as_long() not in (10, 92) else Tok("str:\\n" if x.as_long() == 10 else "str:\\\\")
        return [(append(eng, st, a[0], pieces(x)), UNIT)]

    @reg("Add::add")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        if not is_text(v):
            return None
        st = st.copy()
        st, v = wr.extend(st, strv(pieces(v) + pieces(rd(eng, st, a[1]))))
        return [(st, v)]

    @reg("String::clear")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        if not is_text(v):
            return None
        st = st.copy()
        eng.ptr_write(st, a[0], lines_(I(0)) if pieces(v) and isinstance(pieces(v)[0], Agg) and pieces(v)[0].name == "Lines" else strv([]))
        return [(st, UNIT)]

    @reg("Write::write_all", "Write::write_fmt", "Write::write", "BufWriter::write_all")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        x = rd(eng, st, a[1])
        if isinstance(v, Agg) and v.name == "Str":          # fmt::Write for String
            return [(append(eng, st, a[0], pieces(x)), ok(UNIT))]
        if not isinstance(v, Tok) or v.name != "BufWriter":
            return None
        st = st.copy()
        st.heap["file"] = strv(list(st.heap["file"].f) + pieces(x))
        return [(st, ok(UNIT))]

    @reg("Write::flush")
    def _(eng, st, a, info):
        return [(st, ok(UNIT))]


# ---------------------------------------------------------------- the writer

class Claim(Exception):
    """A fact about the iterations so far that a loop does not preserve."""


class Wr:
    def __init__(self, crate, name, results, deadline, disabled=(), top=False):
        self.cx = cx = CCtx(crate, name, results, deadline)
        self.crate = crate
        self.eng, self.th, self.st, self.c = cx.eng, cx.th, cx.st, cx.cid
        eng, th, c, st = self.eng, self.th, self.c, self.st
        level1.install_values(cx)
        install_text(eng, self)
        self.fields = [f for f, _ in crate.structs.get("BristolNXAOWriter", ())]
        if sorted(self.fields) != ["c_ref", "gate_lines", "last_const_wire", "num_wire", "writer"]:
            raise Unsupported("fields of the writer")
        self.g, self.rel, self.callres, self.disabled = None, {}, {}, disabled
        th.maxnest = 1
        self.call = False
        unfold = th.extra["V"]
        th.extra["V"] = lambda k: list(unfold(k)) + self.module_value(k) if th.nested(k) == 0 else []
        self.nout = th.f("output_len", c)
        eng.hooks["inv"] = self
        eng.hooks["inverse"] = self.inverse
        ex = th.extra
        ex["M.dom"] = ex["M.val"] = self.assumed
        ex["MH.dom"] = ex["MH.val"] = self.result_facts
        ex["NW"] = ex["LC"] = ex["CR"] = self.counts
        ex["c.constpos"] = self.const_facts
        ex["NC"] = lambda h: [NC(h) >= 0, NC(h) < LIM]
        eng.contracts["BristolNXAOWriter::count_const"] = call_count
        k0 = th.trig["c.const_gates.at"]
        th.trig["c.const_gates.at"] = lambda c_, j: list(k0(c_, j)) + [z3.Implies(z3.And(j >= 0, j < th.f("const_gates.len", c_)), CPOS(c_, th.f("const_gates.at", c_, j)) == j)]
        th.calls()
        eng.contracts["BristolNXAOWriter::write_single_gate"] = self.call_gate
        eng.contracts["BristolNXAOWriter::write_all_gates"] = self.call_all
        th.rounds = 4
        self.top = top
        st.assume(CLO >= 0)
        if not top:
            st.assume(N0 >= CLO, N0 < LIM, CHI <= N0)
        st.heap["file"] = strv([])

    # ---- vocabulary
    def m(self, k, f):
        return F(self.th.g + ".Module." + f, (self.c, k))

    def blk(self, x):
        return z3.If(self.th.tag(self.c, x) == self.th.kind("Module"), x - self.m(x, "out_index"), x)

    def handle(self, k):
        return F("s.module_map.val.0.rc", (self.m(k, "module_id"),))

    def module_value(self, k):
        th = self.th
        return [z3.Implies(z3.And(th.known(self.c, k), th.tag(self.c, k) == th.kind("Module")),
                           VF(k) == OUTV(self.handle(k), self.m(k, "out_index"), ENV(k - self.m(k, "out_index"))))]

    def in_call(self, x, y):
        b = x - self.m(x, "out_index")
        return z3.And(self.th.tag(self.c, x) == self.th.kind("Module"), y >= b, y < b + self.m(x, "output_len"))

    def defined(self, v, lc, nw):
        return z3.Or(z3.And(v >= 0, v < lc), z3.And(v >= N0, v < nw))

    def nconst(self, h):
        return NC(h)

    def is_call(self, x):
        return z3.And(self.th.known(self.c, x), self.th.tag(self.c, x) == self.th.kind("Module"))

    # ---- facts
    def P(self, x, d, v, lc, nw):
        th, c = self.th, self.c
        t = th.tag(c, x)
        return [("gates with a wire are gates of the circuit", z3.Implies(d, th.known(c, x))),
                ("wires of gates are defined", z3.Implies(d, self.defined(v, lc, nw))),
                ("wires of gates have the values of the gates", z3.Implies(d, W(v) == VF(x))),
                ("inputs and constants have wires", z3.Implies(z3.And(th.known(c, x), z3.Or(t == th.kind("Input"), t == th.kind("Const"))), d))]

    def assumed(self, s, x):
        th, c = self.th, self.c
        if s.eq(START):
            d = MD(s, x)
            return [d == z3.And(th.known(c, x), th.tag(c, x) == th.kind("Input")), z3.Implies(d, z3.And(self.defined(MV(s, x), LC(s), NW(s)), W(MV(s, x)) == VF(x)))]
        out = [f for _, f in self.P(x, MD(s, x), MV(s, x), LC(s), NW(s))]
        if simple(x):
            b = x - self.m(x, "out_index")
            out.append(z3.Implies(self.is_call(x), z3.And(MD(s, x) == MD(s, b), z3.Implies(z3.Not(MD(s, x)), CR(s) >= self.nconst(self.handle(x))))))
            out += th.block(c, x, b)
            if self.call:
                out += th.block(c, self.g, x) + th.block(c, self.g, b)
        r = self.related(s)
        if r is not None:
            s0, bound = r
            out.append(z3.Implies(MD(s0, x), MD(s, x)))
            if bound is not None:
                out.append(z3.Implies(MD(s, x), z3.Or(MD(s0, x), self.blk(x) <= bound)))
            nm = s.decl().name()
            if nm.startswith("S!") and z3.is_app(x):
                k = s.arg(s.num_args() - 1)
                lv = self.eng.loopnames[nm[2:]]
                if x.decl().name() == th.g + ".Module.input_ids.at" and self.g is not None and (lv, "args") not in self.disabled:
                    out.append(z3.Implies(z3.And(x.arg(1) == self.g, x.arg(2) >= 0, x.arg(2) < k), MD(s, x)))
                if x.decl().name() == "c.output_map.val" and self.g is None and s.num_args() == 1 and (lv, "outs") not in self.disabled:
                    out.append(z3.Implies(z3.And(x.arg(0) == c, x.arg(1) >= 0, x.arg(1) < k), MD(s, x)))
        return out

    def related(self, s):
        nm = s.decl().name() if z3.is_app(s) else ""
        h = self.rel.get(nm)
        if h is None:
            return None
        ps, s0, bound = h
        sub = list(zip(ps, s.children()))
        return tuple(z3.substitute(e, *sub) if sub and e is not None else e for e in (s0, bound))

    def result_facts(self, s, x):
        """After write_all_gates: the outputs of that circuit have wires with their values."""
        r = self.callres.get(s.decl().name() if z3.is_app(s) else "")
        if r is None or not z3.is_app(x) or x.decl().name() != "c.output_map.val":
            return []
        ps, h, env = r
        sub = list(zip(ps, s.children()))
        if sub:
            h = z3.substitute(h, *sub)
            env = None if env is None else z3.substitute(env, *sub)
        i = x.arg(1)
        val = VF(x) if env is None else OUTV(h, i, env)
        return [z3.Implies(z3.And(x.arg(0) == h, i >= 0, i < self.th.f("output_len", h)), z3.And(MHD(s, x), self.defined(MHV(s, x), LC(s), NW(s)), W(MHV(s, x)) == val))]

    def counts(self, s):
        out = [NW(s) >= N0, NW(s) < LIM, LC(s) >= CLO, LC(s) + CR(s) <= CHI, CR(s) >= 0]
        r = self.related(s)
        if r is not None:
            out += [NW(s) >= NW(r[0]), LC(s) >= LC(r[0])]
        if self.call:
            out += list(self.th.instance(self.assumed, [s, self.g]))
        return out

    def const_facts(self, c, x):
        th = self.th
        p = CPOS(c, x)
        return [z3.Implies(z3.And(th.known(c, x), th.tag(c, x) == th.kind("Const")), z3.And(p >= 0, p < th.f("const_gates.len", c), th.f("const_gates.at", c, p) == x))]

    # ---- document
    def extend(self, st, v):
        """Complete lines at the end of the document are checked and counted."""
        f = v.f
        if not f or not isinstance(f[0], Agg) or f[0].name != "Lines":
            return st, v
        ls, rest = lines_of(f[1:])
        if not ls:
            return st, v
        L = f[0].f[0]
        eng = self.eng
        for t in ls:
            if not t:
                continue
            if any(x == "mixed" for x in t):
                raise Unsupported("text of a gate line")
            val = lambda x: x.f[0] if isinstance(x, Agg) else I(int(x)) if x.isdigit() else None
            nin, nout = val(t[0]), val(t[1]) if len(t) > 1 else None
            op = t[-1] if isinstance(t[-1], str) else None
            good, sem = GATELINES.get(op, (None, None))
            args = [val(x) for x in t[2:-1]]
            if good is None or len(args) != good + 1 or nin is None or nout is None or any(x is None for x in args):
                eng.oblige(st, FALSE, "gate lines have the operands of their operation")
                raise Unsupported("a gate line")
            eng.oblige(st, z3.And(nin == good, nout == 1), "gate lines state the numbers of their operands and outputs")
            out, args = args[-1], args[:-1]
            eng.oblige(st, out == N0 + L, "each line defines the next wire")
            if op == "EQ":
                eng.oblige(st, z3.Or(args[0] == 0, args[0] == 1), "a constant is 0 or 1")
            else:
                for x in args:
                    eng.oblige(st, z3.Or(z3.And(x >= 0, x < self.inputs_defined(st)), z3.And(x >= N0, x < N0 + L)), "operands of a line are wires already defined")
            e = sem(*args)
            st.assume(W(out) == e)
            L = simp(L + 1)
        return st, strv([Agg("Lines", (L,))] + rest)

    def inputs_defined(self, st):
        lc = self.self_(st)["last_const_wire"]
        return lc if isz(lc) else CLO

    # ---- state
    def self_(self, st):
        v = st.cells[("arg", "self")]
        return dict(zip(self.fields, v.f))

    def writer(self, c_ref, nw, lc, doc):
        d = {"c_ref": c_ref, "num_wire": nw, "last_const_wire": lc, "writer": Tok("BufWriter"), "gate_lines": doc}
        return Agg("BristolNXAOWriter", tuple(d[f] for f in self.fields))

    def put(self, st, **kw):
        d = self.self_(st)
        d.update(kw)
        st.cells[("arg", "self")] = Agg("BristolNXAOWriter", tuple(d[f] for f in self.fields))

    def ghost(self, st):
        return st.heap["ghost"]

    def map_(self, v):
        if not isinstance(v, SMap):
            raise Unsupported("the maps of the writer: " + (v.why if isinstance(v, Poison) else type(v).__name__))
        return v

    def doc(self, st):
        v = self.self_(st)["gate_lines"]
        if not isinstance(v, Agg) or v.name != "Str" or len(v.f) != 1 or not isinstance(v.f[0], Agg) or v.f[0].name != "Lines":
            raise Unsupported("a part of a gate line between two steps" if isinstance(v, Agg) else "the gate lines")
        return v.f[0].f[0]

    def numbers(self, st):
        d = self.self_(st)
        nw, lc = d["num_wire"], d["last_const_wire"]
        for x in (nw, lc):
            if not isz(x):
                raise Unsupported("the counters of the writer: " + (x.why if isinstance(x, Poison) else type(x).__name__))
        return nw, lc

    def frame(self, st, c, what, prev):
        """P2 and P6: the document and the constants."""
        eng = self.eng
        nw, lc = self.numbers(st)
        eng.oblige(st.copy(), self.doc(st) == nw - N0, what + ": as many lines as wires they define")
        eng.oblige(st.copy(), z3.And(nw >= N0, lc >= CLO), what + ": wires are numbered after inputs and constants")
        s = st.copy()
        w = eng.const("w")
        s.assume(w >= 0, w < 2 ** 64)
        d, v = lookup(eng, s, c, w)
        eng.oblige(s.copy(), d == z3.And(w >= CLO, w < lc), what + ": the constants of the constant wires in use are kept")
        if v is not None and prev is not None:
            s.assume(w >= CLO, w < prev)
            eng.oblige(s, v == W(w), what + ": constants keep their values")

    def holds(self, st, m, c, what, mark=None, prev=None):
        """P1 .. P6 at arbitrary gates and wires."""
        eng, th = self.eng, self.th
        if not eng.record:
            return
        gh = self.ghost(st)
        nw, lc = self.numbers(st)
        self.frame(st, c, what, LC(gh) if prev is None else prev)
        cr = CR(gh)
        s = st.copy()
        if mark is not None and self.call:
            cr = cr - self.nconst(self.handle(mark))
        eng.oblige(s.copy(), lc + cr <= CHI, what + ": the constant wires suffice for the calls left")
        x = eng.const("x")
        s.assume(x >= 0, x < 2 ** 64)
        b = x - self.m(x, "out_index")
        s.assume(*th.block(self.c, x, b))
        d, v = lookup(eng, s, m, x)
        if v is None:
            v = I(-1)
        if not isz(v):
            raise Unsupported("values of the writer's map")
        dc, vc = lookup(eng, s, c, v)
        if vc is not None:
            s.assume(z3.Implies(z3.And(dc, v >= LC(gh), v < lc), W(v) == vc))       # W of a constant wire is what C holds
        for nm, f in self.P(x, d, v, lc, nw):
            eng.oblige(s.copy(), f, what + ": " + nm)
        s.assume(self.is_call(x))
        if eng.feasible(s, TRUE):
            d2, _ = lookup(eng, s, m, b)
            eng.oblige(s, d == d2, what + ": the gates of a call get their wires together")

    def same_as(self, m, sid):
        return not m.log and m.base.name == "M" and vsame(m.base.params[0], sid)

    def advance(self, st, pm, pc, sid):
        eng = self.eng
        st.heap["ghost"] = sid
        self.put(st, num_wire=NW(sid), last_const_wire=LC(sid), gate_lines=lines_(NW(sid) - N0))
        eng.ptr_write(st, pc, cmap(sid))

    # ---- the contract of write_single_gate, as a caller sees it
    def call_gate(self, eng, st, a, info):
        this, g, gate, pm, pc = a
        th = self.th
        if not isinstance(this, Ptr) or this.cell != ("arg", "self"):
            raise Unsupported("another writer")
        g = eng.deref_read(st, g)
        gate = eng.deref_read(st, gate)
        st = st.copy()
        if not vsame(rc_of(self.self_(st)["c_ref"]), rc_of(self.cx.ref)):
            raise Unsupported("writing a gate of another circuit")
        eng.oblige(st, th.known(self.c, g), "the gate to be written is a known gate")
        s = st.copy()
        want = lookup(eng, s, self.cx.fld(self.cx.pre, "gate_map"), g)[1]
        if not vsame(gate, want):
            eng.oblige(s, z3.BoolVal(bool(loops.vequal(eng, s, gate, want))), "the gate to be written is the one with that identifier")
        if eng.proved(st, th.tag(self.c, g) == th.kind("Input")):
            # an input is only given a wire: the body is used instead of a contract
            f = eng.contracts.pop("BristolNXAOWriter::write_single_gate")
            try:
                return eng.call_fn(fn_of(self.crate, "write_single_gate"), list(a), st)
            finally:
                eng.contracts["BristolNXAOWriter::write_single_gate"] = f
        if "ghost" not in st.heap:
            raise Unsupported("writing a gate before its inputs have wires")
        m, c = self.map_(eng.deref_read(st, pm)), self.map_(eng.deref_read(st, pc))
        d, _ = lookup(eng, st, m, g)
        eng.oblige(st, z3.Not(d), "a gate that has a wire is not written again")
        if self.g is not None:
            eng.oblige(st, z3.And(g >= 0, g < self.g), "recursion on an earlier gate")
            eng.oblige(st, self.blk(g) < self.blk(self.g), "recursion on an earlier call")
        self.holds(st, m, c, "before writing an operand" if self.g is not None else "before writing a gate")
        s0 = self.ghost(st)
        sid = eng.fresh(st, "sid")
        self.rel[sid.decl().name()] = (tuple(st.ctx), s0, self.blk(g) if self.same_as(m, s0) else None)
        if not self.same_as(m, s0):
            x = eng.const("x")
            s = st.copy()
            s.assume(MD(s0, x))
            d, _ = lookup(eng, s, m, x)
            eng.oblige(s, d, "before writing a gate: gates keep their wires")
        nw, lc = self.numbers(st)
        eng.oblige(st.copy(), z3.And(nw >= NW(s0), lc >= LC(s0)), "before writing a gate: wires are only added")
        self.advance(st, pm, pc, sid)
        eng.ptr_write(st, pm, mmap(sid))
        st.assume(MD(sid, g))
        return [(st, ok(UNIT))]

    # ---- the contract of write_all_gates
    def call_all(self, eng, st, a, info):
        this, pm, pc = a
        th = self.th
        if not isinstance(this, Ptr) or this.cell != ("arg", "self"):
            raise Unsupported("another writer")
        st = st.copy()
        h = rc_of(self.self_(st)["c_ref"]).f[0]
        own = vsame(h, self.c)
        if own and self.g is not None:
            raise Unsupported("a circuit that calls itself")
        m, c = self.map_(eng.deref_read(st, pm)), self.map_(eng.deref_read(st, pc))
        nw, lc = self.numbers(st)
        what = "before writing the gates"
        gh = st.heap.get("ghost")
        if own and self.top and "numbered" not in st.heap:
            # the numbering of the file is fixed here: inputs, constants, then the wires of the lines
            eng.oblige(st.copy(), z3.And(nw >= CLO, nw < LIM), what + ": wires are numbered after inputs and constants")
            eng.oblige(st.copy(), self.doc(st) == 0, what + ": no line is written yet")
            eng.oblige(st.copy(), lc + NC(h) <= nw, what + ": the constant wires suffice")
            st.assume(N0 == nw, CHI == nw)
            st.heap["numbered"] = TRUE
        self.frame(st, c, what, CLO if gh is None else LC(gh))
        if not own:
            eng.oblige(st.copy(), h == self.handle(self.g), "the circuit expanded is the one registered for the call")
            what = "before expanding a call"
        eng.oblige(st.copy(), lc + self.nconst(h) <= CHI, what + ": the constant wires suffice")
        x, i = eng.const("x"), eng.const("i")
        s = st.copy()
        s.assume(x >= 0, x < 2 ** 64)
        d, _ = lookup(eng, s, m, x)
        s.assume(d)
        if eng.feasible(s, TRUE):
            eng.oblige(s, z3.And(th.known(h, x), th.tag(h, x) == th.kind("Input")), what + ": only the inputs have wires")
        s = st.copy()
        s.assume(i >= 0, i < th.f("input_len", h))
        if eng.feasible(s, TRUE):
            d, v = lookup(eng, s, m, th.f("input_map.val.Some", h, i))
            eng.oblige(s.copy(), d, what + ": every input has a wire")
            if v is not None:
                s.assume(d)
                s.assume(*[q.at(i) for q in s.q])
                eng.oblige(s.copy(), self.defined(v, lc, nw), what + ": the wires of the inputs are defined")
                val = IN(i) if own else VF(F(th.g + ".Module.input_ids.at", (self.c, self.g, i)))
                eng.oblige(s, W(v) == val, what + ": the wires of the inputs have the values of the " + ("inputs" if own else "arguments"))
        sid = eng.fresh(st, "sid")
        if gh is not None:
            self.rel[sid.decl().name()] = (tuple(st.ctx), gh, None)
            st.assume(NW(sid) >= NW(gh), LC(sid) >= LC(gh))
        env = None if own else ENV(self.g - self.m(self.g, "out_index"))
        self.callres[sid.decl().name()] = (tuple(st.ctx), h, env)
        st.assume(NW(sid) >= nw, LC(sid) >= lc, LC(sid) <= lc + self.nconst(h))
        if own:
            st.heap["ghost"] = sid
        else:
            # the gates of the calling circuit keep their wires: its map is not touched
            self.rel.pop(sid.decl().name(), None)
        self.put(st, num_wire=NW(sid), last_const_wire=LC(sid), gate_lines=lines_(NW(sid) - N0))
        eng.ptr_write(st, pc, cmap(sid))
        eng.ptr_write(st, pm, hmap(sid))
        return [(st, ok(UNIT))]

    # ---- loops that call them
    def owns(self, path, v0, bs):
        if path == (("h", "ghost"),):
            return "ghost"
        for b in bs:
            if isinstance(b, SMap) and b.base.name in ("M", "C") and not (isinstance(v0, SMap) and v0.base.same(b.base)):
                return b.base.name
            if isz(b) and isz(v0) and z3.is_int(b) and path[0] == ("c", ("arg", "self")):
                n = self.fields[path[1][1]]
                if has_fn(b, ("NW", "LC")) and not b.eq(v0) and path[1][0] == "f" and {x for x in sids(b)} - {x for x in sids(v0)}:
                    return n
        return None

    def value(self, eng, f, k):
        ctx = eng.invctx
        name = "S!" + f.names.decl().name()
        s = z3.Function(name, *([Z] * (len(ctx) + 2)))(*ctx, k)
        if f.x == "ghost":
            self.rel[name] = (tuple(ctx) + (f.names,), f.v0, None if self.g is None else self.blk(self.g) - 1)
        return {"ghost": lambda: s, "M": lambda: mmap(s), "C": lambda: cmap(s), "num_wire": lambda: NW(s), "last_const_wire": lambda: LC(s), "gate_lines": lambda: NW(s) - N0}[f.x]()

    def check(self, eng, st0, forms, k, backs, name):
        at = {f.x: p for p, f in forms.items() if f.kind == "inv"}
        if len(at) != sum(f.kind == "inv" for f in forms.values()) or not {"ghost", "M", "C"} <= set(at):
            raise Unsupported("loop over the writer's maps")
        lv = name
        for st, what in [(st0, "on entry of the loop")] + [(b, "after an iteration of the loop") for b in backs]:
            v = {x: loops.getp(loops.root(st, p[0]), p[1:]) for x, p in at.items()}
            self.holds(st, self.map_(v["M"]), self.map_(v["C"]), what)
            s0, s1 = self.ghost(st0), v["ghost"]
            x, j = eng.const("x"), eng.const("j")
            m = self.map_(v["M"])
            s = st.copy()
            s.assume(MD(s0, x))
            d, _ = lookup(eng, s, m, x)
            eng.oblige(s, d, what + ": gates keep their wires")
            nw, lc = self.numbers(st)
            eng.oblige(st.copy(), z3.And(nw >= NW(s0), lc >= LC(s0)), what + ": wires are only added")
            if self.g is not None:
                s = st.copy()
                d, _ = lookup(eng, s, m, x)
                s.assume(d)
                eng.oblige(s, z3.Or(MD(s0, x), self.blk(x) < self.blk(self.g)), what + ": only earlier gates are written")
            if st is st0:
                continue
            for cl, t in (("args", None if self.g is None else F(self.th.g + ".Module.input_ids.at", (self.c, self.g, j))),
                          ("outs", self.th.f("output_map.val", self.c, j) if self.g is None else None)):
                if t is None or (lv, cl) in self.disabled or (cl == "outs" and st0.ctx):
                    continue
                s = st.copy()
                s.assume(j >= 0, j <= k, j < (self.m(self.g, "input_ids.len") if cl == "args" else self.nout))
                d, _ = lookup(eng, s, m, t)
                if not eng.proved(s, d):
                    raise Claim((lv, cl))
                eng.oblige(s, d, what + ": the %s so far have wires" % {"args": "arguments", "outs": "outputs"}[cl])

    def inverse(self, k, key):
        if z3.is_app(key) and key.num_args() == 2 and key.arg(1).eq(k):
            c = key.arg(0)
            if key.decl().name() == "c.input_map.val.Some":
                return lambda x: F(self.th.g + ".Input.wire_id", (c, x))
            if key.decl().name() == "c.const_gates.at":
                return lambda x: CPOS(c, x)
        return None


def sids(t):
    out, work = set(), [t]
    while work:
        y = work.pop()
        if z3.is_app(y):
            if y.decl().name() in ("NW", "LC"):
                out.add(y.arg(0).sexpr())
            work.extend(y.children())
    return out


def has_fn(t, names):
    work = [t]
    while work:
        y = work.pop()
        if z3.is_app(y):
            if y.decl().name() in names:
                return True
            work.extend(y.children())
    return False


def simple(x):
    """x is not itself the first gate of a call"""
    return not has_fn(x, ("c.gate_map.val.Module.out_index",))


def fn_of(crate, name):
    f = crate.inherent.get(("BristolNXAOWriter", name))
    if f is None:
        raise Unsupported("BristolNXAOWriter::" + name)
    return f


def same_circuit(wr, s):
    if not vsame(s.heap[-1], wr.cx.pre) or not vsame(s.heap[-2], wr.st.heap[-2]):
        raise Unsupported("the writer changes the circuit")
    wr.eng.oblige(s, TRUE, "writing does not change the circuit")
    level1.unlocked(wr.cx, s)
    if s.heap["file"].f != wr.st.heap["file"].f:
        raise Unsupported("something is written to the file before the header")
    wr.eng.oblige(s, z3.BoolVal(bool(vsame(rc_of(wr.self_(s)["c_ref"]), rc_of(wr.cx.ref)))), "the writer is left at its circuit")


def retry(f):
    """Runs the task, without the claims about loops that turn out not to hold."""
    def run(crate, results, deadline):
        off = set()
        while True:
            out = []
            try:
                f(crate, out, deadline, off)
            except Claim as e:
                if e.args[0] in off:
                    raise Unsupported("a loop of the writer")
                off.add(e.args[0])
                continue
            finally:
                pass
            results.extend(out)
            return
    return run


def single_gate(kind):
    def run(crate, results, deadline, off):
        wr = Wr(crate, "write_single_gate (%s)" % kind, results, deadline, off)
        eng, th, st = wr.eng, wr.th, wr.st
        g, s0 = z3.Int("g"), z3.Int("sid0")
        wr.g, wr.call = g, kind == "Module"
        st.assume(th.known(wr.c, g), th.tag(wr.c, g) == th.kind(kind), z3.Not(MD(s0, g)))
        st.heap["ghost"] = s0
        st.cells[("arg", "self")] = wr.writer(wr.cx.ref, NW(s0), LC(s0), lines_(NW(s0) - N0))
        pm, pc = Ptr(("arg", "M"), ()), Ptr(("arg", "C"), ())
        st.cells[("arg", "M")], st.cells[("arg", "C")] = mmap(s0), cmap(s0)
        gate = lookup(eng, st, wr.cx.fld(wr.cx.pre, "gate_map"), g)[1]
        try:
            outs = eng.call_fn(fn_of(crate, "write_single_gate"), [Ptr(("arg", "self"), ()), g, gate, pm, pc], st)
            if not any(eng.feasible(s, TRUE) for s, _ in outs):
                raise Unsupported("no path is possible (contradictory assumptions)")
            for s, v in outs:
                s = s.copy()
                eng.oblige(s, res(wr.cx, s, v) == 0, "writing a gate succeeds")
                m, c = wr.map_(eng.deref_read(s, pm)), wr.map_(eng.deref_read(s, pc))
                d, _ = lookup(eng, s, m, g)
                eng.oblige(s.copy(), d, "the gate has a wire afterwards")
                nw, lc = wr.numbers(s)
                wr.holds(s, m, c, "afterwards", mark=g)
                eng.oblige(s.copy(), z3.And(nw >= NW(s0), lc >= LC(s0)), "wires are only added")
                x = eng.const("x")
                s2 = s.copy()
                s2.assume(*th.block(wr.c, g, x))
                d, _ = lookup(eng, s2, m, x)
                s3 = s2.copy()
                s3.assume(d)
                eng.oblige(s3, z3.Or(MD(s0, x), wr.blk(x) <= wr.blk(g)), "only gates up to this one are written")
                s2.assume(MD(s0, x))
                eng.oblige(s2, d, "gates keep their wires")
                same_circuit(wr, s)
        finally:
            wr.cx.done()
    return retry(run)


def all_gates(crate, results, deadline, off):
    wr = Wr(crate, "write_all_gates", results, deadline, off)
    eng, th, st, c = wr.eng, wr.th, wr.st, wr.c
    st.heap["ghost"] = START
    # the definition of NC, and CR where no call is expanded
    st.assume(CHI == LC(START) + NC(c), CR(START) <= NC(c) - th.f("const_gates.len", c))
    st.cells[("arg", "self")] = wr.writer(wr.cx.ref, NW(START), LC(START), lines_(NW(START) - N0))
    pm, pc = Ptr(("arg", "M"), ()), Ptr(("arg", "C"), ())
    st.cells[("arg", "M")], st.cells[("arg", "C")] = mmap(START), cmap(START)
    try:
        outs = eng.call_fn(fn_of(crate, "write_all_gates"), [Ptr(("arg", "self"), ()), pm, pc], st)
        if not any(eng.feasible(s, TRUE) for s, _ in outs):
            raise Unsupported("no path is possible (contradictory assumptions)")
        for s, v in outs:
            s = s.copy()
            eng.oblige(s, res(wr.cx, s, v) == 0, "writing the gates succeeds")
            m, cs = wr.map_(eng.deref_read(s, pm)), wr.map_(eng.deref_read(s, pc))
            nw, lc = wr.numbers(s)
            wr.frame(s, cs, "afterwards", LC(START))
            eng.oblige(s.copy(), z3.And(nw >= NW(START), lc >= LC(START)), "wires are only added")
            eng.oblige(s.copy(), lc <= CHI, "at most as many constant wires are used as the circuit has constants, those of its calls included")
            i = eng.const("i")
            s2 = s.copy()
            s2.assume(i >= 0, i < wr.nout)
            if eng.feasible(s2, TRUE):
                s2.assume(*[q.at(i) for q in s2.q])
                d, w = lookup(eng, s2, m, th.f("output_map.val", c, i))
                eng.oblige(s2.copy(), d, "every output has a wire")
                s2.assume(d)
                if not isz(w):
                    raise Unsupported("wire of an output")
                eng.oblige(s2.copy(), wr.defined(w, lc, nw), "the wires of the outputs are defined")
                eng.oblige(s2, W(w) == VF(th.f("output_map.val", c, i)), "the wires of the outputs have their values")
            same_circuit(wr, s)
    finally:
        wr.cx.done()


def write(some_map):
    def run(crate, results, deadline, off):
        wr = Wr(crate, "write (%s)" % ("with an empty map" if some_map else "without a map"), results, deadline, off, True)
        eng, th, st, c = wr.eng, wr.th, wr.st, wr.c
        nin, nout = th.f("input_len", c), wr.nout
        st.assume(CLO == nin, nin + NC(c) < LIM, nin + th.f("num_const", c) < LIM)
        th.extra["W"] = lambda w: [z3.Implies(z3.And(w >= 0, w < CLO), W(w) == IN(w))]
        first, nw0, lc0, l0 = z3.Ints("first nw0 lc0 l0")
        st.assume(first >= 0, first <= nin + NC(c), nw0 >= 0, nw0 < LIM, lc0 >= 0, lc0 < LIM, l0 >= 0, l0 < LIM)
        # nothing is known of what an earlier call left behind
        st.cells[("arg", "self")] = wr.writer(wr.cx.ref, nw0, lc0, lines_(l0))
        st.cells[("arg", "M")] = SMap()
        opt = some(Ptr(("arg", "M"), ())) if some_map else none()
        try:
            outs = eng.call_fn(fn_of(crate, "write"), [Ptr(("arg", "self"), ()), first, opt], st)
            if not any(eng.feasible(s, TRUE) for s, _ in outs):
                raise Unsupported("no path is possible (contradictory assumptions)")
            for s, v in outs:
                s = s.copy()
                eng.oblige(s.copy(), res(wr.cx, s, v) == 0, "writing a circuit succeeds")
                nw, lc = wr.numbers(s)
                if not isinstance(v, Enum) or 0 not in v.pay:
                    continue
                eng.oblige(s.copy(), z3.BoolVal("numbered" in s.heap), "the gates are written")
                if "numbered" not in s.heap:
                    continue
                # the header
                ls, rest = lines_of(s.heap["file"].f)
                if not rest or isinstance(rest[0], Tok) or rest[0].name != "Lines":
                    raise Unsupported("the layout of the file")
                L = rest[0].f[0]
                head = [t for t in ls if t]
                good = len(head) == 3 and ls[:3] == head and len(ls) >= 4 and len(rest) == 1
                eng.oblige(s.copy(), z3.BoolVal(good), "the file has three header lines, an empty line and the gate lines")
                if not good:
                    continue
                val = lambda x: x.f[0] if isinstance(x, Agg) else I(int(x)) if x.isdigit() else None
                head = [[val(x) for x in t] for t in head]
                good = [len(t) for t in head] == [2, 3, 2] and all(x is not None for t in head for x in t)
                eng.oblige(s.copy(), z3.BoolVal(good), "the header consists of numbers of gates and wires, two groups of inputs and one of outputs")
                if not good:
                    continue
                (ng, nwires), (two, n1, n2), (one, no) = head
                eng.oblige(s.copy(), z3.And(ng == L, nwires == N0 + L), "the header states the actual numbers of gate lines and wires")
                eng.oblige(s.copy(), z3.And(two == 2, n1 == first, n2 == N0 - first), "the input groups have the requested size and the rest")
                eng.oblige(s.copy(), z3.And(one == 1, no == nout), "the header states the number of outputs")
                eng.oblige(s.copy(), L >= nout, "the outputs fit on the last wires")
                i = eng.const("i")
                s2 = s.copy()
                s2.assume(i >= 0, i < nout)
                if eng.feasible(s2, TRUE):
                    s2.assume(*[q.at(i) for q in s2.q])
                    eng.oblige(s2, W(N0 + L - nout + i) == VF(th.f("output_map.val", c, i)), "the last wires have the values of the outputs in order")
                # the constants
                bits = v.pay[0][0]
                if not isinstance(bits, Seq):
                    raise Unsupported("the constants returned")
                n, m = N0 - nin, th.f("num_const", c)
                eng.oblige(s.copy(), z3.Or(n == NC(c), z3.And(n == m, m >= NC(c))), "as many constant wires as the circuit has constants, those of its calls included")
                eng.oblige(s.copy(), bits.len() == n, "one value for each constant")
                s2 = s.copy()
                s2.assume(i >= 0, i < n, nin + i < LC(wr.ghost(s)))
                if eng.feasible(s2, TRUE):
                    s2.assume(*[q.at(i) for q in s2.q])
                    eng.oblige(s2, eng.seq_get(s2, bits, i) == W(nin + i), "the values returned are those of the constant wires")
                if not vsame(s.heap[-1], wr.cx.pre) or not vsame(s.heap[-2], wr.st.heap[-2]):
                    raise Unsupported("the writer changes the circuit")
                level1.unlocked(wr.cx, s)
                eng.oblige(s, z3.BoolVal(bool(vsame(rc_of(wr.self_(s)["c_ref"]), rc_of(wr.cx.ref)))), "the writer is left at its circuit")
        finally:
            wr.cx.done()
    return retry(run)


def call_count(eng, st, a, info):
    """count_const: the number of constants with all calls expanded."""
    v = rc_of(eng.deref_read(st, a[0]))
    if not isinstance(v, Agg) or not isz(v.f[0]):
        raise Unsupported("a circuit")
    return [(st, ok(NC(v.f[0])))]


def sums_in(eng, e):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in eng.mapsums:
            out.append(x)
        todo += x.children()
    return out


def count_const(crate, results, deadline):
    """NC(c) is the number of constants listed and the sum of NC(module) over the first gates of the calls; the function computes it."""
    cx = CCtx(crate, "count_const", results, deadline)
    eng, th, st, c = cx.eng, cx.th, cx.st, cx.cid
    th.calls()
    th.extra["NC"] = lambda h: [NC(h) >= 0, NC(h) < LIM]
    fn = fn_of(crate, "count_const")
    eng.contracts["BristolNXAOWriter::count_const"] = call_count
    st.cells[("arg", "c")] = cx.ref
    st.assume(NC(c) >= 0, NC(c) < LIM)
    n0, idx = th.f("const_gates.len", c), th.idx(c)

    def of_call(t):
        head = z3.And(th.known(c, t), th.tag(c, t) == th.kind("Module"), F(th.g + ".Module.out_index", (c, t)) == 0)
        return z3.If(head, NC(F("s.module_map.val.0.rc", (F(th.g + ".Module.module_id", (c, t)),))), 0)

    def summand(nm, t, ps):
        _, e, ctx, _ = eng.mapsums[nm]
        return z3.substitute(e, (z3.Int("t!sum"), t), *zip(ctx, ps))
    # NC(c) is at least what the gates so far contribute (task "sums"), and machine arithmetic suffices for NC(c)
    same = {}

    def part(nm):
        def f(*a):
            if nm not in same:
                same[nm] = False
                s = st.copy()
                t = eng.const("t")
                s.assume(t >= 0, t < idx)
                same[nm] = eng.proved(s, summand(nm, t, a[:-1]) == of_call(t))
            T, sm = a[-1], z3.Function(nm, *([Z] * (len(a) + 1)))(*a)
            return [z3.Implies(z3.And(T >= 0, T < idx), z3.And(sm >= 0, n0 + sm + of_call(T) <= NC(c))), z3.Implies(T == idx, n0 + sm == NC(c))] if same[nm] else []
        return f
    for i in range(4):
        th.extra["lemma:Sum!%d" % i] = part("Sum!%d" % i)
    try:
        outs = eng.call_fn(fn, [Ptr(("arg", "c"), ())], st)
        if not any(eng.feasible(s, TRUE) for s, _ in outs):
            raise Unsupported("no path is possible (contradictory assumptions)")
        for s, v in outs:
            s = s.copy()
            eng.oblige(s.copy(), res(cx, s, v) == 0, "the constants can be counted")
            if not vsame(s.heap[-1], cx.pre) or not vsame(s.heap[-2], cx.st.heap[-2]):
                raise Unsupported("counting changes the circuit")
            level1.unlocked(cx, s)
            if not isinstance(v, Enum) or 0 not in v.pay:
                continue
            n = v.pay[0][0]
            if not isz(n):
                raise Unsupported("the number of constants")
            t = eng.const("t")
            found = sums_in(eng, n)
            if len(found) > 1:
                raise Unsupported("several sums of constants")
            sm = z3.Int("S!all")         # another value, if nothing is summed
            if found:
                sm = found[0]
                eng.oblige(s.copy(), sm.children()[-1] == idx, "all gates are looked at")
                s2 = s.copy()
                s2.assume(t >= 0, t < idx)
                eng.oblige(s2, summand(sm.decl().name(), t, sm.children()[:-1]) == of_call(t), "the constants of a module are counted once for each call")
            eng.oblige(s.copy(), n == n0 + sm, "the constants of the circuit and those of its calls are counted")
    finally:
        cx.done()


def constants(op):
    """INV of constants, preserved by every operation: the list holds each constant gate once, and a call has one first gate."""
    def run(crate, results, deadline):
        cx = CCtx(crate, "constants: " + op, results, deadline)
        eng, th, st, c = cx.eng, cx.th, cx.st, cx.cid
        n0 = th.f("const_gates.len", c)
        k0 = th.trig["c.const_gates.at"]
        th.trig["c.const_gates.at"] = lambda c_, j: list(k0(c_, j)) + [z3.Implies(z3.And(j >= 0, j < th.f("const_gates.len", c_)), CPOS(c_, th.f("const_gates.at", c_, j)) == j)]

        def pos(c_, x):
            p = CPOS(c_, x)
            return [z3.Implies(z3.And(th.known(c_, x), th.tag(c_, x) == th.kind("Const")), z3.And(p >= 0, p < th.f("const_gates.len", c_), th.f("const_gates.at", c_, p) == x))]
        th.extra["c.constpos"] = pos
        h = None
        try:
            if op == "new":
                fn = crate.inherent.get(("NXAOBoolCircuit", "new"))
                if fn is None:
                    raise Unsupported("NXAOBoolCircuit::new")
                for s, v in eng.call_fn(fn, [cx.reg], st):
                    eng.oblige(s.copy(), z3.And(cx.fld(v, "const_gates").len() == 0, cx.fld(v, "gate_index") == 0), "a new circuit has no constants and no gates")
                return
            if op == "module":
                th.calls()
                m, n, j = cx.key("m", st), z3.Int("nargs"), eng.jvar()
                st.assume(n >= 0, n < LIM, m < z3.Int("s.num_module"))
                ARG = z3.Function("arg", Z, Z)
                th.trig["arg"] = lambda i: [z3.Implies(z3.And(i >= 0, i < n), z3.And(ARG(i) >= 0, ARG(i) < th.idx(c)))]
                args = [m, Seq([Seg(n, j, ARG(j))])]
                (_, v0), = cx.obs(st, cx.pre, "get_module", [m])
                h = rc_of(v0.pay[0][0]).f[0]
            elif op == "output":
                args = [cx.key("a", st)]
            else:
                ar, _ = level1.OPS[op]
                args = [z3.Bool("value")] if ar == "b" else [z3.Int(n) for n in ("a", "b")[:ar]]
                if ar != "b":
                    for a in args:
                        st.assume(a >= 0, a < th.idx(c))
            for s, r in cx.call(st, op, args):
                s = s.copy()
                post = s.heap[-1]
                cg, idx = cx.fld(post, "const_gates"), cx.fld(post, "gate_index")
                n1 = cg.len()
                fs = [f for f, _ in crate.structs["ModuleGate"]]
                tag = lambda v: v.tag if isz(v.tag) else I(v.tag)
                # positions of the new constants: those listed behind the old ones
                new = simp(n1 - n0)
                if not z3.is_int_value(new):
                    raise Unsupported("number of new constants")
                at = [eng.seq_get(s, cg, simp(n0 + i)) for i in range(new.as_long())]
                pos1 = lambda y: z3.If(y < th.idx(c), CPOS(c, y), sum([z3.If(y == a, n0 + i, 0) for i, a in enumerate(at)], I(0)))
                x, p = eng.const("x"), eng.const("p")
                s1 = s.copy()
                s1.assume(x >= 0, x < idx)
                d, v = lookup(eng, s1, cx.fld(post, "gate_map"), x)
                s1.assume(d)
                if v is not None:
                    s1.assume(tag(v) == th.kind("Const"))
                    if eng.feasible(s1, TRUE):
                        q = pos1(x)
                        eng.oblige(s1, z3.And(q >= 0, q < n1), "every constant gate is listed")
                        s2 = s1.copy()
                        q2 = eng.const("q")
                        s2.assume(q2 == q)
                        eng.oblige(s2, eng.seq_get(s2, cg, q2) == x, "every constant gate is listed where expected")
                s1 = s.copy()
                s1.assume(p >= 0, p < n1)
                if eng.feasible(s1, TRUE):
                    eng.oblige(s1, pos1(eng.seq_get(s1, cg, p)) == p, "no constant gate is listed twice")
                # calls: only `module` makes them, each with one first gate
                s1 = s.copy()
                s1.assume(x >= th.idx(c), x < idx)
                if v is not None and eng.feasible(s1, TRUE):
                    d, v = lookup(eng, s1, cx.fld(post, "gate_map"), x)
                    s1.assume(d)
                    if v is None or th.kind("Module") not in v.pay:
                        eng.oblige(s1, TRUE, "no call is made")
                    else:
                        s1.assume(tag(v) == th.kind("Module"))
                        if eng.feasible(s1, TRUE):
                            g = v.pay[th.kind("Module")][0].f
                            eng.oblige(s1.copy(), z3.BoolVal(h is not None), "only `module` makes calls")
                            if h is not None:
                                eng.oblige(s1.copy(), z3.And((g[fs.index("out_index")] == 0) == (x == th.idx(c)), g[fs.index("module_id")] == args[0]), "a call has one first gate")
        finally:
            cx.done()
    return run


def sums(crate, results, deadline):
    """The facts about CR used above, by induction over the number of gates T: CR sums, over the first gates of the calls that are not expanded,
    the constants of their modules."""
    eng = Engine(crate, deadline)
    eng.prefix = "sums: "
    T, g, n, m, i = z3.Ints("T g n m i")
    f = lambda nm, r=Z: z3.Function(nm, Z, r)
    nc, cr, cr2, sc = f("nc"), f("CR"), f("CR'"), f("SC")
    done, head = f("done", B), f("head", B)
    st = State()
    w = lambda x, d: z3.If(z3.And(head(x), z3.Not(d)), nc(x), 0)
    st.assume(T >= 0, nc(T) >= 0, cr(0) == 0, cr2(0) == 0, sc(0) == 0, cr(T + 1) == cr(T) + w(T, done(T)), cr2(T + 1) == cr2(T) + w(T, z3.Or(done(T), T == g)),
              sc(T + 1) == sc(T) + w(T, FALSE), i >= 0, g >= 0, head(g), z3.Not(done(g)))
    for what, claim in (
            ("0 <= CR <= all", lambda t: z3.And(cr(t) >= 0, cr(t) <= sc(t))),
            ("a call that is not expanded is counted", lambda t: z3.And(cr(t) >= 0, z3.Implies(g < t, cr(t) >= nc(g)))),
            ("the sum over fewer gates is not larger", lambda t: z3.And(sc(t) >= 0, z3.Implies(i <= t, sc(i) <= sc(t)))),
            ("expanding a call takes off its constants", lambda t: cr2(t) == cr(t) - z3.If(g < t, nc(g), 0))):
        eng.oblige(st.copy(), claim(z3.IntVal(0)), what + ": base")
        s = st.copy()
        s.assume(claim(T))
        eng.oblige(s, claim(T + 1), what + ": step")
    # conditions that hold in all iterations so far (loops.py)
    al, p = f("All", B), f("p", B)
    s = State()
    s.assume(T >= 0, al(T + 1) == z3.And(al(T), p(T)), i >= 0)
    eng.oblige(s.copy(), z3.Implies(z3.And(i >= 0, i < 0), p(i)), "a conjunction over iterations: base")
    s.assume(z3.Implies(z3.And(al(T), i < T), p(i)))
    eng.oblige(s, z3.Implies(z3.And(al(T + 1), i < T + 1), p(i)), "a conjunction over iterations: step")
    results.extend(eng.obs)


def composition(crate, results, deadline):
    """C09: a file with the properties that `write` establishes (the obligations of `write` and of Wr.extend) is a well-formed file for the reader
    (the preconditions of `read`, C06), and its wires have the values W.  By induction over the gate lines:
      DEF(k, w) iff 0 <= w < N0 + k, and VAL(k, w) = W(w) where w is an input, a constant that is used or the wire of one of the k lines."""
    from . import bristolproof as bp
    rd = bp.Rd(crate, "written and read", "C09", results, deadline)
    eng, st, th = rd.eng, rd.st, rd.th
    L, first, nout, lc, k, w = z3.Ints("L first nout lc k w")
    T = lambda i, j: rd.at(i, I(j))
    num = lambda t, v: z3.And(bp.ISNUM(t), bp.NUM(t) == v)

    def toks(i, *vs):
        return z3.And(bp.NTOK(bp.LINE(I(i))) == len(vs), *[num(T(i, j), v) for j, v in enumerate(vs)])
    ok_ = lambda x, p: z3.Or(z3.And(x >= 0, x < lc), z3.And(x >= N0, x < N0 + p))

    def written(i):
        """What is known of line i of the document."""
        p, l = simp(i - 4), bp.LINE(i)
        t = lambda j: bp.TOK(l, I(j))
        out = []
        for op, (n, sem) in GATELINES.items():
            a = [bp.NUM(t(2 + j)) for j in range(n)]
            args = z3.Or(a[0] == 0, a[0] == 1) if op == "EQ" else z3.And([ok_(x, p) for x in a])
            o = N0 + p
            out.append(z3.And(bp.NTOK(l) == n + 4, num(t(0), n), num(t(1), 1), *[bp.ISNUM(t(2 + j)) for j in range(n)], num(t(2 + n), o), t(3 + n) == eng.textcode(op), args, W(o) == sem(*a)))
        return [z3.Implies(z3.And(i >= 4, i < 4 + L), z3.And(bp.IOK(i), z3.Or(out)))]
    old = th.extra["file.line"]
    th.extra["file.line"] = lambda i: old(i) + ([] if z3.is_int_value(i) and i.as_long() < 4 else written(i))
    old_r = th.extra["file.readable"]
    # the obligations of `write`
    st.assume(L >= nout, nout >= 0, N0 >= 0, N0 + L < LIM, first >= 0, first <= N0, lc >= 0, lc <= N0, bp.NL == 4 + L,
              toks(0, L, N0 + L), toks(1, I(2), first, N0 - first), toks(2, I(1), nout), bp.LEN(bp.LINE(I(3))) == 0, *[bp.IOK(I(i)) for i in range(4)])
    # the sums of the groups, by their definition
    d = lambda i, t: bp.NUM(T(i, 1 + t))
    st.assume(rd.sin(I(0)) == 0, rd.sin(I(1)) == rd.sin(I(0)) + d(1, 0), rd.sin(I(2)) == rd.sin(I(1)) + d(1, 1), rd.sout(I(0)) == 0, rd.sout(I(1)) == rd.sout(I(0)) + d(2, 0))
    # an empty line has no tokens; a line with tokens is not empty (std)
    for n, f in enumerate(rd.header):
        eng.oblige(st.copy(), f, "the header is well-formed (%d)" % n)
    eng.oblige(st.copy(), z3.And(rd.ni == 2, rd.no == 1, rd.nw == N0 + L), "two groups of inputs, one of outputs")
    eng.oblige(st.copy(), rd.sin(I(2)) == N0, "as many inputs are read as inputs and constants are written")
    eng.oblige(st.copy(), rd.sout(I(1)) == nout, "as many outputs are read as written")
    s = st.copy()
    s.assume(bp.NG >= 0, bp.NG <= bp.NL - 4, bp.NTOK(bp.LINE(4 + bp.NG)) >= 0)
    eng.oblige(s, bp.NG == L, "the gate lines read are the ones written")
    # the reader's inputs are given the values of the first wires
    IH = lambda k, w: z3.And(bp.DEF(k, w) == z3.And(w >= 0, w < N0 + k), z3.Implies(ok_(w, k), bp.VAL(k, w) == W(w)))
    st.assume(rd.S == N0)
    inp = lambda w: z3.Implies(z3.And(w >= 0, w < lc), bp.IN(w) == W(w))
    s = st.copy()
    s.assume(inp(w))
    eng.oblige(s, z3.Implies(w >= 0, IH(I(0), w)), "wires before the gate lines")
    s = st.copy()
    s.assume(k >= 0, k < L, w >= 0)
    l = bp.LINE(4 + k)
    a, b = bp.NUM(bp.TOK(l, I(2))), bp.NUM(bp.TOK(l, I(3)))
    s.assume(IH(k, w), IH(k, a), IH(k, b))
    wf, out, v = rd.gate_line(k)
    eng.oblige(s.copy(), wf, "each line written is a well-formed gate line")
    eng.oblige(s.copy(), out == N0 + k, "each line defines the next wire")
    eng.oblige(s, IH(k + 1, w), "wires after a gate line")
    s = st.copy()
    i = eng.const("i")
    x = N0 + L - nout + i
    s.assume(i >= 0, i < nout, IH(L, x), bp.NG == L)
    eng.oblige(s.copy(), bp.DEF(bp.NG, x), "the outputs are defined")
    s.assume(rd.nw == N0 + L, rd.O == nout)
    eng.oblige(s, bp.VAL(bp.NG, rd.nw - rd.O + i) == W(x), "output i that is read has the value of the wire of output i")
    s = st.copy()
    eng.oblige(s, z3.BoolVal(not eng.proved(st, FALSE)), "the assumptions are not contradictory")
    results.extend(eng.obs)


def tasks(prop):
    if prop not in ("C08", "C09"):
        return []
    out = []
    if prop == "C09":
        from . import bristolproof
        out = bristolproof.tasks("C06") + [("written and read", composition)]
    return out + [("write_single_gate (%s)" % k, single_gate(k)) for k in ("Not", "Xor", "And", "Or", "Module")] + [("write_all_gates", retry(all_gates)), ("write (without a map)", write(False)), ("write (with an empty map)", write(True))] + \
        [("constants: " + op, constants(op)) for op in ["new", "output", "module"] + list(level1.OPS)] + [("count_const", count_const), ("sums", sums)]
