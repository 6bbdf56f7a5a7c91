"""Symbolic values, program states and the verification-condition generator over MIR."""
import itertools, re, time
import z3
from .mir import Unsupported, Ty, parse_ty, split_top, Fn, Place, Op, strip_generics

I = z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
MAXU = 2 ** 64


# ------------------------------------------------------------------ values

class Agg:
    """A struct, a tuple or a closure: a name and its fields."""
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, tuple(f)

    def __repr__(self):
        return "%s%r" % (self.name, self.f)


class Enum:
    """tag: a Python int or an integer term; pay: variant index -> tuple of values."""
    __slots__ = ("name", "tag", "pay")

    def __init__(self, name, tag, pay):
        self.name, self.tag, self.pay = name, tag, pay

    def __repr__(self):
        return "%s#%s%r" % (self.name, self.tag, self.pay)


class Seg:
    __slots__ = ("n", "v", "e")

    def __init__(self, n, v, e):
        self.n, self.v, self.e = n, v, e

    def at(self, i):
        return subst(self.e, [(self.v, i)])

    def __repr__(self):
        return "[%s<%s: %r]" % (self.v, self.n, self.e)


class Seq:
    """A vector or slice, as a list of segments given elementwise."""
    __slots__ = ("segs",)

    def __init__(self, segs=()):
        self.segs = tuple(s for s in segs if not (z3.is_int_value(s.n) and s.n.as_long() <= 0))

    def len(self):
        return simp(z3.Sum([s.n for s in self.segs])) if self.segs else I(0)

    def __repr__(self):
        return "Seq%r" % (list(self.segs),)


class It:
    """An iterator state."""
    __slots__ = ("kind", "f")

    def __init__(self, kind, f):
        self.kind, self.f = kind, tuple(f)

    def __repr__(self):
        return "It:%s%r" % (self.kind, self.f)


class Ptr:
    """A mutable reference: a cell and a path into its value."""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return "&mut %s.%s" % (self.cell, self.path)


class Obj:
    """A handle of a heap object."""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return "Obj(%s)" % (self.id,)


class Tok:
    """An opaque immutable value."""
    __slots__ = ("name", "a")

    def __init__(self, name, a=()):
        self.name, self.a = name, tuple(a)

    def __repr__(self):
        return "%s%s" % (self.name, self.a or "")


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Poison:
    """A value that the loop summary could not describe; reading it is outside the verifier's reach."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "poison(%s)" % self.why


UNIT = Agg("()", ())


def isz(v):
    return isinstance(v, z3.ExprRef)


def none():
    return Enum("Option", 0, {})


def some(v):
    return Enum("Option", 1, {1: (v,)})


def ok(v):
    return Enum("Result", 0, {0: (v,)})


def err(v):
    return Enum("Result", 1, {1: (v,)})


def tup(*a):
    return Agg("()", a)


def simp(e):
    return z3.simplify(e)


def lit(e):
    """True / False / None"""
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def mapv(v, f):
    """Applies f to all terms of a value."""
    if isz(v):
        return f(v)
    if isinstance(v, Agg):
        n = tuple(mapv(x, f) for x in v.f)
        return v if all(a is b for a, b in zip(n, v.f)) else Agg(v.name, n)
    if isinstance(v, It):
        n = tuple(mapv(x, f) for x in v.f)
        return v if all(a is b for a, b in zip(n, v.f)) else It(v.kind, n)
    if isinstance(v, Enum):
        p = {k: tuple(mapv(x, f) for x in xs) for k, xs in v.pay.items()}
        t = f(v.tag) if isz(v.tag) else v.tag
        if isz(t):
            t = simp(t)
            if z3.is_int_value(t):
                t = t.as_long()
        return Enum(v.name, t, p)
    if isinstance(v, Seq):
        return Seq([Seg(f(s.n), s.v, mapv(s.e, f)) for s in v.segs])
    if isinstance(v, Tok):
        return Tok(v.name, tuple(mapv(x, f) for x in v.a)) if v.a else v
    if isinstance(v, Ptr):
        return Ptr(v.cell, tuple((p[0], mapv(p[1], f)) if p[0] in "im" else p for p in v.path))
    if isinstance(v, tuple):
        return tuple(mapv(x, f) for x in v)
    m = getattr(v, "mapv", None)
    if m:
        return m(f)
    return v


def subst(v, pairs):
    if isz(v):
        return z3.substitute(v, *pairs)
    return mapv(v, lambda t: z3.substitute(t, *pairs))


def ssubst(v, pairs):
    return mapv(v, lambda t: simp(z3.substitute(t, *pairs)))


def terms(v, out=None):
    out = [] if out is None else out
    mapv(v, lambda t: (out.append(t), t)[1])
    return out


def has_const(t, names, memo=None):
    """Whether a term mentions one of the named constants."""
    memo = {} if memo is None else memo
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().name() in names:
                return True
            st.extend(x.children())
    return False


def vhas(v, names):
    return any(has_const(t, names) for t in terms(v))


def ite(c, a, b):
    l = lit(c)
    if l is not None:
        return a if l else b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def vsame(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b) or simp(a).eq(simp(b))
    if type(a) is not type(b):
        return False
    if isinstance(a, Agg):
        return a.name == b.name and len(a.f) == len(b.f) and all(vsame(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, It):
        return a.kind == b.kind and len(a.f) == len(b.f) and all(vsame(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Enum):
        if isz(a.tag) != isz(b.tag) or (isz(a.tag) and not simp(a.tag).eq(simp(b.tag))) or (not isz(a.tag) and a.tag != b.tag):
            return False
        ks = [a.tag] if not isz(a.tag) else sorted(set(a.pay) | set(b.pay))
        return a.name == b.name and all(len(a.pay.get(k, ())) == len(b.pay.get(k, ())) and all(vsame(x, y) for x, y in zip(a.pay.get(k, ()), b.pay.get(k, ()))) for k in ks)
    if isinstance(a, Seq):
        return len(a.segs) == len(b.segs) and all(segsame(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, Ptr):
        return a.cell == b.cell and len(a.path) == len(b.path) and all(p[0] == q[0] and (vsame(p[1], q[1]) if p[0] in "im" else p == q) for p, q in zip(a.path, b.path))
    if isinstance(a, Obj):
        return a.id == b.id
    if isinstance(a, Tok):
        return a.name == b.name and len(a.a) == len(b.a) and all(vsame(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, Undef):
        return True
    if isinstance(a, Poison):
        return True
    m = getattr(a, "same", None)
    if m:
        return m(b)
    return a == b


def segsame(x, y):
    if x is y:
        return True
    return simp(x.n).eq(simp(y.n)) and vsame(ssubst(x.e, []) if False else x.e, y.e if x.v.eq(y.v) else subst(y.e, [(y.v, x.v)]))


# ------------------------------------------------------------------ states

class State:
    __slots__ = ("cells", "heap", "pc", "q", "ctx", "depth")

    def __init__(self):
        self.cells, self.heap, self.pc, self.q, self.ctx, self.depth = {}, {}, (), (), (), 0

    def copy(self):
        s = State()
        s.cells, s.heap, s.pc, s.q, s.ctx, s.depth = dict(self.cells), dict(self.heap), self.pc, self.q, self.ctx, self.depth
        return s

    def assume(self, *cs):
        for c in cs:
            if not z3.is_true(c):
                self.pc = self.pc + (c,)


class QFact:
    """for all v in [0, hi): body (a conjunction of facts), with outer indices free"""
    __slots__ = ("v", "hi", "body")

    def __init__(self, v, hi, body):
        self.v, self.hi, self.body = v, hi, body

    def at(self, i):
        return z3.Implies(z3.And(i >= 0, i < self.hi), z3.substitute(self.body, (self.v, i)))


class Panic(Exception):
    pass


class Obligation:
    """status: proved, refuted or unknown.  A refutation is definite when the query is about integers, booleans and gates without recursive
    definitions only, so that the solver's model is a real execution; any other failure to prove is reported as unproved, never as a violation."""
    __slots__ = ("name", "status", "detail", "secs", "backend", "definite", "model")

    def __init__(self, name, status, detail="", secs=0.0, backend="z3", definite=False, model=None):
        self.name, self.status, self.detail, self.secs, self.backend, self.definite, self.model = name, status, detail, secs, backend, definite, model


def pure(eng, hyps):
    """Only integers, booleans and the values of gates that are not recursively defined."""
    rec = None
    seen, stack = set(), list(hyps)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                nm = x.decl().name()
                if nm != "V":
                    f = eng.fams.get(nm)
                    if f is None or f.kind in ("mod", "bits", "ext"):
                        return False
                    if rec is None:
                        from .builders import recursive_fams
                        rec = set(recursive_fams(eng.l2))
                    if nm in rec:
                        return False
            elif x.decl().name().startswith("NatX_"):
                return False
            stack.extend(x.children())
    return True


def model_ints(eng, hyps):
    """The integer constants of the solver's counterexample."""
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(hyps)
    if s.check() != z3.sat:
        return None
    m = s.model()
    ints = sorted({d.name() for d in m.decls() if d.arity() == 0 and d.range() == z3.IntSort()})
    # the smallest of a few bounds on the constants that still admits a counterexample
    s.set("timeout", 1000)
    for bound in (4, 12, 40, 300, 3000, 10 ** 5, 10 ** 6):
        if all(abs(m[z3.Int(n)].as_long()) <= bound for n in ints if z3.is_int_value(m[z3.Int(n)])):
            break
        s.push()
        s.add([z3.And(z3.Int(n) <= bound, z3.Int(n) >= -bound) for n in ints])
        if s.check() == z3.sat:
            m = s.model()
            break
        s.pop()
    return {d.name(): m[d].as_long() for d in m.decls() if d.arity() == 0 and z3.is_int_value(m[d])}


class Timeout(Exception):
    pass


# ------------------------------------------------------------------ engine

class Engine:
    def __init__(self, crate, deadline=None):
        self.crate = crate
        self.ctr = 0
        self.jctr = 0
        self.obs = []
        self.record = True
        self.solver_time = 0.0
        self.queries = 0
        self.contracts = {}
        self.models = {}
        self.generics = {}
        self.fams = {}
        self.deadline = deadline
        self.theory = None
        self.assumed = set()       # names of assumed models that were used
        self.inlined = set()
        self.divs, self.divargs, self.hints = {}, {}, {}
        self.used = set()
        self.cache = {}
        self.loopstack = []
        self.hooks = {}
        self.trace = False
        self.qt = 8000
        self.maxdepth = 40
        self.prefix = ""
        from . import std
        std.install(self)

    # ---- names
    def name(self, p):
        self.ctr += 1
        return "%s!%d" % (p, self.ctr)

    def const(self, p, sort=None):
        return z3.Const(self.name(p), sort or z3.IntSort())

    def fresh(self, st, p, sort=None):
        """A fresh symbol, which is a function of the loop indices in scope."""
        n = self.name(p)
        sort = sort or z3.IntSort()
        if not st.ctx:
            return z3.Const(n, sort)
        return z3.Function(n, *([z3.IntSort()] * len(st.ctx) + [sort]))(*st.ctx)

    def jvar(self):
        self.jctr += 1
        return z3.Int("j!%d" % self.jctr)

    # ---- solver
    def check(self, hyps, timeout=None):
        if self.deadline and time.time() > self.deadline:
            raise Timeout()
        key = tuple(sorted(set(h.get_id() for h in hyps)))
        if key in self.cache:
            return self.cache[key][0]
        s = z3.Solver()
        s.set("timeout", timeout or self.qt)
        s.set("random_seed", 1)
        for h in hyps:
            s.add(h)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        self.cache[key] = (r, hyps, s)
        return r

    def qinst(self, st, extra=()):
        """Ground instances of the facts known for all iterations of the loops already left."""
        out = []
        for q in st.q:
            pts = [I(0), simp(q.hi - 1)]
            for e in self.points(list(st.pc) + list(extra)):
                pts.append(e)
            for p in pts[:12]:
                out.append(q.at(p))
        return out

    def points(self, ts):
        return []

    def feasible(self, st, c):
        """False only if c is impossible in st."""
        l = lit(c)
        if l is not None and not l:
            return False
        hy = list(st.pc) + [c]
        if self.theory:
            hy += self.theory(st, hy, light=True)
        return self.check(hy, 4000) != z3.unsat

    def proved(self, st, c, extra=()):
        c = simp(c)
        if lit(c) is True:
            return True
        hy = list(st.pc) + [z3.Not(c)] + list(extra)
        if self.theory:
            hy += self.theory(st, hy, light=True)
        return self.check(hy) == z3.unsat

    def oblige(self, st, c, name, extra=()):
        """An obligation: c must hold in st. It is assumed afterwards."""
        c0 = c
        c = simp(c)
        if not self.record:
            # a pass that finds the description of a loop: the obligation is discharged in the pass that confirms it
            st.assume(c)
            return
        if lit(c) is True:
            self.obs.append(Obligation(self.prefix + name, "proved", backend="simplifier"))
            return
        t = time.time()
        hy = list(st.pc) + [z3.Not(c)] + list(extra)
        r = self.check(hy)
        if r != z3.unsat and self.theory:
            hy += self.theory(st, hy)
            r = self.check(hy)
        stt = "proved" if r == z3.unsat else ("refuted" if r == z3.sat else "unknown")
        o = Obligation(self.prefix + name, stt, "" if r == z3.unsat else str(c0)[:2000], time.time() - t)
        if stt == "refuted":
            o.definite, o.model = pure(self, hy), model_ints(self, hy)
        self.obs.append(o)
        st.assume(c)

    # ---- values
    def seq_get(self, st, seq, i):
        off, cands = I(0), []
        i = simp(i)
        for s in seq.segs:
            end = simp(off + s.n)
            rel = simp(i - off)
            inside = simp(z3.And(rel >= 0, rel < s.n))
            l = lit(inside)
            if l is True:
                return self.norm(st, s.at(rel))
            if l is None:
                cands.append((inside, s, rel))
            off = end
        if not cands:
            raise Unsupported("index outside the sequence")
        if len(cands) > 1:
            # the index is within bounds; drop the segments that are impossible
            c2 = []
            for c in cands:
                if self.proved(st, c[0]):
                    return self.norm(st, c[1].at(c[2]))
                if self.feasible(st, c[0]):
                    c2.append(c)
            cands = c2
            if not cands:
                raise Unsupported("index outside the sequence")
        v = cands[-1][1].at(cands[-1][2])
        for c, s, rel in cands[-2::-1]:
            v = self.vite(st, c, s.at(rel), v)
        return self.norm(st, v)

    def norm(self, st, v):
        return mapv(v, simp)

    def vite(self, st, c, a, b):
        l = lit(c)
        if l is not None:
            return a if l else b
        if a is b:
            return a
        if isz(a) and isz(b):
            return ite(c, a, b)
        if isinstance(a, (Undef, Poison)) or isinstance(b, (Undef, Poison)):
            return Poison("merge of undefined values")
        if isinstance(a, Agg) and isinstance(b, Agg) and a.name == b.name and len(a.f) == len(b.f):
            return Agg(a.name, [self.vite(st, c, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind and len(a.f) == len(b.f):
            return It(a.kind, [self.vite(st, c, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, Enum) and isinstance(b, Enum) and a.name == b.name:
            ta = a.tag if isz(a.tag) else I(a.tag)
            tb = b.tag if isz(b.tag) else I(b.tag)
            t = simp(ite(c, ta, tb))
            if z3.is_int_value(t):
                t = t.as_long()
            pay = {}
            for k in set(a.pay) | set(b.pay):
                if k in a.pay and k in b.pay:
                    pay[k] = tuple(self.vite(st, c, x, y) for x, y in zip(a.pay[k], b.pay[k]))
                else:
                    pay[k] = a.pay.get(k) or b.pay.get(k) or ()
            return Enum(a.name, t, pay)
        if isinstance(a, Seq) and isinstance(b, Seq):
            if vsame(a, b):
                return a
            la, lb = a.len(), b.len()
            if len(a.segs) == len(b.segs) and all(simp(x.n).eq(simp(y.n)) for x, y in zip(a.segs, b.segs)):
                out = []
                for x, y in zip(a.segs, b.segs):
                    j = self.jvar()
                    out.append(Seg(x.n, j, self.vite(st, c, x.at(j), y.at(j))))
                return Seq(out)
            n = simp(ite(c, la, lb))
            if simp(la).eq(simp(lb)) or self.proved(st, la == lb):
                n = la
            j = self.jvar()
            s2 = st.copy()
            s2.assume(j >= 0, j < n)
            sa, sb = s2.copy(), s2.copy()
            sa.assume(c)
            sb.assume(z3.Not(c))
            if not a.segs or not b.segs:
                # one is empty: the elements are the ones of the other
                x = a if a.segs else b
                return Seq([Seg(n, j, self.seq_get(sa if a.segs else sb, x, j))])
            return Seq([Seg(n, j, self.vite(st, c, self.seq_get(sa, a, j), self.seq_get(sb, b, j)))])
        if vsame(a, b):
            return a
        m = getattr(a, "vite", None)
        if m and type(a) is type(b):
            return m(self, st, c, b)
        return Poison("merge of %s and %s" % (type(a).__name__, type(b).__name__))

    # ---- places
    def read_path(self, st, v, path):
        for p in path:
            v = self.read1(st, v, p)
        return v

    def read1(self, st, v, p):
        if isinstance(v, Poison):
            raise Unsupported("value not described by the loop summary: " + v.why)
        k = p[0]
        if k == "f":
            if isinstance(v, (Agg, It)):
                return v.f[p[1]]
            if isz(v) and p[1] == 0:
                return v
            if isinstance(v, Ptr) and v.cell[0] == "tmp" and p[1] == 0:
                return v                                # Box -> Unique -> NonNull
            raise Unsupported("field %s of %s" % (p[1], type(v).__name__))
        if k == "p":
            if not isinstance(v, Enum):
                raise Unsupported("variant of %s" % type(v).__name__)
            if p[1] not in v.pay:
                raise Unsupported("payload of an impossible variant")
            return v.pay[p[1]][p[2]]
        if k == "i":
            if isinstance(v, Seq):
                return self.seq_get(st, v, p[1])
            raise Unsupported("index into %s" % type(v).__name__)
        m = getattr(v, "read1", None)
        if m:
            return m(self, st, p)
        raise Unsupported("read " + k)

    def write_path(self, st, v, path, new):
        if not path:
            return new
        if isinstance(v, Poison):
            raise Unsupported("value not described by the loop summary: " + v.why)
        p, rest = path[0], path[1:]
        k = p[0]
        if k == "f":
            if isinstance(v, (Agg, It)):
                f = list(v.f)
                f[p[1]] = self.write_path(st, f[p[1]], rest, new)
                return Agg(v.name, f) if isinstance(v, Agg) else It(v.kind, f)
            if isz(v) and p[1] == 0 and not rest:
                return new
            raise Unsupported("write to a field of %s" % type(v).__name__)
        if k == "p":
            pay = dict(v.pay)
            xs = list(pay[p[1]])
            xs[p[2]] = self.write_path(st, xs[p[2]], rest, new)
            pay[p[1]] = tuple(xs)
            return Enum(v.name, v.tag, pay)
        if k == "i":
            return self.seq_set(st, v, p[1], self.write_path(st, self.seq_get(st, v, p[1]), rest, new) if rest else new)
        m = getattr(v, "write1", None)
        if m:
            return m(self, st, p, rest, new)
        raise Unsupported("write " + k)

    def seq_set(self, st, seq, i, new):
        i = simp(i)
        off = I(0)
        for n, s in enumerate(seq.segs):
            rel = simp(i - off)
            inside = simp(z3.And(rel >= 0, rel < s.n))
            if lit(inside) is True or (lit(inside) is None and self.proved(st, inside)):
                out = list(seq.segs[:n])
                if z3.is_int_value(s.n) and s.n.as_long() == 1:
                    out.append(Seg(I(1), self.jvar(), new))
                else:
                    if not z3.is_int_value(rel) or rel.as_long() != 0:
                        out.append(Seg(rel, s.v, s.e))
                    out.append(Seg(I(1), self.jvar(), new))
                    j = self.jvar()
                    rest = simp(s.n - rel - 1)
                    out.append(Seg(rest, j, s.at(j + rel + 1)))
                return Seq(out + list(seq.segs[n + 1:]))
            off = simp(off + s.n)
        raise Unsupported("update of a sequence at an undetermined position")

    def deref_read(self, st, v):
        if isinstance(v, Ptr):
            return self.read_path(st, self.cell(st, v.cell), v.path)
        if isinstance(v, Poison):
            raise Unsupported("value not described by the loop summary: " + v.why)
        return v

    def cell(self, st, c):
        if c[0] == "h":
            return st.heap[c[1]]
        return st.cells.get(c, UNDEF)

    def set_cell(self, st, c, v):
        if c[0] == "h":
            st.heap[c[1]] = v
        else:
            st.cells[c] = v

    def ptr_write(self, st, p, v):
        self.set_cell(st, p.cell, self.write_path(st, self.cell(st, p.cell), p.path, v))

    def resolve(self, st, fr, place):
        """A place as (cell, path); or ('value', v, path) behind a shared reference."""
        cell, path = (fr.id, place.local), []
        base = None
        variant = None
        for pr in place.proj:
            k = pr[0]
            if k == "deref":
                v = base if base is not None else self.cell(st, cell)
                v = self.read_path(st, v, path)
                if isinstance(v, Ptr):
                    cell, path, base = v.cell, list(v.path), None
                else:
                    base, path = v, []
            elif k == "variant":
                variant = pr[1]
            elif k == "field":
                if variant is not None:
                    v = self.read_path(st, base if base is not None else self.cell(st, cell), path)
                    if not isinstance(v, Enum):
                        raise Unsupported("variant %s of %s" % (variant, type(v).__name__))
                    path.append(("p", self.variant_index(v.name, variant), pr[1]))
                    variant = None
                else:
                    path.append(("f", pr[1]))
            elif k == "index":
                path.append(("i", self.cell(st, (fr.id, pr[1]))))
            elif k == "constindex":
                if pr[1] < 0:
                    raise Unsupported("index from the end")
                path.append(("i", I(pr[1])))
            else:
                raise Unsupported("projection " + k)
        return cell, path, base

    def variant_index(self, enum, variant):
        t = {"Option": ["None", "Some"], "Result": ["Ok", "Err"], "ControlFlow": ["Continue", "Break"], "Entry": ["Occupied", "Vacant"],
             "Cow": ["Borrowed", "Owned"], "Sign": ["Minus", "NoSign", "Plus"]}.get(enum)
        if t is None:
            if enum not in self.crate.enums:
                raise Unsupported("enum " + enum)
            t = [v for v, _ in self.crate.enums[enum]]
        return t.index(variant)

    def read_place(self, st, fr, place):
        cell, path, base = self.resolve(st, fr, place)
        v = self.read_path(st, base if base is not None else self.cell(st, cell), path)
        if isinstance(v, Undef):
            raise Unsupported("read of an undefined value")
        if isinstance(v, Poison):
            raise Unsupported("value not described by the loop summary: " + v.why)
        return v

    def write_place(self, st, fr, place, val):
        cell, path, base = self.resolve(st, fr, place)
        if base is not None:
            raise Unsupported("write through a shared reference")
        if cell[0] == "tmp" and str(cell[1]).startswith("box"):
            path = [q for q in path if q[0] != "f"]     # MaybeUninit -> ManuallyDrop -> value
        self.set_cell(st, cell, self.write_path(st, self.cell(st, cell), path, val) if path else val)

    # ---- operands
    def const_val(self, s, st=None):
        s = s.strip()
        m = re.match(r"^(-?\d+)_(\w+)$", s)
        if m:
            return I(int(m.group(1)))
        if s == "true":
            return TRUE
        if s == "false":
            return FALSE
        if s == "()":
            return UNIT
        if s.startswith('"'):
            return Tok("str:" + s[1:-1])
        if s.startswith('b"'):
            return Tok("bstr:" + s[2:-1])
        if s in self.generics:
            return self.generics[s]
        m = re.match(r"^(?:core::num::<impl )?(u8|u16|u32|u64|usize|i32|i64)>?::(MAX|MIN)$", s)
        if m:
            t, w = m.groups()
            b = {"usize": 64}.get(t) or int(t[1:])
            return I((2 ** b - 1 if t[0] == "u" else 2 ** (b - 1) - 1) if w == "MAX" else (0 if t[0] == "u" else -2 ** (b - 1)))
        m = re.match(r"^(.*)::promoted\[(\d+)\]$", s)
        if m:
            return self.promoted(s)
        if "MaybeUninit" in s and re.search(r"SizedTypeProperties>::(SIZE|ALIGN)", s):
            return I(1)             # only used in the null and alignment checks of a fresh box
        if "PhantomData" in s:
            return Tok("PhantomData")
        if re.match(r"^'(.)'$", s):
            return I(ord(s[1]))
        if re.match(r"^[\w:<>', ]+$", s):
            base = strip_generics(s).split("::")
            if len(base) >= 2 and base[-2] in self.crate.enums or base[-2:-1] == ["Option"]:
                en = base[-2]
                return Enum(en, self.variant_index(en, base[-1]), {self.variant_index(en, base[-1]): ()})
            if base[-1] in self.crate.structs and not self.crate.structs[base[-1]]:
                return Agg(base[-1], ())
            return Tok("fn:" + s)
        m = re.match(r"^(?:[\w:]+::)?(\w+)\((.*)\)$", s)
        if m:
            args = [self.const_val(a) for a in split_top(m.group(2))]
            return self.mk_aggt(s[:s.index("(")], args)
        m = re.match(r"^\{closure@(.*)\}$", s)
        if m:
            return Agg("{closure@" + m.group(1) + "}", ())
        raise Unsupported("constant " + s[:80])

    def promoted(self, s):
        for k, (ty, body) in self.crate.consts.items():
            if k == s or k.replace(" ", "") == s.replace(" ", "") or strip_generics(k).split("::")[-3:] == strip_generics(s).split("::")[-3:] or \
                    self.crate.impl_path(k) == strip_generics(s).split("::")[-3:]:
                fn = Fn(k, k + "() -> " + ty + " {", body.split("\n"))
                fn.parse()
                st = State()
                st.depth = 900
                outs = self.call_fn(fn, [], st)
                if len(outs) != 1:
                    raise Unsupported("promoted constant")
                st, v = outs[0]
                while isinstance(v, Ptr):
                    v = self.deref_read(st, v)
                return v
        raise Unsupported("promoted constant " + s[:80])

    def operand(self, st, fr, op):
        if op.kind == "const":
            return self.const_val(op.v, st)
        return self.read_place(st, fr, op.v)

    def op_ty(self, fr, op):
        if op.kind == "const":
            m = re.match(r"^-?\d+_(\w+)$", op.v.strip())
            if m:
                return Ty(m.group(1))
            if op.v.strip() in ("true", "false"):
                return Ty("bool")
            if op.v.strip() in self.generics or "SizedTypeProperties" in op.v:
                return Ty("usize")
            return Ty("?")
        return self.place_ty(fr, op.v)

    def place_ty(self, fr, place):
        t = fr.fn.locals.get(place.local)
        for pr in place.proj:
            if pr[0] == "deref":
                t = t.args[0] if t.args else Ty("?")
            elif pr[0] == "field":
                t = pr[2]
            elif pr[0] in ("index", "constindex"):
                t = t.args[0] if t.args else Ty("?")
        return t

    # ---- rvalues
    def width(self, t):
        n = t.name
        if n in ("usize", "u64"):
            return 0, 2 ** 64 - 1
        if n in ("isize", "i64"):
            return -2 ** 63, 2 ** 63 - 1
        m = re.match(r"^([ui])(\d+)$", n)
        if m:
            b = int(m.group(2))
            return (0, 2 ** b - 1) if m.group(1) == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1)
        if n in ("GateId", "WireId", "ModuleId"):
            return 0, 2 ** 64 - 1
        raise Unsupported("arithmetic on " + n)

    def binop(self, st, fr, op, a, b, ta):
        if isinstance(a, Enum) and isinstance(b, Enum) and op in ("Eq", "Ne"):
            e = self.veq(st, a, b)
            return e if op == "Eq" else simp(z3.Not(e))
        if not isz(a) or not isz(b):
            raise Unsupported("operation %s on %s" % (op, type(a).__name__))
        isb = z3.is_bool(a)
        if op in ("Eq", "Ne"):
            e = simp(a == b)
            return e if op == "Eq" else simp(z3.Not(e))
        if isb:
            if op == "BitAnd":
                return simp(z3.And(a, b))
            if op == "BitOr":
                return simp(z3.Or(a, b))
            if op == "BitXor":
                return simp(z3.Xor(a, b))
            if op in ("Lt", "Le", "Gt", "Ge"):
                a, b = ite(a, I(1), I(0)), ite(b, I(1), I(0))
            else:
                raise Unsupported("operation %s on bool" % op)
        if op == "Lt":
            return simp(a < b)
        if op == "Le":
            return simp(a <= b)
        if op == "Gt":
            return simp(a > b)
        if op == "Ge":
            return simp(a >= b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = {"A": lambda: a + b, "S": lambda: a - b, "M": lambda: a * b}[op[0]]()
            r = simp(r)
            lo, hi = self.width(ta)
            return tup(r, simp(z3.Or(r < lo, r > hi)))
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            r = simp({"A": lambda: a + b, "S": lambda: a - b, "M": lambda: a * b}[op[0]]())
            lo, hi = self.width(ta)
            if not self.proved(st, z3.And(r >= lo, r <= hi)):
                raise Unsupported("arithmetic that may wrap")
            return r
        if op in ("Div", "Rem"):
            if not (self.proved(st, a >= 0) and self.proved(st, b > 0)):
                raise Unsupported("division of possibly negative numbers")
            return simp(a / b) if op == "Div" else simp(a % b)
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            b = simp(b)
            if not z3.is_int_value(b):
                raise Unsupported("shift by a variable amount")
            p = 2 ** b.as_long()
            if not self.proved(st, a >= 0):
                raise Unsupported("shift of a possibly negative number")
            if op.startswith("Shr"):
                return simp(a / p)
            lo, hi = self.width(ta)
            r = simp(a * p)
            if self.proved(st, r <= hi):
                return r
            return simp(r % (hi + 1))
        if op == "BitAnd":
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(x):
                    m = x.as_long()
                    if m >= 0 and m & (m + 1) == 0:
                        return simp(y % (m + 1)) if m else I(0)
                    if m > 0 and m & (m - 1) == 0:
                        return simp(((y / m) % 2) * m)
            raise Unsupported("bitwise and")
        if op in ("BitOr", "BitXor"):
            # disjoint bits
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(x) and x.as_long() == 0:
                    return y
                for k in range(1, 9):
                    if self.proved(st, z3.And(x % (2 ** k) == 0, y >= 0, y < 2 ** k, x >= 0)):
                        return simp(x + y)
            raise Unsupported("bitwise or")
        raise Unsupported("operation " + op)

    def veq(self, st, a, b):
        if isz(a) and isz(b):
            return simp(a == b)
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
            return simp(z3.And([self.veq(st, x, y) for x, y in zip(a.f, b.f)] or [TRUE]))
        if isinstance(a, Enum) and isinstance(b, Enum):
            ta = a.tag if isz(a.tag) else I(a.tag)
            tb = b.tag if isz(b.tag) else I(b.tag)
            cs = [ta == tb]
            for k in set(a.pay) & set(b.pay):
                e = z3.And([self.veq(st, x, y) for x, y in zip(a.pay[k], b.pay[k])] or [TRUE])
                cs.append(z3.Implies(ta == k, e))
            return simp(z3.And(cs))
        if isinstance(a, Tok) and isinstance(b, Tok):
            if a.name.startswith("str:") and b.name.startswith("str:") and not a.a and not b.a:
                return z3.BoolVal(a.name == b.name)
        m = getattr(a, "veq", None)
        if m:
            return m(self, st, b)
        raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))

    def mk_aggt(self, path, args):
        base = strip_generics(path).split("::")
        last = base[-1]
        if last in ("GateId", "WireId", "ModuleId") and len(args) == 1:
            return args[0]
        if len(base) >= 2 and (base[-2] in self.crate.enums or base[-2] in ("Option", "Result", "ControlFlow")):
            v = self.variant_index(base[-2], last)
            return Enum(base[-2], v, {v: tuple(args)})
        if last in ("Some", "None"):
            return some(args[0]) if last == "Some" else none()
        if last in ("Ok", "Err"):
            return ok(args[0]) if last == "Ok" else err(args[0])
        if last in ("RangeFull",):
            return Agg("RangeFull", ())
        return Agg(last, args)

    def rvalue(self, st, fr, rv, dst=None):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            cell, path, base = self.resolve(st, fr, rv[2])
            if rv[1] == "shared":
                if rv[2].proj and rv[2].proj[-1][0] == "deref" and base is None:
                    pass
                v = self.read_path(st, base if base is not None else self.cell(st, cell), path)
                return v
            if base is not None:
                # re-borrow of a value that is itself a handle or an unsized view
                if rv[1] == "raw":
                    return self.read_path(st, base, path)
                raise Unsupported("mutable borrow behind a shared reference")
            return Ptr(cell, path)
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return self.binop(st, fr, rv[1], a, b, self.op_ty(fr, rv[2]))
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if isz(a) and z3.is_bool(a):
                    return simp(z3.Not(a))
                raise Unsupported("bitwise not")
            if rv[1] == "Neg":
                return simp(-a)
            if rv[1] == "PtrMetadata":
                v = self.deref_read(st, a)
                if isinstance(v, Seq):
                    return v.len()
            raise Unsupported("operation " + rv[1])
        if k == "cast":
            a = self.operand(st, fr, rv[1])
            return self.cast(st, fr, a, self.op_ty(fr, rv[1]), rv[2], rv[3])
        if k == "discr":
            v = self.read_place(st, fr, rv[1])
            if isinstance(v, Enum):
                if v.name == "Ordering":
                    return v.tag if isz(v.tag) else I(v.tag)
                return v.tag if isz(v.tag) else I(v.tag)
            raise Unsupported("discriminant of %s" % type(v).__name__)
        if k == "len":
            v = self.read_place(st, fr, rv[1])
            if isinstance(v, Seq):
                return v.len()
            raise Unsupported("len of %s" % type(v).__name__)
        if k == "array":
            return Seq([Seg(I(1), self.jvar(), self.operand(st, fr, x)) for x in rv[1]])
        if k == "repeat":
            n = self.const_val(rv[2].replace("const ", ""), st)
            return Seq([Seg(n, self.jvar(), self.operand(st, fr, rv[1]))])
        if k == "tuple":
            return Agg("()", [self.operand(st, fr, x) for x in rv[1]])
        if k == "closure":
            return Agg(rv[1], [self.operand(st, fr, x) for x in rv[2]])
        if k == "aggs":
            base = strip_generics(rv[1]).split("::")
            last = base[-1]
            vals = {a: self.operand(st, fr, o) for a, o in rv[2]}
            if len(base) >= 2 and base[-2] in self.crate.enums:
                v = self.variant_index(base[-2], last)
                fs = [f for f, _ in dict(self.crate.enums[base[-2]])[last]]
                return Enum(base[-2], v, {v: tuple(vals[f] for f in fs)})
            if last in self.crate.structs:
                fs = [f for f, _ in self.crate.structs[last]]
                if last in ("GateId", "WireId", "ModuleId"):
                    return vals[fs[0]]
                return Agg(last, [vals[f] for f in fs])
            if last in ("Range", "RangeInclusive"):
                return Agg(last, [vals["start"], vals["end"]])
            if last == "RangeFrom":
                return Agg(last, [vals["start"]])
            if last in ("RangeTo", "RangeToInclusive"):
                return Agg(last, [vals["end"]])
            return Agg(last, list(vals.values()))
        if k == "aggt":
            args = [self.operand(st, fr, x) for x in rv[2]]
            return self.mk_aggt(rv[1], args)
        raise Unsupported("rvalue " + k)

    def cast(self, st, fr, a, frm, to, kind):
        if isinstance(a, Ptr) and a.cell[0] == "tmp" and to.name in ("usize", "isize"):
            return I(4096)          # the address of a live allocation: not null, aligned
        if kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr") or kind in ("Transmute", "BoxDerefTransmute"):
            return a
        if kind.startswith("IntToInt"):
            if z3.is_bool(a):
                return simp(ite(a, I(1), I(0)))
            lo, hi = self.width(to)
            try:
                l2, h2 = self.width(frm)
                if l2 >= lo and h2 <= hi:
                    return a
            except Unsupported:
                pass
            if self.proved(st, z3.And(a >= lo, a <= hi)):
                return a
            if lo == 0:
                return simp(a % (hi + 1))
            raise Unsupported("narrowing cast")
        raise Unsupported("cast " + kind)

    # ---- calls
    def canon(self, callee):
        c = callee.strip()
        if c.startswith("<"):
            d = 0
            for i, ch in enumerate(c):
                if ch == "<":
                    d += 1
                elif ch == ">" and c[i - 1] not in "-=":
                    d -= 1
                    if d == 0:
                        break
            inner, rest = c[1:i], c[i + 1:]
            d = 0
            for j in range(len(inner)):
                if inner[j] in "<([{":
                    d += 1
                elif inner[j] in ")]}" or (inner[j] == ">" and inner[j - 1] not in "-="):
                    d -= 1
                elif d == 0 and inner.startswith(" as ", j):
                    selft, trait = inner[:j], inner[j + 4:]
                    break
            else:
                # <T>::method
                return ("path", None, strip_generics(inner).split("::")[-1] + "::" + strip_generics(rest).strip(":"), inner, rest)
            m = strip_generics(rest).strip(":")
            return ("trait", selft.strip(), strip_generics(trait).split("::")[-1] + "::" + m, trait, rest)
        p = [x for x in strip_generics(c).split("::") if x]
        return ("path", None, "::".join(p[-2:]), c, "")

    def do_call(self, st, fr, callee, args, dst_ty):
        kind, selft, key, full, rest = self.canon(callee)
        info = CallInfo(self, fr, callee, kind, selft, key, full, dst_ty, rest)
        # contracts first
        h = None
        if kind == "trait":
            sn = self.norm_self(selft)
            h = self.contracts.get("<%s as %s>::%s" % (sn, key.split("::")[0], key.split("::")[1]))
            if h is None:
                fn = self.crate.traits.get((key.split("::")[0], sn, key.split("::")[1]))
                if fn is not None:
                    return self.call_inline(fn, args, st)
            if h is None and sn in ("C", "NXAOBoolCircuit"):
                h = self.contracts.get("BoolCircuit::" + key.split("::")[1])
        else:
            h = self.contracts.get(key) or self.contracts.get(key.split("::")[-1] if "::" not in key or key.split("::")[-2] in ("utils", "int", "logic", "circuits", "arithmetic") else "")
        if h is not None:
            self.used.add(key)
            return h(self, st, args, info)
        if kind == "path":
            p = key.split("::")
            fn = None
            if len(p) >= 2:
                fn = self.crate.inherent.get((p[-2], p[-1]))
            if fn is None and (len(p) < 2 or p[-2] not in ("Vec", "Option", "Result", "HashMap", "String")):
                fn = self.crate.fns.get(p[-1])
                if fn is not None and "{closure" in fn.name:
                    fn = None
            if fn is not None:
                return self.call_inline(fn, args, st)
        h = self.models.get(key)
        if h is None:
            h = self.models.get("*::" + key.split("::")[-1])
        if h is None:
            raise Unsupported("call of " + callee[:120])
        self.assumed.add(key)
        return h(self, st, args, info)

    def norm_self(self, t):
        from .mir import norm_self
        s = norm_self(t)
        if s == "C":
            return "NXAOBoolCircuit"
        return s

    def call_inline(self, fn, args, st):
        self.inlined.add(fn.name)
        return self.call_fn(fn, args, st)

    def call_fn(self, fn, args, st):
        """Executes a body: list of (state, value)."""
        fn.parse()
        st = st.copy()
        st.depth += 1
        if st.depth - (900 if st.depth > 900 else 0) > self.maxdepth:
            raise Unsupported("recursion or deep calls in " + fn.name)
        fr = Frame(fn, st.depth)
        for n, v in zip(fn.args, args):
            st.cells[(fr.id, n)] = v
        outs = []
        for kind, s, info in self.run(st, fr, "bb0", None, None):
            if kind == "ret":
                v = s.cells.get((fr.id, "_0"), UNIT)
                s.cells = {k: x for k, x in s.cells.items() if k[0] != fr.id}
                s.depth -= 1
                outs.append((s, v))
            else:
                raise Unsupported("control flow leaves the function")
        return outs

    def call_closure(self, st, clo, args):
        if isinstance(clo, Tok) and clo.name.startswith("fn:"):
            # a function item used as a closure
            name = clo.name[3:]
            base = strip_generics(name).split("::")
            if len(base) >= 2 and base[-2] in self.crate.enums or base[-1] in ("Some", "Ok", "Err", "GateId", "WireId", "ModuleId"):
                return [(st, self.mk_aggt(name, args))]
            return self.do_call(st, None, name, args, Ty("?"))
        if not isinstance(clo, Agg) or not clo.name.startswith("{closure@"):
            raise Unsupported("call of %s" % type(clo).__name__)
        span = clo.name[len("{closure@"):-1]
        fn = self.crate.closures.get(span)
        if fn is None:
            raise Unsupported("closure " + span)
        fn.parse()
        # a closure by mutable reference gets a pointer to its captures
        t = fn.locals[fn.args[0]]
        a0 = clo
        tmp = None
        if t.name == "&mut":
            tmp = ("tmp", self.name("clo"))
            st = st.copy()
            st.cells[tmp] = clo
            a0 = Ptr(tmp, ())
        outs = self.call_fn(fn, [a0] + list(args), st)
        if tmp:
            for s, _ in outs:
                s.cells.pop(tmp, None)
        return outs

    # ---- execution
    def run(self, st, fr, blk, region, head):
        """Runs from blk. Outcomes: ('ret', st, None), ('back', st, None), ('exit', st, block)."""
        outs = []
        work = [(st, blk, True)]
        while work:
            st, b, first = work.pop()
            while True:
                if region is not None and not first:
                    if b == head:
                        outs.append(("back", st, None))
                        break
                    if b not in region:
                        outs.append(("exit", st, b))
                        break
                if b in fr.fn.loops and not (first and region is not None and b == head):
                    for kind, s, info in self.mir_loop(st, fr, b):
                        if kind == "ret":
                            outs.append((kind, s, info))
                        else:
                            work.append((s, info, False))
                    break
                first = False
                r = self.block(st, fr, b, region)
                if r[0] == "goto":
                    st, b = r[1], r[2]
                    continue
                if r[0] == "ret":
                    outs.append(("ret", r[1], None))
                    break
                if r[0] == "dead":
                    break
                for s, t in reversed(r[1]):
                    work.append((s, t, False))
                break
        return outs

    def block(self, st, fr, b, region):
        stmts = fr.fn.blocks[b]
        st = st.copy()
        for s in stmts:
            k = s[0]
            if k == "assign":
                self.write_place(st, fr, s[1], self.rvalue(st, fr, s[2]))
            elif k == "StorageDead" or k == "StorageLive":
                st.cells[(fr.id, s[1])] = UNDEF
            elif k == "nop":
                pass
            elif k == "goto":
                return ("goto", st, s[1])
            elif k == "return":
                return ("ret", st)
            elif k == "unreachable":
                return ("dead",)
            elif k == "drop":
                self.drop(st, fr, s[1])
                return ("goto", st, s[2])
            elif k == "assert":
                c = self.operand(st, fr, s[1])
                if s[2]:
                    c = z3.Not(c)
                self.oblige(st, c, "%s/%s: %s" % (short(fr.fn.name), b, s[3].strip('"')[:60]))
                return ("goto", st, s[4])
            elif k == "switch":
                return self.switch(st, fr, s, b, region)
            elif k == "call":
                if s[1] is None:
                    self.oblige(st, FALSE, "%s/%s: unreachable %s" % (short(fr.fn.name), b, s[2][:50]))
                    return ("dead",)
                args = [self.operand(st, fr, a) for a in s[3]]
                if self.trace:
                    print("  " * st.depth, short(fr.fn.name), b, s[2][:90], flush=True)
                if s[4] is None and ("panic" in s[2] or "unwrap_failed" in s[2] or "assert_failed" in s[2]):
                    self.oblige(st, FALSE, "%s/%s: %s unreachable" % (short(fr.fn.name), b, s[2].split("::")[-1][:50]))
                    return ("dead",)
                outs = self.do_call(st, fr, s[2], args, self.place_ty(fr, s[1]))
                res = []
                for s2, v in outs:
                    s2 = s2.copy()
                    self.write_place(s2, fr, s[1], v)
                    res.append((s2, s[4]))
                if not res or s[4] is None:
                    return ("dead",)
                if len(res) == 1:
                    return ("goto", res[0][0], res[0][1])
                return ("many", res)
            else:
                raise Unsupported("statement " + k)
        raise Unsupported("block without terminator")

    def drop(self, st, fr, place):
        h = self.hooks.get("drop")
        if h:
            cell, path, base = self.resolve(st, fr, place)
            if base is None:
                h(self, st, self.cell(st, cell) if not path else self.read_path(st, self.cell(st, cell), path))

    def switch(self, st, fr, s, b, region):
        v = self.operand(st, fr, s[1])
        if not isz(v):
            raise Unsupported("switch on %s" % type(v).__name__)
        conds = []
        rest = []
        for val, t in s[2]:
            if z3.is_bool(v):
                c = v if val != 0 else z3.Not(v)
            else:
                c = v == val
            c = simp(c)
            conds.append((c, t))
            rest.append(z3.Not(c))
        if s[3]:
            conds.append((simp(z3.And(rest)), s[3]))
        symbolic = not any(lit(c) is True for c, _ in conds)
        if region is not None and self.loopstack and not self.loopstack[-1]["decided"]:
            if any(t not in region for _, t in conds if fr.fn.blocks.get(t) != [("unreachable",)]):
                self.loopstack[-1]["decided"] = True
                self.loopstack[-1]["sym"] = symbolic
        for c, t in conds:
            if lit(c) is True:
                return ("goto", st, t)
        live = [(c, t) for c, t in conds if lit(c) is None and fr.fn.blocks.get(t) != [("unreachable",)] and self.feasible(st, c)]
        if len(live) == 1:
            st2 = st.copy()
            st2.assume(live[0][0])
            return ("goto", st2, live[0][1])
        out = []
        for c, t in live:
            s2 = st.copy()
            s2.assume(c)
            out.append((s2, t))
        if not out:
            return ("dead",)
        return ("many", out)

    # ---- loops
    def mir_loop(self, st, fr, head):
        region = fr.fn.loops[head]

        def step(s):
            return self.run(s, fr, head, region, head)
        return self.loop(st, step, "%s/%s" % (short(fr.fn.name), head))

    def loop(self, st0, step, name):
        outs, work, n = [], [st0], 0
        while work:
            st = work.pop()
            n += 1
            if n > 200:
                raise Unsupported("too many iterations of " + name)
            mark, ctr, rec = len(self.obs), self.ctr, self.record
            self.loopstack.append({"decided": False, "sym": False})
            try:
                res = step(st)
                sym = self.loopstack[-1]["sym"]
            finally:
                self.loopstack.pop()
            if sym:
                del self.obs[mark:]
                self.ctr = ctr
                outs += self.summarise(st, step, name)
                continue
            backs = [s for kind, s, info in res if kind == "back"]
            if len(backs) > 1:
                from .loops import join
                backs = join(self, st, backs)
            work += backs
            outs += [r for r in res if r[0] != "back"]
        return outs

    def summarise(self, st0, step, name):
        from .loops import summarise
        return summarise(self, st0, step, name)


class Frame:
    __slots__ = ("fn", "id")

    def __init__(self, fn, id):
        self.fn, self.id = fn, id


class CallInfo:
    def __init__(self, eng, fr, callee, kind, selft, key, full, dst_ty, rest):
        self.eng, self.fr, self.callee, self.kind, self.selft, self.key, self.full, self.dst_ty, self.rest = eng, fr, callee, kind, selft, key, full, dst_ty, rest


def short(name):
    m = re.search(r"<impl at [^>]*>::(\w+)$", name)
    if m:
        return m.group(1)
    return name.split("::")[-1] if "{closure" not in name else "::".join(name.split("::")[-2:])
