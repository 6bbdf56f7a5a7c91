"""Hash maps, reference-counted cells: values and models (assumed contracts of std::collections::HashMap, Rc, RefCell).

A map is a base, given by two functions of the key (is the key present, and its value), and a log of updates.  A lookup walks the log; an
update whose key may or may not be the one looked up gives an if-then-else.  Nothing is bounded: keys are integer terms.
"""
import z3
from .mir import Unsupported
from .core import *


class Base:
    """domf(params, key) -> Bool, valf(params, key) -> value or None"""
    __slots__ = ("name", "params", "domf", "valf")

    def __init__(self, name, params, domf, valf):
        self.name, self.params, self.domf, self.valf = name, tuple(params), domf, valf

    def mapv(self, f):
        n = tuple(f(x) for x in self.params)
        return self if all(a is b for a, b in zip(n, self.params)) else Base(self.name, n, self.domf, self.valf)

    def same(self, b):
        return self is b or (self.name == b.name and len(self.params) == len(b.params) and all(vsame(x, y) for x, y in zip(self.params, b.params)))


EMPTY = Base("empty", (), lambda p, k: FALSE, lambda p, k: None)


class SMap:
    """log entries, oldest first: ("ins", key, value), ("del", key), ("rng", lo, n, j, value) for the keys lo..lo+n-1 (value at lo+j),
    ("cnt", key, n): the vector at key (absent: empty) is extended by n unspecified elements,
    ("sum", k, T, key, n): the same for all k in [0, T), ("ite", c, entries, entries),
    ("img", k, T, key, value): for k = 0 .. T-1, insert value(k) at key(k),
    ("iadd", k, T, key, n): for k = 0 .. T-1, add the integer n, a function of the key, to the value at key(k) (absent: 0),
    ("dec", k, T, key): for k = 0 .. T-1, take 1 off the value at key(k) and remove the key when 0 is reached,
    ("ddel", k, T, key, map): for k = 0 .. T-1, remove key(k) when the same updates remove it from the other map."""
    __slots__ = ("base", "log")

    def __init__(self, base=EMPTY, log=()):
        self.base, self.log = base, tuple(log)

    def __repr__(self):
        return "Map(%s%r)" % (self.base.name, list(self.log))

    def mapv(self, f):
        return SMap(self.base.mapv(f), [maplog(e, f) for e in self.log])

    def same(self, b):
        return isinstance(b, SMap) and self.base.same(b.base) and len(self.log) == len(b.log) and all(esame(x, y) for x, y in zip(self.log, b.log))

    def vite(self, eng, st, c, b):
        if not self.base.same(b.base):
            return Poison("merge of unrelated maps")
        n = 0
        while n < len(self.log) and n < len(b.log) and esame(self.log[n], b.log[n]):
            n += 1
        return SMap(self.base, self.log[:n] + (("ite", c, self.log[n:], b.log[n:]),))

    def read1(self, eng, st, p):
        if p[0] != "m":
            raise Unsupported("projection of a map")
        d, v = lookup(eng, st, self, p[1])
        return v

    def vequal(self, eng, st, b):
        x = eng.const("key")
        da, va = lookup(eng, st, self, x)
        db, vb = lookup(eng, st, b, x)
        if not eng.proved(st, da == db):
            return False
        s = st.copy()
        s.assume(da)
        if va is None or vb is None:
            return not eng.feasible(st, da)
        from .loops import vequal
        return vequal(eng, s, va, vb)

    def write1(self, eng, st, p, rest, new):
        if p[0] != "m":
            raise Unsupported("projection of a map")
        if rest:
            d, v = lookup(eng, st, self, p[1])
            new = eng.write_path(st, v, rest, new)
        return SMap(self.base, self.log + (("ins", p[1], new),))


def maplog(e, f):
    k = e[0]
    if k == "ins":
        return (k, f(e[1]), mapv(e[2], f))
    if k == "del":
        return (k, f(e[1]))
    if k == "rng":
        return (k, f(e[1]), f(e[2]), e[3], mapv(e[4], f))
    if k == "cnt":
        return (k, f(e[1]), f(e[2]))
    if k == "sum":
        return (k, e[1], f(e[2]), f(e[3]), f(e[4]))
    if k == "img":
        return (k, e[1], f(e[2]), f(e[3]), mapv(e[4], f))
    if k == "iadd":
        return (k, e[1], f(e[2]), f(e[3]), f(e[4]))
    if k == "dec":
        return (k, e[1], f(e[2]), f(e[3]))
    if k == "ddel":
        return (k, e[1], f(e[2]), f(e[3]), mapv(e[4], f))
    if k == "ite":
        return (k, f(e[1]), tuple(maplog(x, f) for x in e[2]), tuple(maplog(x, f) for x in e[3]))
    raise Unsupported("map log")


def esame(a, b):
    if a is b:
        return True
    if a[0] != b[0]:
        return False
    k = a[0]
    if k == "ite":
        return vsame(a[1], b[1]) and len(a[2]) == len(b[2]) and len(a[3]) == len(b[3]) and all(esame(x, y) for x, y in zip(a[2], b[2])) and \
            all(esame(x, y) for x, y in zip(a[3], b[3]))
    if k == "rng":
        return vsame(a[1], b[1]) and vsame(a[2], b[2]) and vsame(a[4], subst(b[4], [(b[3], a[3])]))
    if k == "img":
        return vsame(a[2], b[2]) and vsame(a[3], z3.substitute(b[3], (b[1], a[1]))) and vsame(a[4], subst(b[4], [(b[1], a[1])]))
    if k == "ddel":
        return vsame(a[2], b[2]) and vsame(a[3], z3.substitute(b[3], (b[1], a[1]))) and vsame(a[4], b[4])
    if k in ("sum", "iadd", "dec"):
        return vsame(a[2], b[2]) and all(vsame(x, z3.substitute(y, (b[1], a[1]))) for x, y in zip(a[3:], b[3:]))
    return all(vsame(x, y) for x, y in zip(a[1:], b[1:]))


class Summed:
    def __init__(self, nm, f):
        self.nm, self.f = nm, f

    def __call__(self, T):
        return self.f(simp(T))

    def name(self):
        return self.nm


def sum_facts(eng, nm, args):
    f, e, ctx, nonneg = eng.mapsums[nm]
    T = args[-1]
    sub = list(zip(ctx, args[:-1]))
    at = lambda t: z3.substitute(e, (z3.Int("t!sum"), t), *sub)
    g = lambda t: z3.substitute(f(t), *sub) if sub else f(t)
    p = simp(T - 1)
    return [z3.Implies(T == 0, g(T) == 0), z3.Implies(T > 0, g(T) == g(p) + at(p))]


def all_facts(eng, nm, args):
    f, e, ctx, v0 = eng.alls[nm]
    T = args[-1]
    sub = list(zip(ctx, args[:-1]))
    ins = lambda x: z3.substitute(x, *sub) if sub else x
    p = simp(T - 1)
    return [z3.Implies(T == 0, ins(f(T)) == ins(v0)), z3.Implies(T > 0, ins(f(T)) == z3.And(ins(f(p)), ins(z3.substitute(e, (z3.Int("t!all"), p)))))]


def veclen(d, v):
    """The length of the vector at a key, 0 if there is none."""
    if v is None:
        return I(0)
    if not isinstance(v, Seq):
        raise Unsupported("map of vectors")
    return simp(ite(d, v.len(), I(0)))


def lookup(eng, st, m, k):
    """(present, value) of key k; the value is meaningless (possibly None) where the key is absent."""
    if not isz(k) or not z3.is_int(k):
        raise Unsupported("map key of type %s" % type(k).__name__)
    return walk(eng, st, m.log, k, m.base.domf(m.base.params, k), m.base.valf(m.base.params, k))


def keyeq(eng, st, a, b):
    c = simp(a == b)
    if lit(c) is None:
        if eng.proved(st, z3.Not(c)):
            return FALSE
        if eng.proved(st, c):
            return TRUE
    return c


def walk(eng, st, log, k, d, v):
    # start at the last entry that certainly decides the key
    start = 0
    for n in range(len(log) - 1, -1, -1):
        e = log[n]
        if e[0] in ("ins", "del") and lit(keyeq(eng, st, k, e[1])) is True:
            start = n
            break
    for e in log[start:]:
        t = e[0]
        if t == "ite":
            l = lit(e[1])
            if l is None:
                if eng.proved(st, e[1]):
                    l = True
                elif eng.proved(st, z3.Not(e[1])):
                    l = False
            if l is not None:
                d, v = walk(eng, st, e[2] if l else e[3], k, d, v)
                continue
            sa, sb = st.copy(), st.copy()
            sa.assume(e[1])
            sb.assume(z3.Not(e[1]))
            da, va = walk(eng, sa, e[2], k, d, v)
            db, vb = walk(eng, sb, e[3], k, d, v)
            d = simp(ite(e[1], da, db))
            v = va if vb is None else vb if va is None else eng.vite(st, e[1], va, vb)
            continue
        if t == "rng":
            c = simp(z3.And(k >= e[1], k < e[1] + e[2]))
            if lit(c) is None:
                if eng.proved(st, z3.Not(c)):
                    c = FALSE
                elif eng.proved(st, c):
                    c = TRUE
            nv, nd = None, TRUE
            if lit(c) is not False:
                nv = mapv(subst(e[4], [(e[3], simp(k - e[1]))]), simp)
        elif t == "img":
            c, last = image(eng, st, e, k)
            if lit(c) is None:
                if eng.proved(st, z3.Not(c)):
                    c = FALSE
                elif eng.proved(st, c):
                    c = TRUE
            nv, nd = None, TRUE
            if lit(c) is not False:
                nv = mapv(subst(e[4], [(e[1], last)]), simp)
        elif t == "iadd":
            c, n = total(eng, st, e, k)
            v = simp((I(0) if v is None else ite(d, v, I(0))) + n)
            d = simp(z3.Or(d, c))
            continue
        elif t in ("dec", "ddel"):
            n = count_sum(eng, st, e[:4] + (I(1),), k)
            dn, vn = (d, v) if t == "dec" else lookup(eng, st, e[4], k)
            if not isz(vn) or not z3.is_int(vn):
                raise Unsupported("counts of another type")
            if t == "dec":
                v = simp(v - n)
            d = simp(z3.And(d, z3.Not(z3.And(n > 0, dn, vn == n))))
            continue
        elif t == "sum":
            n = count_sum(eng, st, e, k)
            L = veclen(d, v)
            d = simp(z3.Or(d, n > 0))
            v = Seq([Seg(simp(L + n), eng.jvar(), Poison("order of the dependences"))])
            continue
        else:
            c = keyeq(eng, st, k, e[1])
            if t == "ins":
                nv, nd = e[2], TRUE
            elif t == "del":
                nv, nd = v, FALSE
            elif t == "cnt":
                L = veclen(d, v)
                nd = simp(z3.Or(d, e[2] > 0))
                nv = Seq([Seg(simp(L + e[2]), eng.jvar(), Poison("order of the dependences"))])
                if v is None:
                    v = Seq()
            else:
                raise Unsupported("map log")
        l = lit(c)
        if l is False:
            continue
        if l is True:
            d, v = nd, nv
            continue
        d = simp(ite(c, nd, d))
        v = nv if v is None else eng.vite(st, c, nv, v) if nv is not None else v
    return d, v


def count_sum(eng, st, e, x):
    """The number of elements that the iterations k in [0, T) add to the vector at x: n for each k with key(k) = x."""
    _, k, T, key, n = e
    if not has_const(key, {k.decl().name()}):
        return simp(ite(simp(key == x), n * T, I(0)))
    f = eng.counter(k, key)
    return simp(n * f(T, x))


def inverse(eng, k, key):
    """w with key(w(x)) = x wherever x is a key, for keys that are known to be distinct; confirmed by the inductive step of the loop."""
    d = simp(z3.substitute(key, (k, k + 1)) - key)
    if z3.is_int_value(d) and d.as_long() == 1:
        lo = simp(z3.substitute(key, (k, I(0))))
        return lambda x: x - lo
    h = eng.hooks.get("inverse")
    return h(k, key) if h else None


def image(eng, st, e, x):
    """(x is among the keys of the iterations [0, T), the last iteration with that key)"""
    _, k, T, key, _ = e
    w = inverse(eng, k, key)
    if w is not None:
        i = simp(w(x))
        return simp(z3.And(i >= 0, i < T, z3.substitute(key, (k, i)) == x)), i
    if not has_const(key, {k.decl().name()}):
        return simp(z3.And(T > 0, key == x)), simp(T - 1)
    f = eng.counter(k, key)
    return simp(f(T, x) > 0), z3.Function("Last" + f.name(), z3.IntSort(), z3.IntSort(), z3.IntSort())(T, x)


def total(eng, st, e, x):
    """(x is among the keys, the sum added at x by the iterations [0, T))"""
    _, k, T, key, n = e
    if not has_const(key, {k.decl().name()}):
        if has_const(n, {k.decl().name()}):
            raise Unsupported("sum of varying amounts")
        return simp(z3.And(T > 0, key == x)), simp(ite(simp(key == x), n * T, I(0)))
    w = inverse(eng, k, key)
    if w is not None:
        i = simp(w(x))
        c = simp(z3.And(i >= 0, i < T, z3.substitute(key, (k, i)) == x))
        return c, simp(ite(c, z3.substitute(n, (k, i)), I(0)))
    m = simp(z3.substitute(n, (key, x)))
    if has_const(m, {k.decl().name()}):
        raise Unsupported("sum of varying amounts")
    f = eng.counter(k, key)
    return simp(f(T, x) > 0), simp(m * f(T, x))


# ------------------------------------------------------------------ models

def install(eng):
    M = eng.models
    eng.mapcounters = {}

    def counter(k, key):
        """Cnt(T, x) = number of t in [0, T) with key(t) = x, one function for each key expression."""
        kk = z3.substitute(key, (k, z3.Int("t!cnt")))
        for nm, (f, e) in eng.mapcounters.items():
            if e.eq(kk):
                return f
        nm = "Cnt!%d" % len(eng.mapcounters)
        f = z3.Function(nm, z3.IntSort(), z3.IntSort(), z3.IntSort())
        eng.mapcounters[nm] = (f, kk)
        return f
    eng.counter = counter
    eng.mapsums = {}

    def summer(ctx, k, d, nonneg=None):
        """Sum(T) = d(0) + ... + d(T-1), one function for each summand (up to provable equality)."""
        dd = z3.substitute(d, (k, z3.Int("t!sum")))
        for nm, (f, e, c, nn) in eng.mapsums.items():
            if len(c) == len(ctx) and (e.eq(dd) or simp(e - dd).eq(I(0))) and all(x.eq(y) for x, y in zip(c, ctx)):
                return f
        nm = "Sum!%d" % len(eng.mapsums)
        g = z3.Function(nm, *([z3.IntSort()] * (len(ctx) + 2)))
        f = Summed(nm, lambda T: g(*ctx, T))
        eng.mapsums[nm] = (f, dd, tuple(ctx), nonneg)
        return f
    eng.summer = summer
    eng.alls = {}

    def conj(ctx, k, p, v0):
        """All(T) = v0 and p(0) and ... and p(T-1), one function for each condition."""
        pp = z3.substitute(p, (k, z3.Int("t!all")))
        for nm, (f, e, c, v) in eng.alls.items():
            if e.eq(pp) and v.eq(v0) and len(c) == len(ctx) and all(x.eq(y) for x, y in zip(c, ctx)):
                return f
        nm = "All!%d" % len(eng.alls)
        g = z3.Function(nm, *([z3.IntSort()] * (len(ctx) + 1) + [z3.BoolSort()]))
        f = lambda T: g(*ctx, simp(T))
        eng.alls[nm] = (f, pp, tuple(ctx), v0)
        return f
    eng.conj = conj

    def reg(*names):
        def d(f):
            for n in names:
                def g(eng, st, a, info, f=f, n=n):
                    eng.assumed.add(n)
                    return f(eng, st, a, info)
                M[n] = g
            return f
        return d

    def rd(eng, st, v):
        v = eng.deref_read(st, v)
        if not isinstance(v, SMap):
            if isinstance(v, Poison):
                raise Unsupported("value not described by the loop summary: " + v.why)
            raise Unsupported("expected a map, found %s" % type(v).__name__)
        return v

    def opt(d, v):
        l = lit(d)
        if l is False:
            return none()
        if l is True:
            return some(v)
        return Enum("Option", z3.If(d, I(1), I(0)), {0: (), 1: (v,)})

    def decide(eng, st, d):
        if lit(d) is None:
            if eng.proved(st, d):
                return TRUE
            if eng.proved(st, z3.Not(d)):
                return FALSE
        return d

    @reg("HashMap::new", "HashMap::with_capacity", "HashMap::default")
    def _(eng, st, a, info):
        return [(st, SMap())]

    @reg("HashMap::get")
    def _(eng, st, a, info):
        d, v = lookup(eng, st, rd(eng, st, a[0]), eng.deref_read(st, a[1]))
        return [(st, opt(decide(eng, st, d), v))]

    @reg("HashMap::contains_key")
    def _(eng, st, a, info):
        d, v = lookup(eng, st, rd(eng, st, a[0]), eng.deref_read(st, a[1]))
        return [(st, d)]

    @reg("HashMap::get_mut")
    def _(eng, st, a, info):
        k = eng.deref_read(st, a[1])
        d, v = lookup(eng, st, rd(eng, st, a[0]), k)
        if not isinstance(a[0], Ptr):
            raise Unsupported("get_mut")
        return [(st, opt(decide(eng, st, d), Ptr(a[0].cell, a[0].path + (("m", k),))))]

    @reg("HashMap::insert")
    def _(eng, st, a, info):
        m = rd(eng, st, a[0])
        k = a[1]
        if not isz(k) or not z3.is_int(k):
            raise Unsupported("map key of type %s" % type(k).__name__)
        st = st.copy()
        eng.ptr_write(st, a[0], SMap(m.base, m.log + (("ins", k, a[2]),)))
        d, v = lookup(eng, st, m, k)
        return [(st, opt(decide(eng, st, d), v))]

    @reg("HashMap::remove")
    def _(eng, st, a, info):
        m = rd(eng, st, a[0])
        k = eng.deref_read(st, a[1])
        d, v = lookup(eng, st, m, k)
        st = st.copy()
        eng.ptr_write(st, a[0], SMap(m.base, m.log + (("del", k),)))
        return [(st, opt(decide(eng, st, d), v))]

    @reg("HashMap::clear")
    def _(eng, st, a, info):
        st = st.copy()
        rd(eng, st, a[0])
        eng.ptr_write(st, a[0], SMap())
        return [(st, UNIT)]

    @reg("HashMap::entry")
    def _(eng, st, a, info):
        rd(eng, st, a[0])
        return [(st, Agg("HEntry", (a[0], a[1])))]

    def or_insert(eng, st, e, mk):
        p, k = e.f
        m = rd(eng, st, p)
        d, v = lookup(eng, st, m, k)
        d = decide(eng, st, d)
        dst = Ptr(p.cell, p.path + (("m", k),))
        if lit(d) is True:
            return [(st, dst)]
        outs = []
        for s, x in mk(st):
            s = s.copy()
            nv = x if lit(d) is False or v is None else eng.vite(s, d, v, x)
            eng.ptr_write(s, p, SMap(m.base, m.log + (("ins", k, nv),)))
            outs.append((s, dst))
        return outs

    @reg("Entry::or_insert")
    def _(eng, st, a, info):
        return or_insert(eng, st, a[0], lambda s: [(s, a[1])])

    @reg("Entry::or_insert_with")
    def _(eng, st, a, info):
        return or_insert(eng, st, a[0], lambda s: eng.call_closure(s, a[1], []))

    @reg("Entry::or_default")
    def _(eng, st, a, info):
        t = info.dst_ty.args[0] if info.dst_ty.args else info.dst_ty
        z = {"Vec": Seq(), "bool": FALSE, "usize": I(0), "u64": I(0), "u32": I(0)}.get(t.name)
        if z is None:
            raise Unsupported("or_default of " + t.name)
        return or_insert(eng, st, a[0], lambda s: [(s, z)])

    @reg("Entry::and_modify")
    def _(eng, st, a, info):
        p, k = a[0].f
        m = rd(eng, st, p)
        d, v = lookup(eng, st, m, k)
        d = decide(eng, st, d)
        outs = []
        if lit(d) is not True:
            s = st.copy()
            s.assume(z3.Not(d))
            outs.append((s, a[0]))
        if lit(d) is not False:
            s = st.copy()
            s.assume(d)
            for s2, _ in eng.call_closure(s, a[1], [Ptr(p.cell, p.path + (("m", k),))]):
                outs.append((s2, a[0]))
        return outs

    old_index = M.get("Index::index")

    @reg("Index::index")
    def _(eng, st, a, info):
        m = eng.deref_read(st, a[0])
        if not isinstance(m, SMap):
            if old_index is None:
                raise Unsupported("index into %s" % type(m).__name__)
            return old_index(eng, st, a, info)
        d, v = lookup(eng, st, m, eng.deref_read(st, a[1]))
        st = st.copy()
        eng.oblige(st, d, "%s: the indexed map has the key" % fname(info))
        return [(st, v)]

    # ---- Rc, RefCell.  An Rc is the integer identity of its cell; a RefCell is transparent.
    @reg("Rc::new")
    def _(eng, st, a, info):
        st = st.copy()
        n = st.heap.get("next", -100) - 1
        st.heap["next"] = n
        st.heap[n] = a[0]
        return [(st, Agg("Rc", (I(n),)))]

    @reg("RefCell::new")
    def _(eng, st, a, info):
        return [(st, a[0])]

    @reg("Rc::clone")
    def _(eng, st, a, info):
        return [(st, eng.deref_read(st, a[0]))]

    @reg("Rc::ptr_eq")
    def _(eng, st, a, info):
        x, y = eng.deref_read(st, a[0]), eng.deref_read(st, a[1])
        return [(st, simp(x.f[0] == y.f[0]))]

    def concrete(eng, st, r):
        """The heap cell of an Rc, or None for a cell of which only the identity is known."""
        t = simp(r.f[0])
        if z3.is_int_value(t) and t.as_long() in st.heap:
            return t.as_long()
        for n in list(st.heap):
            if isinstance(n, int) and eng.feasible(st, t == n):
                if eng.proved(st, t == n):
                    return n
                raise Unsupported("a cell that may be shared")
        return None

    def flag(st, n):
        return st.heap.get(("flag", n), 0)

    @reg("RefCell::borrow", "RefCell::borrow_mut")
    def _(eng, st, a, info):
        r = eng.deref_read(st, a[0])
        if not isinstance(r, Agg) or r.name != "Rc":
            raise Unsupported("borrow of %s" % type(r).__name__)
        st = st.copy()
        n = concrete(eng, st, r)
        mut = info.key.endswith("mut")
        if n is None:
            if mut:
                raise Unsupported("mutable borrow of an unknown cell")
            return [(st, Agg("Ref", (r,)))]
        f = flag(st, n)
        eng.oblige(st, z3.BoolVal(f == 0 if mut else f >= 0), "%s: the cell is not borrowed" % fname(info))
        st.heap[("flag", n)] = -1 if mut else f + 1
        return [(st, Agg("RefMut" if mut else "Ref", (r,)))]

    def content(eng, st, r):
        n = concrete(eng, st, r)
        if n is None:
            return eng.hooks["cell"](eng, st, r.f[0])
        return st.heap[n]

    old_deref = M.get("Deref::deref")
    old_deref_mut = M.get("DerefMut::deref_mut")

    @reg("Deref::deref")
    def _(eng, st, a, info):
        v = eng.deref_read(st, a[0])
        if isinstance(v, Agg) and v.name == "Rc":
            return [(st, v)]
        if isinstance(v, Agg) and v.name in ("Ref", "RefMut"):
            return [(st, content(eng, st, v.f[0]))]
        if old_deref is None:
            raise Unsupported("deref of %s" % type(v).__name__)
        return old_deref(eng, st, a, info)

    @reg("DerefMut::deref_mut")
    def _(eng, st, a, info):
        v = eng.deref_read(st, a[0])
        if isinstance(v, Agg) and v.name == "RefMut":
            return [(st, Ptr(("h", concrete(eng, st, v.f[0])), ()))]
        if old_deref_mut is None:
            raise Unsupported("deref of %s" % type(v).__name__)
        return old_deref_mut(eng, st, a, info)

    def drop(eng, st, v):
        if isinstance(v, Agg) and v.name in ("Ref", "RefMut"):
            n = concrete(eng, st, v.f[0])
            if n is not None:
                st.heap[("flag", n)] = 0 if v.name == "RefMut" else flag(st, n) - 1
    old = eng.hooks.get("drop")

    def both(eng, st, v):
        drop(eng, st, v)
        if old:
            old(eng, st, v)
    eng.hooks["drop"] = both


def fname(info):
    return short(info.fr.fn.name) if info.fr else "?"

