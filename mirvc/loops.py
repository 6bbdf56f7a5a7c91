"""Loops: the state at the start of iteration k is described exactly, as a function of k.

An integer that grows by a constant is v0 + d*k, a vector to which every iteration appends is its initial part followed by a segment given
elementwise, and a variable overwritten in every iteration has its initial value for k = 0 and the value computed by iteration k-1 otherwise.
The description is computed by iterating the body symbolically and is confirmed by a last pass over the body: started at the description
for k, the body must end at the description for k + 1.  This is an inductive invariant, found automatically; the obligations of the body are
then discharged for an arbitrary k.  Whatever has another shape is poisoned, and reading it is reported as outside the verifier's reach.
"""
import z3
from .mir import Unsupported
from .core import *
from .maps import SMap, Base, lookup, esame, veclen


class Form:
    __slots__ = ("kind", "v0", "x", "names")

    def __init__(self, kind, v0, x=None, names=()):
        self.kind, self.v0, self.x, self.names = kind, v0, x, names

    def same(self, o):
        if self.kind != o.kind:
            return False
        if self.kind in ("fresh", "poison", "inv"):
            return True
        if isinstance(self.x, (list, tuple)):
            return len(self.x) == len(o.x) and all(vsame(a, b) for a, b in zip(self.x, o.x))
        return vsame(self.x, o.x)


def children(v):
    if isinstance(v, (Agg, It)):
        return [(("f", i), x) for i, x in enumerate(v.f)]
    if isinstance(v, Enum) and not isz(v.tag):
        return [(("p", v.tag, i), x) for i, x in enumerate(v.pay.get(v.tag, ()))]
    return None


def diffs(a, b, path, out):
    if a is b or vsame(a, b):
        return
    ca, cb = children(a), children(b)
    if ca and cb and type(a) is type(b) and len(ca) == len(cb) and [p for p, _ in ca] == [p for p, _ in cb] and \
            (a.kind == b.kind if isinstance(a, It) else a.name == b.name):
        for (p, x), (_, y) in zip(ca, cb):
            diffs(x, y, path + (p,), out)
        return
    out[path] = (a, b)


def getp(v, sub):
    for p in sub:
        if isinstance(v, (Agg, It)):
            v = v.f[p[1]]
        elif isinstance(v, Enum):
            if p[1] not in v.pay:
                return UNDEF
            v = v.pay[p[1]][p[2]]
        else:
            return UNDEF
    return v


def setp(v, sub, new):
    if not sub:
        return new
    p = sub[0]
    if isinstance(v, (Agg, It)):
        f = list(v.f)
        f[p[1]] = setp(f[p[1]], sub[1:], new)
        return Agg(v.name, f) if isinstance(v, Agg) else It(v.kind, f)
    if isinstance(v, Enum):
        pay = dict(v.pay)
        xs = list(pay[p[1]])
        xs[p[2]] = setp(xs[p[2]], sub[1:], new)
        pay[p[1]] = tuple(xs)
        return Enum(v.name, v.tag, pay)
    raise Unsupported("loop state")


def root(st, r):
    if r[0] == "h":
        return st.heap.get(r[1], 0 if isinstance(r[1], tuple) and r[1][0] == "flag" else UNDEF)       # a cell that was never borrowed
    return st.cells.get(r[1], UNDEF)


def setroot(st, r, v):
    if r[0] == "h":
        st.heap[r[1]] = v
    else:
        st.cells[r[1]] = v


def state_diffs(a, b):
    out = {}
    for r in [("c", x) for x in set(a.cells) | set(b.cells)] + [("h", x) for x in set(a.heap) | set(b.heap)]:
        diffs(root(a, r), root(b, r), (r,), out)
    return out


def opaque(eng, shape, j, names):
    """A value of the same shape with unknown leaves depending on j."""
    def f(t):
        n = eng.name("leaf")
        names.append(n)
        return z3.Function(n, z3.IntSort(), t.sort())(j)
    if isinstance(shape, Seq):
        n = eng.name("leaf")
        names.append(n)
        nn = eng.name("leaf")
        names.append(nn)
        return Poison("nested sequence")
    if isinstance(shape, (Agg, It)):
        return type(shape)(shape.name if isinstance(shape, Agg) else shape.kind, [opaque(eng, x, j, names) for x in shape.f])
    if isz(shape):
        return f(shape)
    if isinstance(shape, (Obj, Ptr, Tok)):
        return shape
    return Poison("opaque element")


def append_elems(segs):
    """The appended elements as a list of values, or None if their number is not a literal."""
    es = []
    for s in segs:
        if not z3.is_int_value(s.n):
            return None
        for i in range(s.n.as_long()):
            es.append(s.at(I(i)))
    return es


def added_segs(a, b):
    if len(b.segs) < len(a.segs):
        return None
    for x, y in zip(a.segs, b.segs):
        if not segsame(x, y):
            return None
    return b.segs[len(a.segs):]


def value(eng, st, f, k):
    if f.kind == "lin":
        return simp(f.v0 + f.x * k)
    if f.kind == "fresh":
        return f.x
    if f.kind == "sum":
        ctx = [c for c in st.ctx if not c.eq(k) and not c.eq(f.names) and has_const(f.x, {c.decl().name()})]
        return simp(f.v0 + eng.summer(ctx, f.names, f.x)(k))
    if f.kind == "conj":
        return eng.conj([c for c in st.ctx if not c.eq(k) and not c.eq(f.names) and has_const(f.x, {c.decl().name()})], f.names, f.x, f.v0)(k)
    if f.kind == "maprngs":
        n, e, _ = f.x
        j = eng.jvar()
        lo0, lo = (z3.substitute(f.x[2], (f.names, x)) for x in (I(0), k))
        return SMap(f.v0.base, f.v0.log + (("rng", simp(lo0), simp(lo - lo0), j, subst(e, [(n, simp(lo0 + j))])),))
    if f.kind == "poison":
        return Poison(f.x or "loop")
    kk = f.names
    if f.kind == "last":
        e = subst(f.x, [(kk, k - 1)])
        if vsame(f.v0, f.x):
            return f.v0
        s2 = st.copy()
        return mapv(eng.vite(s2, simp(k == 0), f.v0, e), simp)
    if f.kind == "app":
        es = f.x
        d = len(es)
        j = eng.jvar()
        if d == 1:
            e = subst(es[0], [(kk, j)])
        else:
            e = subst(es[-1], [(kk, j / d)])
            for i in range(d - 2, -1, -1):
                e = eng.vite(st, j % d == i, subst(es[i], [(kk, j / d)]), e)
        return Seq(f.v0.segs + (Seg(simp(k * d), j, e),))
    if f.kind == "appseq":
        # every iteration appends a sequence of fixed length m
        m, jj, e = f.x
        j = eng.jvar()
        return Seq(f.v0.segs + (Seg(simp(k * m), j, subst(e, [(kk, j / m), (jj, j % m)])),))
    if f.kind == "maprng":
        key0, e = f.x
        j = eng.jvar()
        return SMap(f.v0.base, f.v0.log + (("rng", key0, k, j, subst(e, [(kk, j)])),))
    if f.kind == "mapcnt":
        key, n = f.x
        j = eng.jvar()
        return SMap(f.v0.base, f.v0.log + (("sum", j, k, subst(key, [(kk, j)]), n),))
    if f.kind == "mapscale":
        n, key, m = f.x
        j = eng.jvar()
        return SMap(f.v0.base, f.v0.log + (("sum", j, n, subst(key, [(z3.Int("j!scale"), j)]), simp(k * m)),))
    if f.kind in ("mapimg", "mapiadd"):
        key, e = f.x
        j = eng.jvar()
        return SMap(f.v0.base, f.v0.log + ((f.kind[3:], j, k, subst(key, [(kk, j)]), subst(e, [(kk, j)])),))
    if f.kind == "mapdec":
        j = eng.jvar()
        return SMap(f.v0.base, f.v0.log + (("dec", j, k, subst(f.x, [(kk, j)])),))
    if f.kind == "mapddel":
        key, other = f.x
        j = eng.jvar()
        return SMap(f.v0.base, f.v0.log + (("ddel", j, k, subst(key, [(kk, j)]), other),))
    if f.kind == "inv":
        eng.invctx = tuple(c for c in st.ctx if not c.eq(k) and not c.eq(f.names))
        return eng.hooks["inv"].value(eng, f, k)
    raise Unsupported("loop form")


def build(eng, st0, forms, k):
    st = st0.copy()
    st.ctx = st0.ctx + (k,)
    st.assume(k >= 0)
    for path in sorted(forms, key=lambda p: (len(p), str(p))):
        f = forms[path]
        r, sub = path[0], path[1:]
        setroot(st, r, setp(root(st, r), sub, value(eng, st, f, k)))
    return st


def merge(eng, base, sts):
    """Merges several states at the back edge; returns (state, condition of the iteration)."""
    if len(sts) == 1:
        return sts[0], list(sts[0].pc[len(base.pc):])
    adds = [list(s.pc[len(base.pc):]) for s in sts]
    common = []
    while all(adds) and all(a[0].eq(adds[0][0]) for a in adds):
        common.append(adds[0][0])
        adds = [a[1:] for a in adds]
    conds = [z3.And(a) if a else TRUE for a in adds]
    out = sts[-1].copy()
    out.pc = base.pc + tuple(common)
    out.q = base.q
    for s, c in list(zip(sts, conds))[-2::-1]:
        c = simp(c)
        D = state_diffs(s, out)
        for path, (a, b) in D.items():
            setroot(out, path[0], setp(root(out, path[0]), path[1:], eng.vite(out, c, a, b)))
    allc = simp(z3.Or(conds))
    if lit(allc) is not True and not eng.proved(out, allc):
        out.assume(allc)
        common = common + [allc]
    return out, common


def join(eng, base, sts):
    """One state for several that differ only in numbers and truth values, else the states."""
    def scalar(v):
        return isz(v)
    sts = [s.copy() for s in sts]
    D = [state_diffs(s, sts[-1]) for s in sts[:-1]]
    for d in D:
        for p in [p for p, (a, b) in d.items() if len(p) == 1 and any(isinstance(x, (Undef, Poison)) for x in (a, b))]:
            # set on some paths only
            for s in sts:
                setroot(s, p[0], Poison("set on some paths only"))
    D = [state_diffs(s, sts[-1]) for s in sts[:-1]]
    if any(not all(scalar(a) and scalar(b) and a.sort() == b.sort() for a, b in d.values()) for d in D):
        return sts
    if any(s.ctx != base.ctx or len(s.q) != len(base.q) for s in sts):
        return sts
    try:
        return [merge(eng, base, sts)[0]]
    except Unsupported:
        return sts


def has_fn(t, a):
    """a occurs in t"""
    seen, work = set(), [t]
    while work:
        y = work.pop()
        if y.eq(a):
            return True
        if y.get_id() not in seen:
            seen.add(y.get_id())
            work.extend(y.children())
    return False


def ite_diff(b, a):
    """b - a, where b may differ from path to path."""
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
        return simp(z3.If(b.arg(0), ite_diff(b.arg(1), a), ite_diff(b.arg(2), a)))
    return simp(b - a)


def no_overflow(t, fresh):
    """t where comparisons with unknown values in the conditions that distinguish the paths hold (a guess)."""
    at, work, seen = {}, [t], set()
    while work:
        y = work.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_bool(y) and y.num_args() == 2 and z3.is_int(y.arg(0)) and has_const(y, fresh):
            at[y.get_id()] = y
        else:
            work.extend(y.children())
    return simp(z3.substitute(t, *[(y, TRUE) for y in at.values()])) if at else t


def classify(eng, f0, v0, a, b, k, fresh):
    """The form of a leaf with initial value v0, value a at the start of iteration k and b at its end; None if not known yet."""
    kn = {k.decl().name()}
    if f0 is not None and f0.kind == "inv":
        return f0
    if isinstance(v0, (Undef, Poison)) or isinstance(b, (Undef, Poison)):
        return Form("poison", v0, "not defined on every iteration")
    if isz(b) and isz(v0) and z3.is_int(b) and isz(a):
        d = ite_diff(b, a)
        if f0 is not None and f0.kind == "sum" and not has_const(f0.x, fresh) and z3.is_app_of(b, z3.Z3_OP_ITE) and eng.proved(eng.loopstate, b == a + f0.x):
            return f0
        if has_const(d, fresh) and z3.is_app_of(b, z3.Z3_OP_ITE):
            e = no_overflow(d, fresh)
            if not has_const(e, fresh) and eng.proved(eng.loopstate, b == a + e):
                d = e
        if not has_const(d, kn | fresh):
            return Form("lin", v0, d)
        if not has_const(d, fresh) and z3.is_int(d) and (f0 is None or f0.kind in ("fresh", "sum")) and getattr(eng, "summer", None):
            return Form("sum", v0, d, k)
    if isz(b) and isz(v0) and z3.is_bool(b) and isz(a) and (f0 is None or f0.kind in ("fresh", "conj")) and hasattr(eng.theory, "extra") and b.get_id() != a.get_id():
        hi, lo = (simp(z3.substitute(b, (a, x))) for x in (TRUE, FALSE))
        if not has_const(hi, fresh) and lit(lo) is False and lit(hi) is None and has_fn(b, a):
            return Form("conj", v0, hi, k)
    if isinstance(b, Seq) and isinstance(v0, Seq) and isinstance(a, Seq):
        ad = added_segs(a, b)
        if ad is not None and (f0 is None or f0.kind in ("fresh", "app", "appseq")):
            es = append_elems(ad)
            if es is not None:
                if any(vhas(e, fresh) for e in es):
                    return None
                return Form("app", v0, es, k)
            if len(ad) == 1 and not has_const(ad[0].n, kn | fresh):
                if vhas(ad[0].e, fresh):
                    return None
                return Form("appseq", v0, (ad[0].n, ad[0].v, ad[0].e), k)
            if all(not vhas(s.e, fresh) for s in ad):
                return Form("poison", v0, "sequence growing by a varying amount")
            return None
    if isinstance(v0, SMap):
        return classify_map(eng, f0, v0, a, b, k, fresh)
    if vhas(b, fresh):
        return None
    return Form("last", v0, b, k)


def entry_keys(es, out):
    for e in es:
        if e[0] == "ite":
            entry_keys(e[2], out)
            entry_keys(e[3], out)
        elif e[0] in ("ins", "cnt"):
            out.append((e[1], e[2] if e[0] == "cnt" else I(1)))
        elif e[0] == "sum" and not has_const(e[3], {e[1].decl().name()}):
            out.append((e[3], simp(e[2] * e[4])))
        else:
            out.append(None)
    return out


def classify_map(eng, f0, v0, a, b, k, fresh):
    kn = {k.decl().name()}
    if not isinstance(a, SMap) or not isinstance(b, SMap) or not a.base.same(b.base) or len(b.log) < len(a.log) or \
            not all(esame(x, y) for x, y in zip(a.log, b.log)) or (f0 is not None and f0.kind not in ("fresh", "maprng", "mapcnt", "mapimg", "mapiadd", "mapdec", "mapddel", "maprngs", "mapscale")):
        return Form("poison", v0, "map rewritten by the loop")
    es = b.log[len(a.log):]
    if len(es) == 1 and es[0][0] == "ins" and not has_const(es[0][1], fresh) and not vhas(es[0][2], fresh):
        key, e = es[0][1], es[0][2]
        if z3.is_int_value(simp(z3.substitute(key, (k, k + 1)) - key)) and simp(z3.substitute(key, (k, k + 1)) - key).as_long() == 1:
            return Form("maprng", v0, (simp(z3.substitute(key, (k, I(0)))), e), k)
    f = ranges(eng, f0, v0, es, k, fresh)
    if f is not None:
        return f if isinstance(f, Form) else None
    f = int_map(eng, f0, v0, a, b, es, k, fresh)
    if f is not None:
        return f
    if len(es) == 1 and es[0][0] == "ins" and not has_const(es[0][1], fresh) and not isinstance(es[0][2], Seq) and vhas(es[0][2], fresh):
        return None         # the value is not described yet
    f = count_down(eng, v0, a, b, es, k, fresh)
    if f is not None:
        return f if isinstance(f, Form) else None
    if len(es) == 1 and es[0][0] == "sum" and all(not has_const(t, kn | fresh) for t in es[0][2:]):
        # every iteration adds the same counts
        _, j, n, key, m = es[0]
        jj = z3.Int("j!scale")
        return Form("mapscale", v0, (n, subst(key, [(j, jj)]), m), k)
    keys = entry_keys(es, [])
    if any(x is None for x in keys) or any(has_const(x[0], fresh) for x in keys):
        return None if any(vhas(x, fresh) for x in (y[0] for y in keys if y)) else Form("poison", v0, "map updates of another shape")
    x = eng.const("key")
    st = State()
    st.assume(k >= 0)
    try:
        da, va = lookup(eng, st, a, x)
        db, vb = lookup(eng, st, b, x)
        la, lb = veclen(da, va), veclen(db, vb)
    except Unsupported:
        return Form("poison", v0, "map updates of another shape")
    for key, n in keys:
        if has_const(n, kn | fresh):
            continue
        if eng.proved(st, z3.And(lb - la == z3.If(x == key, n, 0), db == z3.Or(da, z3.And(x == key, n > 0)))):
            return Form("mapcnt", v0, (key, n), k)
    return Form("poison", v0, "map updates of another shape")


def ranges(eng, f0, v0, es, k, fresh):
    """Every iteration inserts a range of keys that starts where the last one ended.  True: not known yet."""
    if len(es) != 1 or es[0][0] != "rng":
        return None
    _, lo, n, j, e = es[0]
    if has_const(lo, fresh) or has_const(n, fresh) or vhas(e, fresh):
        return True
    st = eng.loopstate
    nxt = simp(z3.substitute(lo, (k, k + 1)))
    if not (simp(nxt - lo - n).eq(I(0)) or eng.proved(st, nxt == lo + n)):
        return None
    key = z3.Int("key!range")
    e = mapv(subst(e, [(j, key - lo)]), simp)
    if vhas(e, {k.decl().name()}):
        return None
    return Form("maprngs", v0, (key, e, lo), k)


def ins_keys(es, out):
    for e in es:
        if e[0] == "ite":
            if not ins_keys(e[2], out) or not ins_keys(e[3], out):
                return False
        elif e[0] == "ins":
            out.append(e[1])
        else:
            return False
    return True


def touched(es, out):
    for e in es:
        if e[0] == "ite":
            if not touched(e[2], out) or not touched(e[3], out):
                return False
        elif e[0] in ("ins", "del"):
            out.append(e)
        else:
            return False
    return True


def count_down(eng, v0, a, b, es, k, fresh):
    """One key per iteration, whose count goes down by one and which is removed at zero, here or in another map.  True: not known yet."""
    out = []
    if not touched(es, out) or not any(e[0] == "del" for e in out) or not all(e[1].eq(out[0][1]) for e in out):
        return None
    if has_const(out[0][1], fresh):
        return True
    key, st = out[0][1], eng.loopstate.copy()
    try:
        da, va = lookup(eng, st, a, key)
        db, vb = lookup(eng, st, b, key)
    except Unsupported:
        return None
    if isz(va) and isz(vb) and z3.is_int(va) and z3.is_int(vb):
        if eng.proved(st, z3.And(da, db == (va != 1), z3.Implies(db, vb == va - 1))):
            return Form("mapdec", v0, key, k)
        return None
    if any(e[0] == "ins" for e in out):
        return None
    for p, f in eng.loopforms.items():
        if f.kind == "mapdec" and f.x.eq(key):
            an, bn = (getp(root(s, p[0]), p[1:]) for s in (eng.loopsk, eng.loopstate))
            d0, _ = lookup(eng, st, an, key)
            d1, _ = lookup(eng, st, bn, key)
            if eng.proved(st, db == z3.And(da, z3.Not(z3.And(d0, z3.Not(d1))))):
                return Form("mapddel", v0, (key, f.v0), k)
    return True


def drop_fresh(t, fresh):
    """t with the conjuncts about unknown values dropped from the conditions of its if-then-elses: the conditions that distinguish the paths
    of an iteration contain what is known on them, such as the absence of overflow."""
    if not z3.is_app(t) or not has_const(t, fresh):
        return t
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        cs = c.children() if z3.is_and(c) else [c]
        keep = [x for x in cs if not has_const(x, fresh)]
        if keep:
            return simp(z3.If(z3.And(keep), drop_fresh(a, fresh), drop_fresh(b, fresh)))
    return t


def int_map(eng, f0, v0, a, b, es, k, fresh):
    """One key per iteration, whose value is set or to whose value something is added."""
    keys = []
    if (f0 is not None and f0.kind == "mapcnt") or not es or not ins_keys(es, keys) or not all(x.eq(keys[0]) for x in keys) or has_const(keys[0], fresh):
        return None
    key = keys[0]
    st = eng.loopstate.copy()
    try:
        da, va = lookup(eng, st, a, key)
        db, vb = lookup(eng, st, b, key)
    except Unsupported:
        return None
    if vb is None or not eng.proved(st, db):
        return None
    if isz(vb) and z3.is_int(vb) and (va is None or isz(va)) and (f0 is None or f0.kind != "mapimg"):
        old = I(0) if va is None else simp(ite(da, va, I(0)))
        # the amount added: the value where the old one is 0
        n = vb
        if va is not None:
            n = simp(z3.substitute(z3.substitute(vb, (old, I(0))), (va, I(0)), (da, TRUE)))
        n = drop_fresh(n, fresh)
        for n in (f0.x[1] if f0 is not None and f0.kind == "mapiadd" else None, n):
            if n is not None and not has_const(n, fresh) and eng.proved(st, vb == old + n):
                return Form("mapiadd", v0, (key, n), k)
    if not isinstance(vb, Seq) and not vhas(vb, fresh) and (f0 is None or f0.kind != "mapiadd"):
        return Form("mapimg", v0, (key, vb), k)
    return None


def summarise(eng, st0, step, name):
    k = z3.Int("k!%d!%s" % (len(st0.ctx), eng.name("it")))

    def ff(*a):
        eng.loopvar = k
        return fresh_form(*a)
    eng.loopnames = dict(getattr(eng, "loopnames", {}), **{k.decl().name(): name})
    ctr = eng.ctr
    rec = eng.record
    eng.record = False
    mark = len(eng.obs)
    forms, cls = {}, {}

    def run(st):
        eng.ctr = ctr
        eng.loopstack.append({"decided": True, "sym": True})
        try:
            return step(st)
        finally:
            eng.loopstack.pop()
    try:
        # discovery of what the body modifies
        res = run(st0)
        backs = [s for kd, s, _ in res if kd == "back"]
        if not backs:
            eng.record = rec
            return run(st0)
        eng.backs = backs
        m, _ = merge(eng, st0, backs)
        D = state_diffs(st0, m)
        stale = 0
        for ps in range(14):
            new = dict(forms)
            if ps == 0:
                for path, (a, b) in D.items():
                    new[path] = ff(eng, ps, path, a, b)
            else:
                fresh = set()
                for f in forms.values():
                    if f.kind == "fresh":
                        fresh |= set(f.names)
                waiting, progress = [], False
                for path in set(D) | set(forms):
                    pre = next((p for p in forms if len(p) < len(path) and path[:len(p)] == p), None)
                    if pre is not None:
                        continue
                    sup = [p for p in forms if len(p) > len(path) and p[:len(path)] == path]
                    v0 = getp(root(st0, path[0]), path[1:])
                    a = getp(root(sk, path[0]), path[1:])
                    b = getp(root(m, path[0]), path[1:])
                    f0 = forms.get(path)
                    if sup:
                        for p in sup:
                            new.pop(p, None)
                    if f0 is not None and f0.kind == "poison":
                        continue
                    if f0 is None:
                        new[path] = ff(eng, ps, path, v0, b) if not sup else Form("poison", v0, "changing structure")
                        progress = True
                        continue
                    eng.loopstate, eng.loopsk, eng.loopforms = m, sk, forms
                    f = classify(eng, f0, v0, a, b, k, fresh)
                    if f is None:
                        waiting.append(path)
                        if f0.kind != "fresh":
                            new[path] = ff(eng, ps, path, v0, b)
                        continue
                    if not f.same(f0):
                        progress = True
                    new[path] = f
                if not progress:
                    if not waiting:
                        break
                    for path in waiting:
                        new[path] = Form("poison", None, "recurrence of %s" % (path,))
            forms = new
            eng.ctr = ctr + 2000 * (ps + 1) if False else ctr
            sk = build(eng, st0, forms, k)
            res = run_build(eng, run, sk)
            backs = [s for kd, s, _ in res if kd == "back"]
            if not backs:
                raise Unsupported("loop without a second iteration: " + name)
            eng.backs = backs
            m, _ = merge(eng, sk, backs)
            D = state_diffs(sk, m)
        else:
            raise Unsupported("the summary of loop %s does not converge" % name)
    finally:
        eng.record = rec
        del eng.obs[mark:]
    # final pass, recording the obligations
    sk = build(eng, st0, forms, k)
    res = run_build(eng, run, sk)
    backs = [s for kd, s, _ in res if kd == "back"]
    m, added = merge(eng, sk, backs)
    # confirmation: the end of iteration k is the description for k + 1
    eng.backs = backs
    check_step(eng, st0, forms, k, m, name)
    return exits(eng, st0, sk, res, backs, m, added, k, name, forms)


def run_build(eng, run, sk):
    return run(sk)


def fresh_form(eng, ps, path, v0, b):
    names = []
    h = eng.hooks.get("inv")
    if h is not None:
        x = h.owns(path, v0, [getp(root(t, path[0]), path[1:]) for t in eng.backs])
        if x is not None:
            return Form("inv", v0, x, eng.loopvar)
    if isinstance(v0, (Undef, Poison)) or isinstance(b, (Undef, Poison)):
        return Form("poison", v0, "not defined on every iteration")
    if isz(v0) and isz(b) and v0.sort() == b.sort():
        n = "leaf!%d!%s" % (ps, eng.name("f"))
        return Form("fresh", v0, z3.Const(n, v0.sort()), (n,))
    if isinstance(v0, Seq) and isinstance(b, Seq):
        n = "leaf!%d!%s" % (ps, eng.name("n"))
        names.append(n)
        ln = z3.Int(n)
        j = eng.jvar()
        ad = added_segs(v0, b)
        shape = ad[0].e if ad else (b.segs[0].e if b.segs else None)
        e = opaque(eng, shape, j, names) if shape is not None else Poison("empty")
        sg = Seg(ln, j, e)
        return Form("fresh", v0, Seq(v0.segs + (sg,)) if ad is not None else Seq((sg,)), tuple(names))
    if isinstance(v0, Enum) and isinstance(b, Enum) and v0.name == b.name:
        pay = dict(b.pay)
        pay.update(v0.pay)
        n = "leaf!%d!%s" % (ps, eng.name("t"))
        names.append(n)
        p2 = {}
        for kk, xs in pay.items():
            p2[kk] = tuple(opaque(eng, x, I(0), names) for x in xs)
        return Form("fresh", v0, Enum(v0.name, z3.Int(n), p2), tuple(names))
    if isinstance(v0, SMap) and isinstance(b, SMap) and v0.base.same(b.base):
        return fresh_map(eng, ps, v0, b)
    if not isinstance(b, (Agg, It, Seq, Enum)) and type(v0) is type(b):
        return Form("poison", v0, "changing " + type(b).__name__)
    return Form("poison", v0, "changing structure")


def fresh_map(eng, ps, v0, b):
    """An unknown map with values of the same shape."""
    def sample(es):
        for e in es:
            if e[0] == "ins":
                return e[2]
            if e[0] == "rng":
                return e[4]
            if e[0] in ("cnt", "sum"):
                return Seq()
            if e[0] == "ite":
                r = sample(e[2])
                r = sample(e[3]) if r is None else r
                if r is not None:
                    return r
        return None
    shape = sample(b.log)
    n = "leaf!%d!%s" % (ps, eng.name("m"))
    names = [n]
    dom = z3.Function(n, z3.IntSort(), z3.BoolSort())
    if isinstance(shape, Seq):
        nl = "leaf!%d!%s" % (ps, eng.name("l"))
        names.append(nl)
        ln = z3.Function(nl, z3.IntSort(), z3.IntSort())
        j = eng.jvar()
        val = lambda p, key: Seq([Seg(ln(key), j, Poison("elements of a map of vectors in a loop"))])
    else:
        kv = z3.Int(eng.name("key"))
        e = opaque(eng, shape, kv, names) if shape is not None else Poison("value of a map in a loop")
        val = lambda p, key: subst(e, [(kv, key)])
    return Form("fresh", v0, SMap(Base(n, (), lambda p, key: dom(key), val)), tuple(names))


def check_step(eng, st0, forms, k, m, name):
    ctr = eng.ctr
    eng.ctr = 10 ** 7 + len(st0.ctx) * 10 ** 5
    s1 = build(eng, st0, forms, simp(k + 1))
    eng.ctr = ctr
    if any(f.kind == "inv" for f in forms.values()):
        eng.hooks["inv"].check(eng, st0, forms, k, eng.backs, name)
    for path, f in forms.items():
        if f.kind in ("poison", "inv"):
            continue
        want = getp(root(s1, path[0]), path[1:])
        got = getp(root(m, path[0]), path[1:])
        if not vequal(eng, m, want, got):
            raise Unsupported("the summary of loop %s is not confirmed at %s" % (name, path))


def vequal(eng, st, a, b):
    """Provably equal values."""
    if vsame(a, b):
        return True
    if isz(a) and isz(b):
        return eng.proved(st, a == b)
    if isinstance(a, Enum) and isinstance(b, Enum):
        ta = a.tag if isz(a.tag) else I(a.tag)
        tb = b.tag if isz(b.tag) else I(b.tag)
        if not eng.proved(st, ta == tb):
            return False
        for kk in set(a.pay) | set(b.pay):
            s2 = st.copy()
            s2.assume(ta == kk)
            if not eng.feasible(st, ta == kk):
                continue
            if len(a.pay.get(kk, ())) != len(b.pay.get(kk, ())) or not all(vequal(eng, s2, x, y) for x, y in zip(a.pay.get(kk, ()), b.pay.get(kk, ()))):
                return False
        return True
    if isinstance(a, (Agg, It)) and type(a) is type(b) and len(a.f) == len(b.f):
        return all(vequal(eng, st, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Seq) and isinstance(b, Seq):
        la, lb = a.len(), b.len()
        if not (simp(la).eq(simp(lb)) or eng.proved(st, la == lb)):
            return False
        # elementwise, at an arbitrary position
        j = z3.Int("j!eq!%d" % eng.ctr)
        s2 = st.copy()
        s2.assume(j >= 0, j < la)
        return split_equal(eng, s2, a, b, j)
    m = getattr(a, "vequal", None)
    if m:
        return m(eng, st, b)
    return False


def split_equal(eng, st, a, b, j):
    """Elementwise equality, separately for each pair of overlapping segments."""
    offs = []
    for s in (a, b):
        o, off = [], I(0)
        for g in s.segs:
            o.append((off, simp(off + g.n), g))
            off = simp(off + g.n)
        offs.append(o)
    for lo, hi, g in offs[0]:
        for lo2, hi2, h in offs[1]:
            c = z3.And(j >= lo, j < hi, j >= lo2, j < hi2)
            if not eng.feasible(st, c):
                continue
            s2 = st.copy()
            s2.assume(c)
            if not vequal(eng, s2, mapv(g.at(simp(j - lo)), simp), mapv(h.at(simp(j - lo2)), simp)):
                return False
    return True


def trip_bound(eng, st, c, k):
    """R such that c(k) holds iff k < R, for a condition linear in k."""
    neg = False
    while z3.is_not(c):
        neg = not neg
        c = c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    x, y = c.arg(0), c.arg(1)
    n = c.decl().kind()
    if not z3.is_int(x):
        return None
    if n == z3.Z3_OP_LE:
        D = (y - x + 1) if not neg else (x - y)
    elif n == z3.Z3_OP_GE:
        D = (x - y + 1) if not neg else (y - x)
    elif n == z3.Z3_OP_LT:
        D = (y - x) if not neg else (x - y + 1)
    elif n == z3.Z3_OP_GT:
        D = (x - y) if not neg else (y - x + 1)
    elif n == z3.Z3_OP_EQ and neg:
        # x != y, approached by steps of one
        for D in (y - x, x - y):
            sl = simp(z3.substitute(D, (k, k + 1)) - D)
            if z3.is_int_value(sl) and sl.as_long() == -1:
                R = simp(z3.substitute(D, (k, I(0))))
                if eng.proved(st, R >= 0):
                    return R
        return None
    else:
        return None
    # c <=> D(k) > 0
    sl = simp(z3.substitute(D, (k, k + 1)) - D)
    if not z3.is_int_value(sl) or sl.as_long() >= 0:
        return None
    d = -sl.as_long()
    R = simp(z3.substitute(D, (k, I(0))))
    return R if d == 1 else simp((R + (d - 1)) / d)


def at_index(eng, s, sk, k, T, st0):
    """The state s (of iteration k) with k := T, outside the loop."""
    out = s.copy()
    out.ctx = st0.ctx
    pairs = [(k, T)]
    base = st0.copy()
    base.assume(T >= 0)
    pre = None
    if eng.proved(base, T >= 1):
        pre = False
    elif eng.proved(base, T == 0):
        pre = True

    def f(t):
        if not has_const(t, {k.decl().name()}):
            return t
        if pre is not None:
            t = z3.substitute(t, (k == 0, z3.BoolVal(pre)))
        return simp(z3.substitute(t, (k, T)))
    out.cells = {c: mapv(v, f) for c, v in s.cells.items()}
    out.heap = {c: mapv(v, f) for c, v in s.heap.items()}
    out.pc = st0.pc + tuple(f(c) for c in s.pc[len(st0.pc):])
    return out


def exits(eng, st0, sk, res, backs, m, added, k, name, forms):
    outs = []
    nb = len(sk.pc)
    # the condition of the loop: the first one that depends on the iteration (one that does not is an obligation of the body, or holds in every iteration)
    dep = lambda cs: next((c for c in cs if has_const(c, {k.decl().name()})), cs[0] if cs else None)
    c = dep(list(added))
    if c is None:
        for s in backs:
            if len(s.pc) > nb:
                c = dep(list(s.pc[nb:]))
                break
    R = trip_bound(eng, st0, c, k) if c is not None else None
    T = None
    if R is not None:
        if eng.proved(st0, R >= 0):
            T = R
        else:
            T = simp(z3.If(R > 0, R, I(0)))
            if eng.proved(st0, R <= 0):
                T = I(0)
    body = z3.And(added) if added else TRUE
    conj = [(f, value(eng, sk, f, k)) for f in forms.values() if f.kind == "conj"]
    for kd, s, info in res:
        if kd == "back":
            continue
        ad = s.pc[nb:]
        main = T is not None and any(simp(z3.Not(e)).eq(simp(c)) for e in ad)
        if main:
            o = at_index(eng, s, sk, k, T, st0)
            o.assume(T >= 0)
            # a condition that held in all iterations held in each of them and before
            o.assume(*[z3.Implies(z3.substitute(v, (k, T)), f.v0) for f, v in conj])
            o.q = st0.q + (QFact(k, T, z3.And([body] + [z3.Implies(z3.substitute(v, (k, T)), f.x) for f, v in conj]) if conj else body),)
        else:
            ke = z3.Int(eng.name("ke"))
            if st0.ctx:
                ke = z3.Function(eng.name("ke"), *([z3.IntSort()] * len(st0.ctx) + [z3.IntSort()]))(*st0.ctx)
            o = at_index(eng, s, sk, k, ke, st0)
            if T is not None:
                o.assume(ke >= 0, ke <= T)
            o.q = st0.q + (QFact(k, ke, body),)
        extra = [q for q in s.q if q not in st0.q]
        h = eng.hooks.get("exit")
        if h:
            h(eng, o, st0, sk, m, k, extra)
        outs.append((kd, o, info))
    return outs
