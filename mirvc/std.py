"""Models of the standard library functions the crate calls (assumed contracts; the list is part of the trusted base)."""
import re
import z3
from .mir import Unsupported, Ty, parse_ty
from .core import *


def install(eng):
    M = eng.models

    def reg(*names):
        def d(f):
            for n in names:
                M[n] = wrap(f, n)
            return f
        return d

    def wrap(f, n):
        def g(eng, st, args, info):
            eng.assumed.add(n)
            return f(eng, st, args, info)
        return g

    def rd(eng, st, v):
        return eng.deref_read(st, v)

    def one(st, v):
        return [(st, v)]

    def upd(eng, st, p, v):
        st = st.copy()
        eng.ptr_write(st, p, v)
        return st

    # ---- control flow sugar
    @reg("Try::branch")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        if not isinstance(v, Enum):
            raise Unsupported("? on %s" % type(v).__name__)
        if v.name == "Result":
            if isz(v.tag):
                return [(s, Enum("ControlFlow", 0, {0: v.pay[0]}) if t == 0 else Enum("ControlFlow", 1, {1: (Enum("Result", 1, {1: v.pay[1]}),)})) for s, t in split_tag(eng, st, v)]
            if v.tag == 0:
                return one(st, Enum("ControlFlow", 0, {0: v.pay[0]}))
            return one(st, Enum("ControlFlow", 1, {1: (v,)}))
        if v.name == "Option":
            return [(s, Enum("ControlFlow", 0, {0: v.pay[1]}) if t == 1 else Enum("ControlFlow", 1, {1: (none(),)})) for s, t in split_tag(eng, st, v)]
        raise Unsupported("? on " + v.name)

    @reg("FromResidual::from_residual")
    def _(eng, st, a, info):
        v = a[0]
        if v.name == "Result":
            e = v.pay[1][0]
            return one(st, err(Tok("from", (e,)) if False else e))
        return one(st, none())

    @reg("Result::expect", "Result::unwrap", "Option::expect", "Option::unwrap")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        good = 0 if v.name == "Result" else 1
        t = v.tag if isz(v.tag) else I(v.tag)
        st = st.copy()
        eng.oblige(st, t == good, "%s: %s succeeds" % (fnname(info), info.key))
        return one(st, v.pay[good][0]) if good in v.pay else []

    @reg("Option::is_none", "Option::is_some", "Result::is_ok", "Result::is_err")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        want = {"is_none": 0, "is_some": 1, "is_ok": 0, "is_err": 1}[info.key.split("::")[1]]
        t = v.tag if isz(v.tag) else I(v.tag)
        return one(st, simp(t == want))

    @reg("Option::ok_or")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        t = v.tag if isz(v.tag) else I(v.tag)
        t = simp(1 - t)
        tag = t.as_long() if z3.is_int_value(t) else t
        pay = {1: (a[1],)}
        if 1 in v.pay:
            pay[0] = v.pay[1]
        return one(st, Enum("Result", tag, pay))

    @reg("Option::ok_or_else")
    def _(eng, st, a, info):
        outs = []
        for s, t in split_tag(eng, st, rd(eng, st, a[0])):
            v = rd(eng, s, a[0])
            if t == 1:
                outs.append((s, ok(v.pay[1][0])))
            else:
                outs += [(s2, err(x)) for s2, x in eng.call_closure(s, a[1], [])]
        return outs

    @reg("Option::unwrap_or", "Result::unwrap_or")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        good = 0 if v.name == "Result" else 1
        outs = []
        for s, t in split_tag(eng, st, v):
            outs.append((s, v.pay[good][0] if t == good else a[1]))
        return outs

    @reg("Option::unwrap_or_default")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        outs = []
        for s, t in split_tag(eng, st, v):
            if t == 1:
                outs.append((s, v.pay[1][0]))
            else:
                d = info.dst_ty.name
                outs.append((s, Seq() if d == "Vec" else FALSE if d == "bool" else I(0)))
        return outs

    @reg("Option::copied", "Option::cloned", "Option::as_ref", "Option::as_deref", "Result::as_ref", "Result::copied", "Result::cloned")
    def _(eng, st, a, info):
        return one(st, rd(eng, st, a[0]))

    @reg("Result::ok")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        outs = []
        for s, t in split_tag(eng, st, v):
            outs.append((s, some(v.pay[0][0]) if t == 0 else none()))
        return outs

    @reg("Option::map", "Result::map", "Option::and_then", "Result::and_then", "Result::map_err", "Option::map_or", "Option::filter", "Option::unwrap_or_else", "Result::unwrap_or_else", "Option::or_else")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        good = 0 if v.name == "Result" else 1
        m = info.key.split("::")[1]
        outs = []
        for s, t in split_tag(eng, st, v):
            if m == "map":
                if t == good:
                    outs += [(s2, ok(x) if v.name == "Result" else some(x)) for s2, x in eng.call_closure(s, a[1], [v.pay[good][0]])]
                else:
                    outs.append((s, err(v.pay[1][0]) if v.name == "Result" else none()))
            elif m == "and_then":
                if t == good:
                    outs += eng.call_closure(s, a[1], [v.pay[good][0]])
                else:
                    outs.append((s, err(v.pay[1][0]) if v.name == "Result" else none()))
            elif m == "map_err":
                if t == good:
                    outs.append((s, ok(v.pay[0][0])))
                else:
                    outs += [(s2, err(x)) for s2, x in eng.call_closure(s, a[1], [v.pay[1][0]])]
            elif m == "map_or":
                if t == good:
                    outs += eng.call_closure(s, a[2], [v.pay[good][0]])
                else:
                    outs.append((s, a[1]))
            elif m == "unwrap_or_else":
                if t == good:
                    outs.append((s, v.pay[good][0]))
                else:
                    outs += eng.call_closure(s, a[1], [v.pay[1][0]] if v.name == "Result" else [])
            elif m == "or_else":
                if t == good:
                    outs.append((s, v))
                else:
                    outs += eng.call_closure(s, a[1], [])
            else:
                raise Unsupported(info.key)
        return outs

    # ---- identity-like
    @reg("Clone::clone", "Deref::deref", "AsRef::as_ref", "Borrow::borrow", "ToOwned::to_owned", "From::from", "Into::into", "Vec::as_slice", "slice::to_vec", "hint::must_use", "must_use",
         "slice::into_vec", "boxed::box_assume_init_into_vec_unsafe", "Vec::from", "slice::as_ref", "Vec::into_boxed_slice", "Cow::into_owned")
    def _(eng, st, a, info):
        v = a[0]
        if info.key in ("slice::into_vec", "boxed::box_assume_init_into_vec_unsafe"):
            v = rd(eng, st, v)
        if info.key in ("Deref::deref", "Clone::clone", "slice::to_vec", "Vec::as_slice", "ToOwned::to_owned", "AsRef::as_ref", "Borrow::borrow"):
            v = rd(eng, st, v)
        if info.key == "From::from" or info.key == "Into::into":
            h = eng.hooks.get("from")
            if h:
                r = h(eng, st, v, info)
                if r is not None:
                    return one(st, r)
            if isz(v):
                d = info.dst_ty.name
                if d in ("BigInt", "BigUint"):
                    return one(st, v)
                if z3.is_bool(v):
                    return one(st, simp(ite(v, I(1), I(0))))
        h = eng.hooks.get("deref")
        if h and info.key == "Deref::deref":
            r = h(eng, st, v)
            if r is not None:
                return one(st, r)
        return one(st, v)

    @reg("DerefMut::deref_mut", "Vec::as_mut_slice", "AsMut::as_mut", "Box::as_mut")
    def _(eng, st, a, info):
        h = eng.hooks.get("deref_mut")
        if h:
            r = h(eng, st, a[0])
            if r is not None:
                return one(st, r)
        return one(st, a[0])

    # vec![..] of a literal: a boxed array written through a raw pointer
    @reg("Box::new_uninit")
    def _(eng, st, a, info):
        st = st.copy()
        c = ("tmp", eng.name("box"))
        st.cells[c] = UNDEF
        return one(st, Ptr(c, ()))

    @reg("Box::new")
    def _(eng, st, a, info):
        return one(st, a[0])

    # ---- Vec and slices
    @reg("Vec::new", "Vec::with_capacity", "Default::default", "Vec::default")
    def _(eng, st, a, info):
        if info.key == "Default::default":
            n = info.dst_ty.name
            if n == "Vec":
                return one(st, Seq())
            if n == "bool":
                return one(st, FALSE)
            if n in ("usize", "u64", "u8", "u32"):
                return one(st, I(0))
            if n == "HashMap":
                return M["HashMap::new"](eng, st, a, info)
            raise Unsupported("default of " + n)
        return one(st, Seq())

    @reg("Vec::push")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        need(v, Seq)
        return one(upd(eng, st, a[0], Seq(v.segs + (Seg(I(1), eng.jvar(), a[1]),))), UNIT)

    @reg("Vec::append")
    def _(eng, st, a, info):
        v, w = rd(eng, st, a[0]), rd(eng, st, a[1])
        need(v, Seq)
        need(w, Seq)
        st = upd(eng, st, a[0], Seq(v.segs + w.segs))
        return one(upd(eng, st, a[1], Seq()), UNIT)

    @reg("Vec::extend_from_slice")
    def _(eng, st, a, info):
        v, w = rd(eng, st, a[0]), rd(eng, st, a[1])
        need(v, Seq)
        need(w, Seq)
        return one(upd(eng, st, a[0], Seq(v.segs + w.segs)), UNIT)

    @reg("Vec::clear")
    def _(eng, st, a, info):
        return one(upd(eng, st, a[0], Seq()), UNIT)

    @reg("Vec::len", "slice::len")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        need(v, Seq)
        return one(st, v.len())

    @reg("Vec::is_empty", "slice::is_empty")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        need(v, Seq)
        return one(st, simp(v.len() == 0))

    @reg("Vec::reserve", "Vec::shrink_to_fit")
    def _(eng, st, a, info):
        return one(st, UNIT)

    @reg("Vec::resize")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        need(v, Seq)
        n = v.len()
        outs = []
        for c, grow in ((simp(a[1] >= n), True), (simp(a[1] < n), False)):
            if lit(c) is False or not eng.feasible(st, c):
                continue
            s = st.copy()
            s.assume(c)
            w = Seq(v.segs + (Seg(simp(a[1] - n), eng.jvar(), a[2]),)) if grow else subseq(eng, s, v, I(0), a[1])
            outs.append((upd(eng, s, a[0], w), UNIT))
        return outs

    @reg("vec::from_elem")
    def _(eng, st, a, info):
        return one(st, Seq([Seg(a[1], eng.jvar(), a[0])]))

    @reg("Vec::truncate")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        need(v, Seq)
        n = v.len()
        outs = []
        for c, cut in ((simp(a[1] < n), True), (simp(a[1] >= n), False)):
            if lit(c) is False or not eng.feasible(st, c):
                continue
            s = st.copy()
            s.assume(c)
            outs.append((upd(eng, s, a[0], subseq(eng, s, v, I(0), a[1])) if cut else s, UNIT))
        return outs

    @reg("Vec::pop")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        n = v.len()
        outs = []
        for c, has in ((simp(n > 0), True), (simp(n <= 0), False)):
            if lit(c) is False or not eng.feasible(st, c):
                continue
            s = st.copy()
            s.assume(c)
            if has:
                x = eng.seq_get(s, v, simp(n - 1))
                outs.append((upd(eng, s, a[0], subseq(eng, s, v, I(0), simp(n - 1))), some(x)))
            else:
                outs.append((s, none()))
        return outs

    @reg("Index::index", "IndexMut::index_mut", "slice::get_unchecked")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        h = getattr(v, "index", None)
        if h:
            return h(eng, st, a, info)
        need(v, Seq)
        st = st.copy()
        n = v.len()
        ix = a[1]
        if isz(ix):
            eng.oblige(st, z3.And(ix >= 0, ix < n), "%s: index within bounds" % fnname(info))
            if info.key == "IndexMut::index_mut":
                return one(st, Ptr(a[0].cell, a[0].path + (("i", ix),)))
            return one(st, eng.seq_get(st, v, ix))
        lo, hi = rng(ix, n)
        eng.oblige(st, z3.And(lo >= 0, lo <= hi, hi <= n), "%s: range within bounds" % fnname(info))
        if info.key == "IndexMut::index_mut":
            raise Unsupported("mutable sub-slice")
        return one(st, subseq(eng, st, v, lo, hi))

    @reg("slice::get", "slice::first", "slice::last", "Vec::get")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        need(v, Seq)
        n = v.len()
        m = info.key.split("::")[1]
        ix = a[1] if m == "get" else (I(0) if m == "first" else simp(n - 1))
        if not isz(ix):
            raise Unsupported("slice::get of a range")
        outs = []
        for c, has in ((simp(z3.And(ix >= 0, ix < n)), True), (simp(z3.Or(ix < 0, ix >= n)), False)):
            if lit(c) is False or not eng.feasible(st, c):
                continue
            s = st.copy()
            s.assume(c)
            outs.append((s, some(eng.seq_get(s, v, ix)) if has else none()))
        return outs

    @reg("slice::split_at")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        need(v, Seq)
        st = st.copy()
        eng.oblige(st, z3.And(a[1] >= 0, a[1] <= v.len()), "%s: split within bounds" % fnname(info))
        return one(st, tup(subseq(eng, st, v, I(0), a[1]), subseq(eng, st, v, a[1], v.len())))

    @reg("slice::concat")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        need(v, Seq)
        return one(st, flatten_seq(eng, v))

    @reg("slice::iter", "Vec::iter", "Vec::into_iter", "slice::into_iter", "Vec::drain")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        need(v, Seq)
        if info.key == "Vec::drain":
            if not (isinstance(a[1], Agg) and a[1].name == "RangeFull"):
                raise Unsupported("partial drain")
            st = upd(eng, st, a[0], Seq())
        return one(st, It("seq", (v, I(0), v.len())))

    @reg("slice::iter_mut")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        need(v, Seq)
        return one(st, It("mut", (a[0], I(0), v.len())))

    @reg("slice::chunks", "slice::chunks_exact")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        need(v, Seq)
        return one(st, It("chunks", (v, I(0), v.len(), a[1])))

    @reg("IntoIterator::into_iter")
    def _(eng, st, a, info):
        v = a[0]
        if isinstance(v, Ptr):
            w = rd(eng, st, v)
            if isinstance(w, Seq):
                return one(st, It("mut", (v, I(0), w.len())))
            if isinstance(w, It):
                return one(st, It("by_ref", (v,)))
            raise Unsupported("iteration over &mut %s" % type(w).__name__)
        return one(st, to_iter(eng, st, v))

    @reg("RangeInclusive::new")
    def _(eng, st, a, info):
        return one(st, Agg("RangeInclusive", (a[0], a[1])))

    @reg("Iterator::map", "Iterator::flat_map", "Iterator::filter", "Iterator::filter_map", "Iterator::take_while", "Iterator::inspect")
    def _(eng, st, a, info):
        k = info.key.split("::")[1]
        it = to_iter(eng, st, a[0])
        if k == "flat_map":
            return one(st, It("flatten", (It("map", (it, a[1])), none())))
        return one(st, It(k, (it, a[1])))

    @reg("Iterator::enumerate")
    def _(eng, st, a, info):
        return one(st, It("enumerate", (to_iter(eng, st, a[0]), I(0))))

    @reg("Iterator::zip")
    def _(eng, st, a, info):
        return one(st, It("zip", (to_iter(eng, st, a[0]), to_iter(eng, st, a[1]))))

    @reg("iter::zip")
    def _(eng, st, a, info):
        return one(st, It("zip", (to_iter(eng, st, a[0]), to_iter(eng, st, a[1]))))

    @reg("Iterator::rev")
    def _(eng, st, a, info):
        it = to_iter(eng, st, a[0])
        return one(st, reverse(eng, it))

    @reg("Iterator::cloned", "Iterator::copied", "Iterator::fuse", "Iterator::peekable")
    def _(eng, st, a, info):
        if info.key == "Iterator::peekable":
            raise Unsupported("peekable")
        return one(st, to_iter(eng, st, a[0]))

    @reg("Iterator::by_ref")
    def _(eng, st, a, info):
        return one(st, It("by_ref", (a[0],)))

    @reg("Iterator::flatten")
    def _(eng, st, a, info):
        return one(st, It("flatten", (to_iter(eng, st, a[0]), none())))

    @reg("Iterator::chain")
    def _(eng, st, a, info):
        x, y = to_iter(eng, st, a[0]), to_iter(eng, st, a[1])
        if x.kind == "seq" and y.kind == "seq":
            s = Seq(rest_of(eng, st, x).segs + rest_of(eng, st, y).segs)
            return one(st, It("seq", (s, I(0), s.len())))
        return one(st, It("chain", (x, y, FALSE)))

    @reg("iter::once")
    def _(eng, st, a, info):
        return one(st, It("seq", (Seq([Seg(I(1), eng.jvar(), a[0])]), I(0), I(1))))

    @reg("iter::repeat")
    def _(eng, st, a, info):
        return one(st, It("repeat", (a[0],)))

    @reg("iter::repeat_with")
    def _(eng, st, a, info):
        return one(st, It("map", (It("repeat", (UNIT,)), a[0], TRUE)))

    @reg("Iterator::take")
    def _(eng, st, a, info):
        it = to_iter(eng, st, a[0])
        if it.kind == "repeat":
            s = Seq([Seg(a[1], eng.jvar(), it.f[0])])
            return one(st, It("seq", (s, I(0), a[1])))
        if it.kind in ("seq", "range"):
            lo, hi = (it.f[1], it.f[2]) if it.kind == "seq" else (it.f[0], it.f[1])
            outs = []
            for c, e in ((simp(lo + a[1] <= hi), simp(lo + a[1])), (simp(lo + a[1] > hi), hi)):
                if lit(c) is False or not eng.feasible(st, c):
                    continue
                s = st.copy()
                s.assume(c)
                outs.append((s, It("seq", (it.f[0], lo, e)) if it.kind == "seq" else It("range", (lo, e))))
            return outs
        return one(st, It("take", (it, a[1])))

    @reg("Iterator::skip")
    def _(eng, st, a, info):
        it = to_iter(eng, st, a[0])
        if it.kind in ("seq", "range"):
            lo, hi = (it.f[1], it.f[2]) if it.kind == "seq" else (it.f[0], it.f[1])
            outs = []
            for c, e in ((simp(lo + a[1] <= hi), simp(lo + a[1])), (simp(lo + a[1] > hi), hi)):
                if lit(c) is False or not eng.feasible(st, c):
                    continue
                s = st.copy()
                s.assume(c)
                outs.append((s, It("seq", (it.f[0], e, hi)) if it.kind == "seq" else It("range", (e, hi))))
            return outs
        raise Unsupported("skip")

    @reg("Iterator::next")
    def _(eng, st, a, info):
        p = a[0]
        it = rd(eng, st, p)
        if isinstance(it, Agg) and it.name in ("Range", "RangeInclusive", "RangeFrom"):
            it = to_iter(eng, st, it)
        h = getattr(it, "next", None)
        if h:
            return h(eng, st, a, info)
        need(it, It)
        outs = []
        for s, it2, item in it_next(eng, st, it):
            s = upd(eng, s, p, it2)
            outs.append((s, none() if item is None else some(item)))
        return outs

    @reg("DoubleEndedIterator::next_back")
    def _(eng, st, a, info):
        raise Unsupported("next_back")

    @reg("ExactSizeIterator::len")
    def _(eng, st, a, info):
        it = rd(eng, st, a[0])
        return one(st, it_len(eng, st, it))

    @reg("Iterator::collect", "Iterator::for_each", "Iterator::fold", "Iterator::count", "Iterator::all", "Iterator::any", "Iterator::last", "Iterator::sum", "Extend::extend", "Vec::extend",
         "Iterator::position", "Iterator::find", "FromIterator::from_iter", "Iterator::try_for_each", "Iterator::nth", "Iterator::min", "Iterator::max", "Iterator::try_fold")
    def _(eng, st, a, info):
        return consume(eng, st, a, info)

    # ---- integers
    @reg("num::checked_sub", "num::checked_add", "num::checked_mul")
    def _(eng, st, a, info):
        m = re.search(r"<impl (\w+)>", info.callee)
        lo, hi = eng.width(Ty(m.group(1) if m else "usize"))
        k = info.key.split("_")[1]
        r = simp(a[0] - a[1] if k == "sub" else a[0] + a[1] if k == "add" else a[0] * a[1])
        c = simp(z3.And(r >= lo, r <= hi))
        t = simp(ite(c, I(1), I(0)))
        return one(st, Enum("Option", t.as_long() if z3.is_int_value(t) else t, {1: (r,)}))

    @reg("num::saturating_sub")
    def _(eng, st, a, info):
        return one(st, simp(ite(simp(a[0] >= a[1]), a[0] - a[1], I(0))))

    @reg("Ord::min", "cmp::min", "Ord::max", "cmp::max")
    def _(eng, st, a, info):
        c = simp(a[0] <= a[1])
        mn = info.key.endswith("min")
        outs = []
        for cc, v in ((c, a[0] if mn else a[1]), (simp(z3.Not(c)), a[1] if mn else a[0])):
            if lit(cc) is False or not eng.feasible(st, cc):
                continue
            s = st.copy()
            s.assume(cc)
            outs.append((s, v))
        return outs

    @reg("PartialEq::eq", "PartialEq::ne")
    def _(eng, st, a, info):
        x, y = rd(eng, st, a[0]), rd(eng, st, a[1])
        if isinstance(x, Seq) and isinstance(y, Seq):
            return seq_eq(eng, st, x, y, info.key.endswith("eq"), fnname(info) + ": ==")
        e = eng.veq(st, x, y)
        return one(st, e if info.key.endswith("eq") else simp(z3.Not(e)))

    @reg("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
    def _(eng, st, a, info):
        x, y = rd(eng, st, a[0]), rd(eng, st, a[1])
        need(x, z3.ExprRef)
        op = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[info.key.split("::")[1]]
        return one(st, simp(op))

    @reg("Not::not")
    def _(eng, st, a, info):
        x = rd(eng, st, a[0])
        if isz(x) and z3.is_bool(x):
            return one(st, simp(z3.Not(x)))
        raise Unsupported("! of %s" % type(x).__name__)

    @reg("BitAnd::bitand", "BitOr::bitor", "BitXor::bitxor")
    def _(eng, st, a, info):
        x, y = rd(eng, st, a[0]), rd(eng, st, a[1])
        if isz(x) and z3.is_bool(x):
            return one(st, simp({"BitAnd": z3.And, "BitOr": z3.Or, "BitXor": z3.Xor}[info.key.split("::")[0]](x, y)))
        return one(st, word(eng, st, info.key.split("::")[0], x, y, info))

    def word(eng, st, op, x, y, info):
        """An operator on machine words, called through a reference."""
        s = info.selft.replace("&", "").replace("mut ", "").split()[-1]
        if not isz(x) or not isz(y) or s not in ("usize", "u64", "u32", "u16", "u8"):
            raise Unsupported("%s on %s" % (info.key, info.selft))
        if op in ("Shl", "Shr"):
            st = st.copy()
            eng.oblige(st, z3.And(y >= 0, y <= len(bin(eng.width(Ty(s))[1])) - 3), "%s: shift amount in range" % fnname(info))
        return eng.binop(st, info.fr, op, x, y, Ty(s))

    @reg("Shr::shr")
    def _(eng, st, a, info):
        return one(st, word(eng, st, "Shr", rd(eng, st, a[0]), rd(eng, st, a[1]), info))

    @reg("Add::add", "Sub::sub", "Mul::mul")
    def _(eng, st, a, info):
        x, y = rd(eng, st, a[0]), rd(eng, st, a[1])
        s = info.selft.replace("&", "").strip()
        if isz(x) and isz(y) and s in ("BigInt",):
            return one(st, simp({"Add": x + y, "Sub": x - y, "Mul": x * y}[info.key.split("::")[0]]))
        if isz(x) and isz(y) and s == "BigUint":
            r = simp({"Add": x + y, "Sub": x - y, "Mul": x * y}[info.key.split("::")[0]])
            st = st.copy()
            if info.key.startswith("Sub"):
                eng.oblige(st, x >= y, "%s: BigUint subtraction does not underflow" % fnname(info))
            return one(st, r)
        if isz(x) and isz(y) and s in ("usize", "u64", "u32", "u8"):
            r = simp({"Add": x + y, "Sub": x - y, "Mul": x * y}[info.key.split("::")[0]])
            lo, hi = eng.width(Ty(s))
            st = st.copy()
            eng.oblige(st, z3.And(r >= lo, r <= hi), "%s: no overflow" % fnname(info))
            return one(st, r)
        if isinstance(x, Tok):
            return one(st, Tok("concat", (x, y)))
        raise Unsupported("%s on %s" % (info.key, s))

    @reg("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign")
    def _(eng, st, a, info):
        x, y = rd(eng, st, a[0]), rd(eng, st, a[1])
        s = info.selft.replace("&", "").strip()
        r = simp({"Add": x + y, "Sub": x - y, "Mul": x * y}[info.key[:3]])
        if s == "BigInt":
            return one(upd(eng, st, a[0], r), UNIT)
        if s in ("usize", "u64", "BigUint"):
            lo, hi = eng.width(Ty(s)) if s != "BigUint" else (0, None)
            st = st.copy()
            eng.oblige(st, z3.And(r >= lo, r <= hi) if hi is not None else r >= 0, "%s: no overflow" % fnname(info))
            return one(upd(eng, st, a[0], r), UNIT)
        raise Unsupported(info.key + " on " + s)

    @reg("Neg::neg")
    def _(eng, st, a, info):
        x = rd(eng, st, a[0])
        if isz(x) and "BigInt" in info.selft:
            return one(st, simp(-x))
        raise Unsupported("negation")

    @reg("Div::div", "Rem::rem")
    def _(eng, st, a, info):
        x, y = rd(eng, st, a[0]), rd(eng, st, a[1])
        if "Big" not in info.selft:
            raise Unsupported(info.key + " on " + info.selft)
        st = st.copy()
        eng.oblige(st, y != 0, "%s: no division by zero" % fnname(info))
        if not (eng.proved(st, x >= 0) and eng.proved(st, y > 0)):
            # truncated division
            q = eng.fresh(st, "tdiv")
            r = eng.fresh(st, "trem")
            ay = z3.If(y >= 0, y, -y)
            st.assume(x == q * y + r, z3.If(x >= 0, z3.And(r >= 0, r < ay), z3.And(r <= 0, -r < ay)))
            return one(st, q if info.key.startswith("Div") else r)
        # quotient and remainder of non-negative numbers, the same names for the same operands
        key = (x.get_id(), y.get_id())
        if key not in eng.divs:
            eng.divs[key] = (z3.Int(eng.name("quot")), z3.Int(eng.name("rem"))) if not st.ctx else (x / y, x % y)
            eng.divargs[key] = (x, y)
        q, r = eng.divs[key]
        st.assume(x == q * y + r, r >= 0, r < y, q >= 0)
        return one(st, q if info.key.startswith("Div") else r)

    @reg("Shl::shl")
    def _(eng, st, a, info):
        x, y = rd(eng, st, a[0]), rd(eng, st, a[1])
        if "Big" not in info.selft:
            return one(st, word(eng, st, "Shl", x, y, info))
        p2, mp2 = z3.Function("P2", z3.IntSort(), z3.IntSort()), z3.Function("MP2", z3.IntSort(), z3.IntSort(), z3.IntSort())
        return one(st, p2(y) if z3.is_int_value(x) and x.as_long() == 1 else mp2(y, x))

    # the magnitude of a number as bytes: only its way back into a number is known
    @reg("BigInt::to_bytes_le")
    def _(eng, st, a, info):
        x = rd(eng, st, a[0])
        return one(st, tup(Tok("sign", (x,)), Tok("magnitude_le", (simp(ite(x >= 0, x, -x)),))))

    @reg("BigUint::from_bytes_le")
    def _(eng, st, a, info):
        x = rd(eng, st, a[0])
        if isinstance(x, Tok) and x.name == "magnitude_le":
            return one(st, x.a[0])
        raise Unsupported("from_bytes_le of other bytes")

    @reg("Zero::zero")
    def _(eng, st, a, info):
        return one(st, I(0))

    @reg("One::one")
    def _(eng, st, a, info):
        return one(st, I(1))

    @reg("Zero::is_zero")
    def _(eng, st, a, info):
        return one(st, simp(rd(eng, st, a[0]) == 0))

    @reg("mem::take", "mem::replace", "mem::swap")
    def _(eng, st, a, info):
        v = rd(eng, st, a[0])
        if info.key == "mem::take":
            if isinstance(v, Seq):
                return one(upd(eng, st, a[0], Seq()), v)
            raise Unsupported("mem::take of %s" % type(v).__name__)
        if info.key == "mem::swap":
            w = rd(eng, st, a[1])
            st = upd(eng, st, a[0], w)
            return one(upd(eng, st, a[1], v), UNIT)
        return one(upd(eng, st, a[0], a[1]), v)

    @reg("mem::drop", "drop")
    def _(eng, st, a, info):
        return one(st, UNIT)

    # ---- text: opaque
    @reg("fmt::format", "format", "ToString::to_string", "Arguments::new", "rt::new_display", "Argument::new_display", "rt::new_debug", "Argument::new_debug", "String::new", "String::from", "str::to_string", "Arguments::new_const", "Arguments::from_str",
         "string::to_string", "AsDisplay::as_display", "fmt::Arguments")
    def _(eng, st, a, info):
        return one(st, Tok("text:" + info.key, [rd(eng, st, x) for x in a]))

    @reg("io::_print", "io::_eprint", "stdio::_print", "stdio::_eprint")
    def _(eng, st, a, info):
        return one(st, UNIT)

    @reg("FnOnce::call_once", "Fn::call", "FnMut::call_mut")
    def _(eng, st, a, info):
        c = rd(eng, st, a[0])
        args = a[1].f if isinstance(a[1], Agg) else (a[1],)
        return eng.call_closure(st, c, list(args))


# ------------------------------------------------------------------ helpers

def fnname(info):
    return short(info.fr.fn.name) if info.fr else "?"


def need(v, cls):
    if not isinstance(v, cls):
        if isinstance(v, Poison):
            raise Unsupported("value not described by the loop summary: " + v.why)
        raise Unsupported("expected %s, found %s" % (cls.__name__, type(v).__name__))


def split_tag(eng, st, v):
    """Forks on the variant of an enum value: [(state, tag)]."""
    if not isinstance(v, Enum):
        raise Unsupported("variant of %s" % type(v).__name__)
    if not isz(v.tag):
        return [(st, v.tag)]
    outs = []
    for t in sorted(v.pay.keys() | {0, 1}):
        c = simp(v.tag == t)
        if lit(c) is False or not eng.feasible(st, c):
            continue
        s = st.copy()
        s.assume(c)
        outs.append((s, t))
    return outs


def rng(ix, n):
    if isinstance(ix, Agg):
        if ix.name == "RangeFull":
            return I(0), n
        if ix.name == "Range":
            return ix.f[0], ix.f[1]
        if ix.name == "RangeFrom":
            return ix.f[0], n
        if ix.name == "RangeTo":
            return I(0), ix.f[0]
        if ix.name == "RangeToInclusive":
            return I(0), simp(ix.f[0] + 1)
        if ix.name == "RangeInclusive":
            return ix.f[0], simp(ix.f[1] + 1)
    raise Unsupported("range %r" % (ix,))


def subseq(eng, st, v, lo, hi):
    """v[lo..hi], for 0 <= lo <= hi <= len."""
    lo, hi = simp(lo), simp(hi)
    if z3.is_int_value(lo) and lo.as_long() == 0 and simp(hi).eq(v.len()):
        return v
    segs, off = [], I(0)
    for s in v.segs:
        end = simp(off + s.n)
        # the part of [lo, hi) inside [off, end)
        a = pick(eng, st, lo, off, True)
        b = pick(eng, st, hi, end, False)
        if a is None or b is None:
            j = eng.jvar()
            s2 = st.copy()
            n = simp(hi - lo)
            s2.assume(j >= 0, j < n)
            return Seq([Seg(n, j, eng.seq_get(s2, v, simp(lo + j)))])
        n = simp(b - a)
        if not (z3.is_int_value(n) and n.as_long() <= 0) and not eng.proved(st, n <= 0):
            if eng.proved(st, n >= 0):
                j = eng.jvar()
                segs.append(Seg(n, j, s.at(simp(j + a - off))))
            else:
                j = eng.jvar()
                s2 = st.copy()
                n = simp(hi - lo)
                s2.assume(j >= 0, j < n)
                return Seq([Seg(n, j, eng.seq_get(s2, v, simp(lo + j)))])
        off = end
    return Seq(segs)


def pick(eng, st, x, y, mx):
    """max or min of two terms, if their order is known."""
    if x.eq(y):
        return x
    if eng.proved(st, x >= y):
        return x if mx else y
    if eng.proved(st, x <= y):
        return y if mx else x
    return None


def flatten_seq(eng, v):
    out = []
    for s in v.segs:
        if z3.is_int_value(s.n):
            for i in range(s.n.as_long()):
                x = s.at(I(i))
                need(x, Seq)
                out += list(x.segs)
        else:
            need(s.e, Seq)
            ln = s.e.len()
            if has_const(ln, {s.v.decl().name()}):
                raise Unsupported("concatenation of sequences of different lengths")
            if len(s.e.segs) == 1 and s.e.segs[0].v is not None:
                j = eng.jvar()
                g = s.e.segs[0]
                out.append(Seg(simp(s.n * ln), j, subst(g.e, [(g.v, j % ln), (s.v, j / ln)])))
            elif z3.is_int_value(ln):
                m = ln.as_long()
                j = eng.jvar()
                es = []
                for g in s.e.segs:
                    for i in range(g.n.as_long()):
                        es.append(g.at(I(i)))
                e = subst(es[-1], [(s.v, j / m)])
                st = State()
                for i in range(m - 2, -1, -1):
                    e = eng.vite(st, j % m == i, subst(es[i], [(s.v, j / m)]), e)
                out.append(Seg(simp(s.n * m), j, e))
            else:
                raise Unsupported("concatenation of composite sequences")
    return Seq(out)


def to_iter(eng, st, v):
    if isinstance(v, It):
        return v
    if isinstance(v, Seq):
        return It("seq", (v, I(0), v.len()))
    if isinstance(v, Agg) and v.name == "Range":
        return It("range", (v.f[0], v.f[1]))
    if isinstance(v, Agg) and v.name == "RangeInclusive":
        return It("range", (v.f[0], simp(v.f[1] + 1)))
    if isinstance(v, Agg) and v.name == "RangeFrom":
        return It("rangefrom", (v.f[0],))
    if isinstance(v, Enum) and v.name == "Option" and not isz(v.tag):
        return It("seq", (Seq([Seg(I(1), eng.jvar(), v.pay[1][0])]) if v.tag == 1 else Seq(), I(0), I(v.tag)))
    if isinstance(v, Ptr):
        w = eng.deref_read(st, v)
        if isinstance(w, It):
            return It("by_ref", (v,))
    h = getattr(v, "iter", None)
    if h:
        return h(eng, st)
    raise Unsupported("iteration over %s" % type(v).__name__)


def rest_of(eng, st, it):
    return subseq(eng, st, it.f[0], it.f[1], it.f[2])


def reverse(eng, it):
    if it.kind == "range":
        return It("rrange", (it.f[0], it.f[1]))
    if it.kind == "rrange":
        return It("range", it.f)
    if it.kind == "seq":
        return It("rseq", it.f)
    if it.kind == "map":
        return It("map", (reverse(eng, it.f[0]),) + it.f[1:])
    raise Unsupported("reversed " + it.kind)


def it_len(eng, st, it):
    if it.kind in ("range", "rrange"):
        a, b = it.f[0], it.f[1]
        if eng.proved(st, b >= a):
            return simp(b - a)
        return simp(z3.If(b >= a, b - a, I(0)))
    if it.kind in ("seq", "rseq"):
        return simp(it.f[2] - it.f[1])
    if it.kind in ("map", "enumerate"):
        return it_len(eng, st, it.f[0])
    raise Unsupported("length of the iterator " + it.kind)


def fork(eng, st, c):
    """[(state, bool)] for the feasible values of c. Marks the loop as decided by a symbolic condition."""
    c = simp(c)
    if eng.loopstack and not eng.loopstack[-1]["decided"]:
        eng.loopstack[-1]["decided"] = True
        eng.loopstack[-1]["sym"] = lit(c) is None
    l = lit(c)
    if l is not None:
        return [(st, l)]
    outs = []
    for cc, b in ((c, True), (simp(z3.Not(c)), False)):
        if eng.feasible(st, cc):
            s = st.copy()
            s.assume(cc)
            outs.append((s, b))
    return outs


def fork_(eng, st, c):
    """The same without a say in what decides the loop."""
    if not isz(c):
        raise Unsupported("a condition")
    c, outs = simp(c), []
    for cc, b in ((c, True), (simp(z3.Not(c)), False)):
        if lit(cc) is not False and (lit(cc) is True or eng.feasible(st, cc)):
            s = st.copy()
            s.assume(cc)
            outs.append((s, b))
    return outs


def opt_item(eng, st, c, it2, it, item):
    """The outcome of next() when it yields an item iff c; a fork only if c is not decided."""
    outs = []
    for s, b in fork(eng, st, c):
        outs.append((s, it2, item(s)) if b else (s, it, None))
    return outs


def it_next(eng, st, it):
    """[(state, iterator, item or None)]"""
    k = it.kind
    if k == "range":
        a, b = it.f
        return opt_item(eng, st, a < b, It("range", (simp(a + 1), b)), it, lambda s: a)
    if k == "rangefrom":
        return [(st, It("rangefrom", (simp(it.f[0] + 1),)), it.f[0])]
    if k == "rrange":
        a, b = it.f
        return opt_item(eng, st, a < b, It("rrange", (a, simp(b - 1))), it, lambda s: simp(b - 1))
    if k == "seq":
        v, a, b = it.f
        return opt_item(eng, st, a < b, It("seq", (v, simp(a + 1), b)), it, lambda s: eng.seq_get(s, v, a))
    if k == "rseq":
        v, a, b = it.f
        return opt_item(eng, st, a < b, It("rseq", (v, a, simp(b - 1))), it, lambda s: eng.seq_get(s, v, simp(b - 1)))
    if k == "mut":
        p, a, b = it.f
        return opt_item(eng, st, a < b, It("mut", (p, simp(a + 1), b)), it, lambda s: Ptr(p.cell, p.path + (("i", a),)))
    if k == "repeat":
        return [(st, it, it.f[0])]
    if k == "chunks":
        v, a, b, n = it.f
        outs = []
        for s, more in fork(eng, st, a < b):
            if not more:
                outs.append((s, it, None))
                continue
            if eng.proved(s, a + n <= b):
                outs.append((s, It("chunks", (v, simp(a + n), b, n)), subseq(eng, s, v, a, simp(a + n))))
            else:
                for s2, full in fork(eng, s, a + n <= b):
                    e = simp(a + n) if full else b
                    outs.append((s2, It("chunks", (v, simp(a + n), b, n)), subseq(eng, s2, v, a, e)))
        return outs
    if k == "map":
        outs = []
        for s, i2, item in it_next(eng, st, it.f[0]):
            if item is None:
                outs.append((s, It("map", (i2,) + it.f[1:]), None))
                continue
            args = [] if len(it.f) > 2 else [item]
            for s2, v in eng.call_closure(s, it.f[1], args):
                outs.append((s2, It("map", (i2,) + it.f[1:]), v))
        return outs
    if k == "enumerate":
        return [(s, It(k, (i2, simp(it.f[1] + 1) if item is not None else it.f[1])), None if item is None else tup(it.f[1], item)) for s, i2, item in it_next(eng, st, it.f[0])]
    if k == "take":
        outs = []
        for s, b in fork(eng, st, it.f[1] > 0):
            if not b:
                outs.append((s, it, None))
            else:
                outs += [(s2, It(k, (i2, simp(it.f[1] - 1))), item) for s2, i2, item in it_next(eng, s, it.f[0])]
        return outs
    if k == "zip":
        outs = []
        for s, x, item in it_next(eng, st, it.f[0]):
            if item is None:
                outs.append((s, It(k, (x, it.f[1])), None))
                continue
            for s2, y, item2 in it_next(eng, s, it.f[1]):
                outs.append((s2, It(k, (x, y)), None if item2 is None else tup(item, item2)))
        return outs
    if k == "chain":
        if lit(it.f[2]) is False:
            outs = []
            for s, x, item in it_next(eng, st, it.f[0]):
                if item is not None:
                    outs.append((s, It(k, (x, it.f[1], FALSE)), item))
                else:
                    outs += [(s2, It(k, (x, y, TRUE)), i2) for s2, y, i2 in it_next(eng, s, it.f[1])]
            return outs
        return [(s, It(k, (it.f[0], y, TRUE)), i2) for s, y, i2 in it_next(eng, st, it.f[1])]
    if k == "by_ref":
        p = it.f[0]
        w = eng.deref_read(st, p)
        outs = []
        for s, i2, item in it_next(eng, st, to_iter(eng, st, w)):
            s = s.copy()
            eng.ptr_write(s, p, i2)
            outs.append((s, it, item))
        return outs
    if k == "gather":
        # the items are collected if they are iterators
        outs = []
        for s, i2, item in it_next(eng, st, it.f[0]):
            if isinstance(item, Ptr) and isinstance(eng.deref_read(s, item), Seq):
                item = eng.deref_read(s, item)
            if item is None or isinstance(item, Seq):
                outs.append((s, It(k, (i2, it.f[1])), item))
            else:
                outs += [(s2, It(k, (i2, it.f[1])), v) for s2, v in consume(eng, s, [item], it.f[1])]
        return outs
    if k == "filter":
        raise Unsupported("filter")
    raise Unsupported("iterator " + k)


def vloop(eng, st, init, step, name):
    """A loop in a library function: init are the values of its state cells; step(st, cells) -> [(kind, st, result)]."""
    st = st.copy()
    cells = []
    for v in init:
        c = ("tmp", eng.name("v"))
        st.cells[c] = v
        cells.append(c)

    def stp(s):
        eng.loopstack[-1]["virtual"] = True
        return step(s, cells)
    outs = []
    for kind, s, info in eng.loop(st, stp, name):
        s = s.copy()
        r = info(s) if callable(info) else info
        for c in cells:
            s.cells.pop(c, None)
        outs.append((s, r))
    return outs


def seq_eq(eng, st, x, y, eq, name):
    """Comparison of sequences: of the lengths, then element by element up to the first difference."""
    outs = []
    n = x.len()
    for c, same in ((simp(n != y.len()), False), (simp(n == y.len()), True)):
        if lit(c) is False or not eng.feasible(st, c):
            continue
        s = st.copy()
        s.assume(c)
        if not same:
            outs.append((s, z3.BoolVal(not eq)))
            continue

        def step(s, cells):
            i, r = s.cells[cells[0]], []
            for s2, more in fork(eng, s, i < n):
                s2 = s2.copy()
                if not more:
                    r.append(("exit", s2, z3.BoolVal(eq)))
                    continue
                e = eng.veq(s2, eng.seq_get(s2, x, i), eng.seq_get(s2, y, i))
                for s3, b in fork_(eng, s2, e):
                    if b:
                        s3.cells[cells[0]] = simp(i + 1)
                        r.append(("back", s3, None))
                    else:
                        r.append(("exit", s3, z3.BoolVal(not eq)))
            return r
        for s2, r in vloop(eng, s, [I(0)], step, name):
            l2 = getattr(eng, "l2", None)
            if l2 is not None and lit(r) is eq and all(isz(g.e) and z3.is_int(g.e) for g in x.segs + y.segs):
                s2.assume(l2.nat(x) == l2.nat(y))        # the same gates have the same value as a number
            outs.append((s2, r))
    return outs


def consume(eng, st, a, info):
    m = info.key.split("::")[1]
    if m in ("extend",):
        it = to_iter(eng, st, a[1])
    elif m == "from_iter":
        it = to_iter(eng, st, a[0])
        m = "collect"
    else:
        it = a[0]
        if isinstance(it, Ptr):
            it = It("by_ref", (it,)) if m not in ("nth",) else it
        it = to_iter(eng, st, it)
    name = "%s: %s" % (fnname(info), m)
    if m == "collect":
        dst = info.dst_ty
        if dst.name == "Result" or dst.name == "Option":
            wrap = dst.name
            inner = dst.args[0]
        else:
            wrap, inner = None, dst
        if inner.name not in ("Vec", "?"):
            raise Unsupported("collect into " + repr(dst))
        if it.kind == "flatten":
            # concatenate the sequences
            outs = []
            i2 = CallInfo(eng, info.fr, info.callee, info.kind, info.selft, info.key, info.full, Ty("Vec"), info.rest)
            for s, v in consume(eng, st, [It("gather", (it.f[0], i2))], i2):
                outs.append((s, flatten_seq(eng, v)))
            return outs
        if it.kind == "seq" and wrap is None:
            return [(st, rest_of(eng, st, it))]

        def step(s, cells):
            outs = []
            for s2, i2, item in it_next(eng, s, s.cells[cells[0]]):
                s2 = s2.copy()
                s2.cells[cells[0]] = i2
                acc = cells[1]
                if item is None:
                    if wrap:
                        outs.append(("exit", s2, lambda z: ok(z.cells[acc]) if wrap == "Result" else some(z.cells[acc])))
                    else:
                        outs.append(("exit", s2, lambda z: z.cells[acc]))
                    continue
                if wrap:
                    good = 0 if wrap == "Result" else 1
                    for s3, t in split_tag(eng, s2, item):
                        s3 = s3.copy()
                        if t == good:
                            s3.cells[acc] = Seq(s3.cells[acc].segs + (Seg(I(1), eng.jvar(), item.pay[good][0]),))
                            outs.append(("back", s3, None))
                        else:
                            outs.append(("exit", s3, err(item.pay[1][0]) if wrap == "Result" else none()))
                else:
                    s2.cells[acc] = Seq(s2.cells[acc].segs + (Seg(I(1), eng.jvar(), item),))
                    outs.append(("back", s2, None))
            return outs
        return vloop(eng, st, [it, Seq()], step, name)
    if m == "extend":
        p = a[0]
        if it.kind == "seq":
            s = st.copy()
            v = eng.deref_read(s, p)
            eng.ptr_write(s, p, Seq(v.segs + rest_of(eng, s, it).segs))
            return [(s, UNIT)]

        def step(s, cells):
            outs = []
            for s2, i2, item in it_next(eng, s, s.cells[cells[0]]):
                s2 = s2.copy()
                s2.cells[cells[0]] = i2
                if item is None:
                    outs.append(("exit", s2, UNIT))
                    continue
                v = eng.deref_read(s2, p)
                eng.ptr_write(s2, p, Seq(v.segs + (Seg(I(1), eng.jvar(), item),)))
                outs.append(("back", s2, None))
            return outs
        return vloop(eng, st, [it], step, name)
    if m in ("for_each", "try_for_each"):
        def step(s, cells):
            outs = []
            for s2, i2, item in it_next(eng, s, s.cells[cells[0]]):
                s2 = s2.copy()
                s2.cells[cells[0]] = i2
                if item is None:
                    outs.append(("exit", s2, UNIT if m == "for_each" else ok(UNIT)))
                    continue
                for s3, v in eng.call_closure(s2, a[1], [item]):
                    if m == "for_each":
                        outs.append(("back", s3, None))
                    else:
                        for s4, t in split_tag(eng, s3, v):
                            outs.append(("back", s4, None) if t == 0 else ("exit", s4, err(v.pay[1][0])))
            return outs
        return vloop(eng, st, [it], step, name)
    if m in ("fold", "try_fold"):
        def step(s, cells):
            outs = []
            for s2, i2, item in it_next(eng, s, s.cells[cells[0]]):
                s2 = s2.copy()
                s2.cells[cells[0]] = i2
                acc = cells[1]
                if item is None:
                    outs.append(("exit", s2, (lambda z: z.cells[acc]) if m == "fold" else (lambda z: ok(z.cells[acc]))))
                    continue
                for s3, v in eng.call_closure(s2, a[2], [s2.cells[acc], item]):
                    if m == "fold":
                        s3 = s3.copy()
                        s3.cells[acc] = v
                        outs.append(("back", s3, None))
                    else:
                        for s4, t in split_tag(eng, s3, v):
                            s4 = s4.copy()
                            if t == 0:
                                s4.cells[acc] = v.pay[0][0]
                                outs.append(("back", s4, None))
                            else:
                                outs.append(("exit", s4, err(v.pay[1][0])))
            return outs
        return vloop(eng, st, [it, a[1]], step, name)
    if m in ("all", "any", "position", "find"):
        # a loop that is left at the first item for which the predicate decides
        def step(s, cells):
            outs = []
            for s2, i2, item in it_next(eng, s, s.cells[cells[0]]):
                s2 = s2.copy()
                s2.cells[cells[0]] = i2
                if item is None:
                    outs.append(("exit", s2, TRUE if m == "all" else FALSE if m == "any" else none()))
                    continue
                arg = item
                if m == "find":
                    c = ("tmp", eng.name("v"))
                    s2.cells[c] = item
                    arg = Ptr(c, ())
                for s3, v in eng.call_closure(s2, a[1], [arg]):
                    for s4, b in fork_(eng, s3, v):
                        if m == "find":
                            s4.cells.pop(arg.cell, None)
                        if b == (m != "all"):
                            outs.append(("exit", s4, FALSE if m == "all" else TRUE if m == "any" else some(item) if m == "find" else lambda z: some(z.cells[cells[1]])))
                            continue
                        if m == "position":
                            s4.cells[cells[1]] = simp(s4.cells[cells[1]] + 1)
                        outs.append(("back", s4, None))
            return outs
        return vloop(eng, st, [it] + ([I(0)] if m == "position" else []), step, name)
    if m == "count" and it.kind in ("seq", "range", "map"):
        return [(st, it_len(eng, st, it))]
    raise Unsupported("Iterator::" + m)
