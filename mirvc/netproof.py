"""C18: the bundled netlists as straight-line programs over bits.

The circuit is the one the real code builds (vreplay --dump runs build_*(), a closed program without inputs, and prints the gates it made).  Every
gate is a statement; the postcondition is the named function, written here as a program of word operations (ripple adders, conditional adders,
restoring division, AES of FIPS 197).  The verification conditions are intermediate assertions "gate g has the value of statement r of the
specification", found by simulation and each discharged for all inputs: cut the two cones at values already identified, then enumerate every
assignment of the cut (truth tables) or let z3 refute their difference.  Identified gates are replaced, so later obligations stay small.
A cut makes the obligation stronger than needed, so accepting one is sound.
"""
import heapq, os, random, subprocess, sys, time
import z3
from .mir import Unsupported
from .core import *
from . import lemmas

W = 64


class Dag:
    """XOR/AND graph with complemented edges; literal = 2*node + complement; node 0 is the constant 0."""

    def __init__(self):
        self.kind, self.args, self.hash = ["0"], [()], {}
        self.ref = [True]          # nodes of the specification (and inputs)

    def new(self, kind, args, ref):
        k = (kind, args)
        n = self.hash.get(k)
        if n is None:
            n = len(self.kind)
            self.hash[k] = n
            self.kind.append(kind)
            self.args.append(args)
            self.ref.append(ref)
        return n

    def inp(self, i):
        return 2 * self.new("in", (i,), True)

    def xor(self, a, b, ref=True):
        c = (a ^ b) & 1
        a, b = a & ~1, b & ~1
        if a == b:
            return c
        if a > b:
            a, b = b, a
        if a == 0:
            return b ^ c
        for u, v in ((a, b), (b, a)):
            if self.kind[v >> 1] == "x" and u in self.args[v >> 1]:      # u ^ (u ^ w) = w
                p, q = self.args[v >> 1]
                return (q if p == u else p) ^ c
            if self.kind[v >> 1] == "&":
                p, q = self.args[v >> 1]
                if q & ~1 == u:
                    p, q = q, p
                if p == u:                                                # (u & q) ^ u = u & ~q
                    return self.and_(u, q ^ 1, ref) ^ c
                if p == u ^ 1:                                            # (~u & q) ^ u = u | q
                    return self.and_(u ^ 1, q ^ 1, ref) ^ 1 ^ c
        return 2 * self.new("x", (a, b), ref) ^ c

    def and_(self, a, b, ref=True):
        if a > b:
            a, b = b, a
        if a == 0 or a == b ^ 1:
            return 0
        if a == 1 or a == b:
            return b
        for u, v in ((a, b), (b, a)):
            k = self.kind[v >> 1]
            if k == "x":
                p, q = self.args[v >> 1]
                if q == u & ~1:
                    p, q = q, p
                if p == u & ~1:                                           # u & (u ^ q) = u & ~q
                    return self.and_(u, q ^ (u & 1) ^ 1 ^ (v & 1), ref)
            elif k == "&":
                p, q = self.args[v >> 1]
                if q >> 1 == u >> 1:
                    p, q = q, p
                if p >> 1 == u >> 1:                                      # u & (u & q), u & ~(u & q), u & (~u & q), u & ~(~u & q)
                    if v & 1:
                        return u if p != u else self.and_(u, q ^ 1, ref)
                    return v if p == u else 0
        return 2 * self.new("&", (a, b), ref)

    def or_(self, a, b, ref=True):
        return self.and_(a ^ 1, b ^ 1, ref) ^ 1

    def table(self, t, args):
        """a function of up to 8 literals given by its truth table (an integer)"""
        return 2 * self.new("t", (t,) + tuple(args), True)

    def fanin(self, n):
        k = self.kind[n]
        return () if k in ("0", "in") else self.args[n][1:] if k == "t" else self.args[n]

    # words, least significant bit first
    def mux(self, s, a, b):
        """s ? a : b"""
        return self.xor(self.and_(self.xor(a, b), s), b)

    def add(self, a, b, c=0):
        out = []
        for x, y in zip(a, b):
            out.append(self.xor(self.xor(x, y), c))
            c = self.xor(self.and_(self.xor(x, c), self.xor(y, c)), c)
        return out, c

    def sub(self, a, b):
        """a - b and whether a >= b"""
        return self.add(a, [x ^ 1 for x in b], 1)

    def neg(self, a):
        out, c = [], 1
        for i, x in enumerate(a):
            out.append(self.xor(x ^ 1, c))
            if i + 1 < len(a):
                c = self.and_(x ^ 1, c)
        return out


# ---- the specifications
def s_add(d, x):
    return d.add(x[:W], x[W:])[0]


def s_sub(d, x):
    return d.sub(x[:W], x[W:])[0]


def s_neg(d, x):
    return d.neg(x)


def s_mul(d, x):
    b, a = x[:W], x[W:]
    lo, acc = [], [d.and_(a[0], y) for y in b] + [0]
    for i in range(1, W):
        lo.append(acc[0])
        row = [d.and_(a[i], y) for y in b]
        s, c = d.add(acc[1:], row)
        acc = s + [c]
    return acc[1:] + lo + acc[:1]          # high word first


def s_udiv(d, x):
    """restoring division; for b != 0"""
    a, b = x[:W], x[W:]
    above = [0] * (W + 1)                  # above[k]: some bit of b at or above k
    for k in range(W - 1, -1, -1):
        above[k] = d.or_(b[k], above[k + 1])
    q, r = [0] * W, []
    for k in range(W):                     # r has k bits before step k
        i = W - 1 - k
        r = [a[i]] + r
        dif, ge = d.sub(r, b[:k + 1])
        q[i] = d.and_(ge, above[k + 1] ^ 1)
        r = [d.mux(q[i], y, z) for y, z in zip(dif, r)]
    return q


def s_sdiv(d, x):
    """the quotient of the absolute values by non-restoring division, negated if the signs differ; for b != 0"""
    a, b = x[:W], x[W:]
    sa, sb = a[-1], b[-1]
    absd = lambda w, s: [d.xor(d.and_(y, s), d.and_(z, s ^ 1)) for y, z in zip(d.neg(w), w)]
    a, b = absd(a, sa), absd(b, sb)
    q, r = [0] * W, d.neg(b[:-1]) + [1]     # r = -b, as if a step with a zero bit had been made (0 < b <= 2^63: its top bit is set)
    for i in range(W - 1, -1, -1):
        # r >= 0: 2r + a_i - b = ~(~(2r + a_i) + b); r < 0: 2r + a_i + b
        pos, x, c = r[-1] ^ 1, [a[i]] + r[:-1], 0
        r = []
        for y, z in zip(x, b):
            r.append(d.xor(d.xor(y, z), c))
            y = d.xor(y, pos)
            if len(r) < W:
                c = d.xor(d.and_(d.xor(y, c), d.xor(z, c)), c)
        q[i] = r[-1] ^ 1
    return absd(q, d.xor(sa, sb))


def gm(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


def sbox():
    inv = [0] * 256
    for x in range(1, 256):
        for y in range(1, 256):
            if gm(x, y) == 1:
                inv[x] = y
                break
    rot = lambda v, k: ((v << k) | (v >> (8 - k))) & 255
    return [inv[x] ^ rot(inv[x], 1) ^ rot(inv[x], 2) ^ rot(inv[x], 3) ^ rot(inv[x], 4) ^ 0x63 for x in range(256)]


def s_aes(d, x):
    sb = sbox()
    tabs = [sum(((sb[v] >> i) & 1) << v for v in range(256)) for i in range(8)]
    byte = lambda w: list(reversed(w))                         # most significant bit first in the interface
    sub = lambda v: [d.table(t, v) for t in tabs]
    xw = lambda u, v: [d.xor(p, q) for p, q in zip(u, v)]

    def xt(v):
        return [v[7]] + [d.xor(v[i - 1], v[7]) if (0x1b >> i) & 1 else v[i - 1] for i in range(1, 8)]
    m = [byte(x[8 * i:8 * i + 8]) for i in range(16)]
    k = [byte(x[128 + 8 * i:128 + 8 * i + 8]) for i in range(16)]
    w = [k[4 * i:4 * i + 4] for i in range(4)]
    rc = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [sub(t[1]), sub(t[2]), sub(t[3]), sub(t[0])]
            t[0] = [b ^ ((rc >> j) & 1) for j, b in enumerate(t[0])]
            rc = gm(rc, 2)
        w.append([xw(p, q) for p, q in zip(w[i - 4], t)])
    s = [xw(m[i], w[i // 4][i % 4]) for i in range(16)]
    for r in range(1, 11):
        s = [sub(v) for v in s]
        s = [s[4 * ((c + q) % 4) + q] for c in range(4) for q in range(4)]
        if r < 10:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                for q in range(4):
                    b0, b1, b2, b3 = a[q], a[(q + 1) % 4], a[(q + 2) % 4], a[(q + 3) % 4]
                    o.append(xw(xw(xt(xw(b0, b1)), b1), xw(b2, b3)))
            s = o
        s = [xw(s[i], w[4 * r + i // 4][i % 4]) for i in range(16)]
    return [b for v in s for b in reversed(v)]


SPEC = {"adder64": (128, 64, s_add, None), "sub64": (128, 64, s_sub, None), "neg64": (64, 64, s_neg, None), "mult2_64": (128, 128, s_mul, None),
        "divide_unsigned_64": (128, 64, s_udiv, "divisor"), "divide_signed_64": (128, 64, s_sdiv, "divisor"), "aes128": (256, 128, s_aes, None)}

# ---- simulation
LANES = 16384
DEBUG = None


def patterns(name, nin, seed=7):
    rng = random.Random(seed)
    ones = (1 << LANES) - 1
    if name == "aes128":
        return [rng.getrandbits(LANES) for _ in range(nin)]

    def word():
        c = rng.randrange(12)
        v = (rng.getrandbits(4), (1 << 64) - 1 - rng.getrandbits(2), 1 << rng.randrange(64), (1 << rng.randrange(64)) - 1, (1 << 63) + rng.randrange(4) - 2,
             rng.getrandbits(64) >> rng.randrange(64), -(rng.getrandbits(64) >> rng.randrange(64)), rng.getrandbits(64), rng.getrandbits(64),
             rng.getrandbits(64) << rng.randrange(64), (rng.getrandbits(64) << rng.randrange(64)) + rng.getrandbits(3), -(rng.getrandbits(64) << rng.randrange(64)) - rng.getrandbits(3))[c]
        return v % (1 << 64)
    cols = [0] * nin
    for l in range(LANES):
        ws = [word() for _ in range(nin // W)]
        if len(ws) == 2 and rng.randrange(6) == 0:
            ws[1] = (ws[0] + rng.randrange(3) - 1) % (1 << 64)
        if name.startswith("divide") and ws[1] == 0:
            ws[1] = 1
        for i in range(nin):
            if (ws[i // W] >> (i % W)) & 1:
                cols[i] |= 1 << l
    return cols


def table_eval(t, xs, ones):
    """the truth table t (bit v: value at arguments v) on bit-parallel arguments"""
    def go(t, k, memo):
        if k == 0:
            return ones if t & 1 else 0
        key = (k, t)
        r = memo.get(key)
        if r is None:
            h = 1 << (k - 1)
            lo, hi = t & ((1 << h) - 1), t >> h
            a, b = go(lo, k - 1, memo), go(hi, k - 1, memo)
            r = a if lo == hi else (a ^ ((a ^ b) & xs[k - 1]))
            memo[key] = r
        return r
    return go(t, len(xs), {})


def evaluate(d, nodes, val, ones):
    """values of the given nodes (in topological order) from those in val"""
    lit = lambda l: val[l >> 1] ^ (ones if l & 1 else 0)
    for n in nodes:
        if n in val:
            continue
        k, a = d.kind[n], d.args[n]
        if k == "x":
            val[n] = lit(a[0]) ^ lit(a[1])
        elif k == "&":
            val[n] = lit(a[0]) & lit(a[1])
        elif k == "t":
            val[n] = table_eval(a[0], [lit(x) for x in a[1:]], ones)
        else:
            val[n] = 0
    return val


class Proof:
    def __init__(self, name, d, deadline, assume=None):
        self.name, self.d, self.deadline, self.assume = name, d, deadline, assume
        self.tt = self.sat = self.gave_up = 0

    def cone(self, roots, cut, most=6000):
        """the nodes between the roots and the cut in topological order, and the leaves"""
        d, order, leaves, seen = self.d, [], [], set()
        stack = [(r, False) for r in roots]
        while stack:
            n, ready = stack.pop()
            if ready:
                order.append(n)
                continue
            if n in seen:
                continue
            seen.add(n)
            if n == 0:
                order.append(n)
            elif n in cut or d.kind[n] == "in":
                leaves.append(n)
            else:
                stack.append((n, True))
                stack.extend((l >> 1, False) for l in d.fanin(n))
            if len(seen) > most:
                return None, None
        return order, leaves

    def equal(self, a, b):
        """a == b as functions of the inputs?  Tries cuts from the shallowest to the deepest."""
        d = self.d
        na, nb, c = a >> 1, b >> 1, (a ^ b) & 1
        if nb == 0:
            return self.constant(na, c)
        # leaves of the cone of the gate: the values of the specification it is computed from
        cut, work, seen = set(), [na], set()
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            if n != na and d.ref[n]:
                cut.add(n)
            else:
                work.extend(l >> 1 for l in d.fanin(n))
        tries = 0
        while tries < 7:
            if time.time() > self.deadline:
                raise Timeout()
            tries += 1
            r = any(self.on_cut(na, nb, c, cut, k) for k in (6, 40)) or self.on_cut(na, nb, c, cut, 300)
            if r:
                return True
            if r is None:
                return False
            # go one level down from the latest leaves
            if not cut:
                return False
            m = max(cut)
            deep = [n for n in cut if n > m - 600] if len(cut) < 40 else [m]
            nxt = set(cut)
            for n in deep:
                if d.kind[n] not in ("in", "0"):
                    nxt.discard(n)
                    nxt.update(l >> 1 for l in d.fanin(n) if l >> 1)
            if nxt == cut:
                return False
            cut = nxt
        return False

    def constant(self, n, c):
        """n has the constant value c whenever the precondition holds"""
        order, leaves = self.cone([n] + ([self.assume >> 1] if self.assume else []), set())
        return order is not None and self.refuted(order, leaves, n, 0, c)

    def on_cut(self, na, nb, c, cut, size):
        # the specification's side, cut at the same leaves and at anything older than all of them
        old = min(cut) if cut else 0
        d = self.d
        cb, heap, seen = set(cut), [-nb], {nb}
        done = 0
        while heap:
            n = -heapq.heappop(heap)
            if n in cut:
                continue
            if (n < old and n != nb) or done >= size:
                cb.add(n)
                continue
            done += 1
            for l in d.fanin(n):
                if l >> 1 not in seen:
                    seen.add(l >> 1)
                    heapq.heappush(heap, -(l >> 1))
        cb.discard(na)
        cb.discard(nb) if nb not in cut else None
        order, leaves = self.cone([na, nb], cb)
        if order is None:
            return None
        if len(leaves) <= 13:
            self.tt += 1
            N = 1 << len(leaves)
            ones = (1 << N) - 1
            val = {}
            for i, l in enumerate(leaves):
                h = 1 << i
                v = (((1 << h) - 1) << h)
                w = 2 * h
                while w < N:
                    v |= v << w
                    w *= 2
                val[l] = v
            evaluate(d, order, val, ones)
            x = val[na] ^ val[nb] ^ (ones if c else 0)
            return x == 0
        if len(order) > 1500:
            return None
        return self.refuted(order, leaves, na, nb, c)

    def refuted(self, order, leaves, na, nb, c):
        self.sat += 1
        s, ex = self.encode(order, leaves, 4000)
        s.add(z3.Xor(ex[na], ex[nb]) if not c else ex[na] == ex[nb])
        return s.check() == z3.unsat

    def encode(self, order, leaves, timeout):
        d = self.d
        s = z3.SimpleSolver()
        s.set("timeout", timeout)
        ex = {l: z3.Bool("n%d" % l) for l in leaves}
        lit = lambda l: z3.Not(ex[l >> 1]) if l & 1 else ex[l >> 1]
        for n in order:
            k, a = d.kind[n], d.args[n]
            v = z3.BoolVal(False) if k == "0" else z3.Xor(lit(a[0]), lit(a[1])) if k == "x" else z3.And(lit(a[0]), lit(a[1])) if k == "&" else z_table(a[0], [lit(x) for x in a[1:]])
            ex[n] = z3.Bool("n%d" % n)
            s.add(ex[n] == v)
        ex[0] = z3.BoolVal(False)
        if self.assume and self.assume >> 1 in ex:
            s.add(lit(self.assume))
        return s, ex

    def witness(self, l, ins):
        """an input satisfying the precondition on which the literal is true (or None)"""
        if self.gave_up > 3 or time.time() > self.deadline - 40:
            return None
        order, leaves = self.cone([l >> 1] + ([self.assume >> 1] if self.assume else []), set(), 60000)
        if order is None:
            return None
        s, ex = self.encode(order, leaves, 20000)
        s.add(z3.Not(ex[l >> 1]) if l & 1 else ex[l >> 1])
        if s.check() != z3.sat:
            self.gave_up += 1
            return None
        m = s.model()
        return sum(1 << i for i, x in enumerate(ins) if x >> 1 in ex and z3.is_true(m.eval(ex[x >> 1])))


def z_table(t, xs, memo=None):
    memo = {} if memo is None else memo
    r = memo.get((len(xs), t))
    if r is None:
        if not xs:
            return z3.BoolVal(bool(t & 1))
        h = 1 << (len(xs) - 1)
        lo, hi = t & ((1 << h) - 1), t >> h
        a = z_table(lo, xs[:-1], memo)
        r = memo[(len(xs), t)] = a if lo == hi else z3.If(xs[-1], z_table(hi, xs[:-1], memo), a)
    return r


def dump(name):
    exe = os.environ.get("VP_REPLAY_EXE")
    if not exe:
        raise Unsupported("no dump of the bundled circuits (VP_REPLAY_EXE)")
    try:
        p = subprocess.run([exe, "--dump", name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=100)
    except subprocess.TimeoutExpired:
        raise Unsupported("building %s does not end" % name)
    if p.returncode != 0:
        raise Unsupported("building %s fails: %s" % (name, p.stderr[-300:]))
    return [l.split() for l in p.stdout.splitlines()]


class Matcher:
    """Adds gates one by one, identifying each with an older statement of the specification where that can be proved."""

    def __init__(self, name, nin, deadline):
        self.d = Dag()
        self.ones = (1 << LANES) - 1
        self.ins = [self.d.inp(i) for i in range(nin)]
        self.val = {0: 0}
        self.sig = {0: [0]}
        for l, v in zip(self.ins, patterns(name, nin)):
            self.val[l >> 1] = v
            self.sig.setdefault(v ^ self.ones if v & 1 else v, []).append(l + (v & 1))
        self.pr = Proof(name, self.d, deadline)
        self.same = self.open = 0

    def gate(self, kind, a, ref):
        """The literal of the gate and the statement it was identified with by a proof (or None)."""
        d = self.d
        f = len(d.kind)
        r = d.table(a[0], a[1:]) if kind == "t" else d.xor(a[0], a[1], ref) if kind == "x" else d.and_(a[0], a[1], ref)
        n = r >> 1
        if n < f:
            return r, None
        evaluate(d, [n], self.val, self.ones)
        v = self.val[n]
        c = v & 1
        key = v ^ self.ones if c else v
        if ref:
            self.sig.setdefault(key, []).append(2 * n + c)
            return r, None
        cands = self.sig.get(key, [])
        for cand in (cands[:1] if cands[:1] == [0] else cands[:3] + cands[3:][:-4:-1]):
            # node n with complement c has the signature of cand
            if self.pr.equal(2 * n + c, cand):
                self.same += 1
                d.ref[n] = False
                return r ^ (2 * n + c) ^ cand, cand >> 1
        self.open += 1
        return r, None


def simulate(name, lines, raw, want, seed):
    """The netlist and its specification side by side on the patterns of one seed: the first input they differ on, as {output: input bits}."""
    cols, ones, val = patterns(name, SPEC[name][0], seed), (1 << LANES) - 1, {}
    for i, c in enumerate(cols):
        val[raw.inp(i) >> 1] = c
    evaluate(raw, range(len(raw.kind)), val, ones)
    v, bad = {}, {}
    for l in lines:
        k, a = l[1], l[2:]
        if k == "Output":
            w = val[want[int(a[0])] >> 1] ^ (ones if want[int(a[0])] & 1 else 0)
            x = v[l[0]] ^ w
            if x:
                n = (x & -x).bit_length() - 1
                bad[int(a[0])] = sum(((c >> n) & 1) << i for i, c in enumerate(cols))
            continue
        v[l[0]] = cols[int(a[0])] if k == "Input" else (ones if a[0] == "1" else 0) if k == "Const" else v[a[0]] ^ ones if k == "Not" else \
            v[a[0]] ^ v[a[1]] if k == "Xor" else v[a[0]] & v[a[1]] if k == "And" else v[a[0]] | v[a[1]]
    return bad


def netlist(name):
    def run(crate, results, deadline):
        from . import builders
        t0 = time.time()
        nin, nout, spec, cond = SPEC[name]
        lines = dump(name)
        def obl(what, okay, detail="", be="", model=None):
            results.append(Obligation(name + ": " + what, "proved" if okay else "refuted" if model else "unknown", detail, backend=be, definite=bool(model), model=model))
        got_in = [l for l in lines if l[1] == "Input"]
        outs = [l for l in lines if l[1] == "Output"]
        obl("as many inputs and outputs as specified", len(got_in) == nin and len(outs) == nout, "%d, %d" % (len(got_in), len(outs)), "count")
        if len(got_in) != nin or len(outs) != nout:
            return
        # the specification, statement by statement
        raw = Dag()
        want = spec(raw, [raw.inp(i) for i in range(nin)])
        # a circuit that computes something else mostly does so on some of the patterns
        for i, x in sorted(simulate(name, lines, raw, want, 7).items()):
            obl("output %d is the specified function of the inputs" % i, False, "differs on input %x" % x, "simulation", {"circuit": name, "x": x})
        if any(o.status == "refuted" for o in results):
            return
        m = Matcher(name, nin, min(deadline, t0 + 400))
        nz = 0
        for l in m.ins[W:] if cond else ():
            nz = m.gate("&", (nz ^ 1, l ^ 1), True)[0] ^ 1
        if cond:
            m.pr.assume = nz
        at = {0: 0}
        tr = lambda l: at[l >> 1] ^ (l & 1)
        for n in range(1, len(raw.kind)):
            k, a = raw.kind[n], raw.args[n]
            at[n] = m.ins[a[0]] if k == "in" else m.gate(k, (a[0],) + tuple(map(tr, a[1:])) if k == "t" else tuple(map(tr, a)), True)[0]
        want = [tr(l) for l in want]
        nref = len(m.d.kind)
        lit = {}
        for l in lines:
            k = l[1]
            if k == "Output":
                continue
            if k == "Input":
                lit[l[0]] = m.ins[int(l[2])]
            elif k == "Const":
                lit[l[0]] = int(l[2])
            elif k == "Not":
                lit[l[0]] = lit[l[2]] ^ 1
            else:
                x, y = lit[l[2]], lit[l[3]]
                neg = k == "Or"
                r, s = m.gate("x" if k == "Xor" else "&", (x ^ neg, y ^ neg), False)
                lit[l[0]] = r ^ neg
                if s is not None:
                    obl("gate %s has the value of statement %d of the specification" % (l[0], s), True, "", "cut enumeration / z3")
            if DEBUG:
                DEBUG(l, lit[l[0]], m.d)
        for l in outs:
            i = int(l[2])
            a, b = lit[l[0]], want[i]
            okay = a == b or m.pr.equal(a, b)
            x = None if okay else m.pr.witness(m.d.xor(a, b, False), m.ins)
            obl("output %d is the specified function of the inputs" % i, okay, "" if okay else "not decided" if x is None else "differs on input %x" % x, "cut enumeration / z3",
                None if x is None else {"circuit": name, "x": x})
        if builders.STATS is not None:
            builders.STATS.append({"inlined": set(), "contracts": set(), "models": set(), "solver_s": round(time.time() - t0, 2), "queries": m.pr.tt + m.pr.sat})
        if os.environ.get("VP_NET_DEBUG"):
            sys.stderr.write("%s: %d spec nodes, %d identified, %d gates without counterpart, %d tables, %d sat, %.1fs\n" % (
                name, nref, m.same, m.open, m.pr.tt, m.pr.sat, time.time() - t0))
    return run


def rules(crate, results, deadline):
    """The rewriting of Dag is by identities, and the word programs above compute what integers do."""
    bad, n = [], 0
    V = {0: 0, 1: 0xaaaa, 2: 0xcccc, 3: 0xf0f0, 4: 0xff00}

    def run(d, l):
        return evaluate(d, range(len(d.kind)), {k: V[k] for k in V if k < len(d.kind)}, 0xffff)[l >> 1] ^ (0xffff if l & 1 else 0)
    ops = {"x": (lambda d, a, b: d.xor(a, b), lambda u, v: u ^ v), "&": (lambda d, a, b: d.and_(a, b), lambda u, v: u & v)}
    leaf = range(0, 8)
    # every gate over every pair of gates over constants and variables, with every complement
    for o1, (g1, f1) in ops.items():
        for o2, (g2, f2) in ops.items():
            for p in leaf:
                for q in leaf:
                    for o3, (g3, f3) in [("-", (None, None))] + sorted(ops.items()):
                        for r in leaf:
                            for t in (leaf if g3 else (0,)):
                                for c in (0, 1):
                                    d = Dag()
                                    for i in range(4):
                                        d.inp(i)
                                    lv = lambda l: V[l >> 1] ^ (0xffff if l & 1 else 0)
                                    a = g1(d, p, q)
                                    b = r if g3 is None else g3(d, r, t)
                                    w = f2(f1(lv(p), lv(q)) ^ (0xffff if c else 0), lv(r) if g3 is None else f3(lv(r), lv(t)))
                                    n += 1
                                    if run(d, g2(d, a ^ c, b)) != w:
                                        bad.append((o1, o2, o3, p, q, r, t, c))
    results.append(Obligation("rewriting of gates over gates keeps their value (%d forms)" % n, "unknown" if bad else "proved", str(bad[:3]), backend="enumeration"))
    L = lemmas.Lib()
    I = z3.Ints
    x, y, c, s, e, A, Bv, C, v, p, q, b, r, R, a, m = I("x y c s e A B C v p q b r R a m")
    bit = lambda *l: [z3.And(0 <= t, t <= 1) for t in l]
    bs = {n: z3.Bool(n) for n in "xyc"}
    n01 = lambda t: z3.If(t, 1, 0)
    su, ca = z3.Xor(z3.Xor(bs["x"], bs["y"]), bs["c"]), z3.Xor(z3.And(z3.Xor(bs["x"], bs["c"]), z3.Xor(bs["y"], bs["c"])), bs["c"])
    L.prove("full adder: x + y + c = s + 2c'", [], n01(bs["x"]) + n01(bs["y"]) + n01(bs["c"]) == n01(su) + 2 * n01(ca))
    L.prove("ripple addition: v + c*2^k = A + B + c0 is kept by one more bit", [v + c * p == A + Bv + C, x + y + c == s + 2 * e], (v + p * s) + e * (2 * p) == (A + x * p) + (Bv + y * p) + C)
    L.prove("subtraction by adding the complement and one: the carry says A >= B", [0 <= v, v < p, 0 <= A, A < p, 0 <= Bv, Bv < p, *bit(c), v + c * p == A + (p - 1 - Bv) + 1],
            z3.And((c == 1) == (A >= Bv), v == z3.If(A >= Bv, A - Bv, A - Bv + p)))
    L.prove("product rows: acc + 2^i * a_i * B", [v == A * Bv, *bit(x)], v + p * x * Bv == (A + p * x) * Bv)
    L.prove("restoring step", [A == q * b + r, 0 <= r, r < b, *bit(a)],
            z3.If(2 * r + a >= b, z3.And(2 * A + a == (2 * q + 1) * b + (2 * r + a - b), 2 * r + a - b >= 0, 2 * r + a - b < b), z3.And(2 * A + a == 2 * q * b + (2 * r + a), 2 * r + a < b)))
    L.prove("restoring step: a divisor of more bits than the remainder is larger", [b >= p, r < p], r < b)
    x2 = z3.If(r >= 0, 2 * r + a - b, 2 * r + a + b)
    L.prove("non-restoring step follows the restoring one", [R == z3.If(r >= 0, r, r + b), 0 <= R, R < b, *bit(a)],
            z3.And((x2 >= 0) == (2 * R + a >= b), z3.If(x2 >= 0, x2, x2 + b) == z3.If(2 * R + a >= b, 2 * R + a - b, 2 * R + a), -b <= x2, x2 < b))
    L.prove("the quotient and remainder of a division are unique", [b > 0, q * b + r == m * b + R, 0 <= r, r < b, 0 <= R, R < b], z3.And(q == m, r == R))
    sg = z3.If((A < 0) != (Bv < 0), -q, q)
    L.prove("truncated division from absolute values", [Bv != 0, b == z3.If(Bv < 0, -Bv, Bv), a == z3.If(A < 0, -A, A), a == q * b + r, 0 <= r, r < b],
            z3.And(A == sg * Bv + z3.If(A < 0, -r, r)))
    results.extend(L.obs)
    bits = lambda h: sum(int("{:08b}".format(v)[::-1], 2) << (8 * i) for i, v in enumerate(bytes.fromhex(h)))
    if r_aes(bits("00112233445566778899aabbccddeeff") | bits("000102030405060708090a0b0c0d0e0f") << 128) != bits("69c4e0d86a7b0430d8cdb78070b4c55a"):
        raise Unsupported("the reference for AES fails the example of FIPS 197")
    for name, f in REFER.items():
        nin, nout, spec, cond = SPEC[name]
        raw = Dag()
        want = spec(raw, [raw.inp(i) for i in range(nin)])
        cols, ones, val = patterns(name, nin, 11), (1 << LANES) - 1, {}
        for i, cc in enumerate(cols):
            val[raw.inp(i) >> 1] = cc
        evaluate(raw, range(len(raw.kind)), val, ones)
        out = [val[l >> 1] ^ (ones if l & 1 else 0) for l in want]
        for l in range(0, LANES, 1 if nin < 256 else 64):
            ins = sum(((c >> l) & 1) << i for i, c in enumerate(cols))
            got = sum(((c >> l) & 1) << i for i, c in enumerate(out))
            if got != f(ins):
                raise Unsupported("the specification of %s is wrong on %x" % (name, ins))


M64 = (1 << W) - 1
sgn = lambda v: v - (1 << W) if v >> 63 else v


def r_aes(x):
    """FIPS 197 on bytes"""
    rev = lambda v: int("{:08b}".format(v)[::-1], 2)
    m, k = ([rev((x >> (o + 8 * i)) & 255) for i in range(16)] for o in (0, 128))
    S = SBOX
    w = [k[4 * i:4 * i + 4] for i in range(4)]
    rc = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [S[t[1]] ^ rc, S[t[2]], S[t[3]], S[t[0]]]
            rc = gm(rc, 2)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    key = lambda r: sum(w[4 * r:4 * r + 4], [])
    s = [a ^ b for a, b in zip(m, key(0))]
    for r in range(1, 11):
        s = [S[v] for v in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < 10:
            s = [gm(2, s[4 * c + q]) ^ gm(3, s[4 * c + (q + 1) % 4]) ^ s[4 * c + (q + 2) % 4] ^ s[4 * c + (q + 3) % 4] for c in range(4) for q in range(4)]
        s = [a ^ b for a, b in zip(s, key(r))]
    return sum(rev(v) << (8 * i) for i, v in enumerate(s))


def r_sdiv(x):
    a, b = sgn(x & M64), sgn(x >> W)
    q = abs(a) // abs(b)
    return (-q if (a < 0) != (b < 0) else q) & M64


def r_mul(x):
    p = (x & M64) * (x >> W)
    return (p >> W) | ((p & M64) << W)


# the same functions on integers: a test of the specifications, not a proof
REFER = {"adder64": lambda x: ((x & M64) + (x >> W)) & M64, "sub64": lambda x: ((x & M64) - (x >> W)) & M64, "neg64": lambda x: -x & M64, "mult2_64": r_mul,
         "divide_unsigned_64": lambda x: (x & M64) // (x >> W), "divide_signed_64": r_sdiv, "aes128": r_aes}
SBOX = sbox()


def tasks(prop):
    if prop != "C18":
        return []
    return [("lemmas and rewriting rules", rules)] + [(n, netlist(n)) for n in sorted(SPEC, key=lambda n: -SPEC[n][0])]
