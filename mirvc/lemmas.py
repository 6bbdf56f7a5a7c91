"""The number-theoretic lemmas the contracts rely on, each discharged by z3 (induction: a base and a step) on every run.

Bit sequences are arbitrary functions from indices to booleans; NX(i) is the number formed by the first i bits; P(i) = 2^i.
"""
import z3, time
from .core import Obligation

I, B = z3.IntSort(), z3.BoolSort()
P = z3.Function("P", I, I)
i, j, m, n, k, t = z3.Ints("i j m n k t")


def bits(nm):
    return z3.Function(nm, I, B)


def num(nm, b):
    """The partial sums of a bit sequence and their recurrence at a given index."""
    N = z3.Function(nm, I, I)
    return N, lambda x: [N(0) == 0, N(x + 1) == N(x) + z3.If(b(x), P(x), 0)]


def pw(*xs):
    out = [P(0) == 1]
    for x in xs:
        out += [P(x + 1) == 2 * P(x), P(x) >= 1, P(x + 1) >= 1]
    return out


class Lib:
    def __init__(self):
        self.obs = []

    def prove(self, name, hyps, goal, timeout=20000):
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(hyps)
        s.add(z3.Not(goal))
        r = s.check()
        self.obs.append(Obligation("lemma " + name, "proved" if r == z3.unsat else "unknown", "" if r == z3.unsat else str(r), time.time() - t0))
        return r == z3.unsat

    def induct(self, name, base_h, base, step_h, hyp, step):
        a = self.prove(name + " (base)", base_h, base)
        b = self.prove(name + " (step)", step_h + [hyp], step)
        return a and b


def prove_all():
    L = Lib()
    x, y = bits("x"), bits("y")
    NX, rx = num("NX", x)
    NY, ry = num("NY", y)

    # powers of two
    L.induct("powers: 2^i >= 1", [P(0) == 1], P(0) >= 1, [i >= 0, P(i + 1) == 2 * P(i)], P(i) >= 1, P(i + 1) >= 1)
    L.induct("powers: 2^(m+i) = 2^m * 2^i", [P(0) == 1], P(m + 0) == P(m) * P(0),
             [i >= 0, P(i + 1) == 2 * P(i), P(m + i + 1) == 2 * P(m + i)], P(m + i) == P(m) * P(i), P(m + i + 1) == P(m) * P(i + 1))
    L.induct("powers: strictly increasing", [P(m + 1) == 2 * P(m), P(m) >= 1], P(m) < P(m + 1),
             [i >= 0, P(m + i + 2) == 2 * P(m + i + 1), P(m + i + 1) >= 1], P(m) < P(m + i + 1), P(m) < P(m + i + 2))
    a, b, c = z3.Ints("a b c")
    L.prove("scaling: 2^o * v >= v, monotone, and 2^o * 1 = 2^o", [P(i) >= 1, a >= 0], z3.And(P(i) * a >= a, P(i) * 1 == P(i), P(i) * 0 == 0))

    # range and top bit
    L.induct("range: 0 <= N(i) < 2^i", rx(i) + pw(i), z3.And(NX(0) >= 0, NX(0) < P(0)),
             rx(i) + pw(i) + [i >= 0], z3.And(NX(i) >= 0, NX(i) < P(i)), z3.And(NX(i + 1) >= 0, NX(i + 1) < P(i + 1)))
    L.prove("top bit: x_{n-1} iff N(n) >= 2^(n-1)", rx(n - 1) + pw(n - 1) + [n >= 1, NX(n) == NX(n - 1 + 1), NX(n - 1) >= 0, NX(n - 1) < P(n - 1)], x(n - 1) == (NX(n) >= P(n - 1)))

    # complement, constants
    nx = lambda v: z3.Not(x(v))
    NN, rn = num("NN", nx)
    L.induct("complement: N(not x) = 2^i - 1 - N(x)", rx(i) + rn(i) + pw(i), NN(0) == P(0) - 1 - NX(0), rx(i) + rn(i) + pw(i) + [i >= 0], NN(i) == P(i) - 1 - NX(i), NN(i + 1) == P(i + 1) - 1 - NX(i + 1))
    v = z3.Bool("v")
    NC, rc = num("NC", lambda _: v)
    L.induct("constant bits: N = v ? 2^i - 1 : 0", rc(i) + pw(i), NC(0) == z3.If(v, P(0) - 1, 0), rc(i) + pw(i) + [i >= 0], NC(i) == z3.If(v, P(i) - 1, 0), NC(i + 1) == z3.If(v, P(i + 1) - 1, 0))
    NA, ra = num("NA", lambda q: z3.And(v, x(q)))
    L.induct("gating: N(v and x) = v ? N(x) : 0", ra(i) + rx(i), NA(0) == z3.If(v, NX(0), 0), ra(i) + rx(i), NA(i) == z3.If(v, NX(i), 0), NA(i + 1) == z3.If(v, NX(i + 1), 0))

    # concatenation: x_0..x_{m-1} followed by y
    H, rh = num("H", lambda q: x(m + q))
    L.induct("concatenation: N(m+i) = N(m) + 2^m * N(tail, i)", [H(0) == 0], NX(m + 0) == NX(m) + P(m) * H(0),
             [i >= 0, H(i + 1) == H(i) + z3.If(x(m + i), P(i), 0), NX(m + i + 1) == NX(m + i) + z3.If(x(m + i), P(m + i), 0), P(m + i) == P(m) * P(i)],
             NX(m + i) == NX(m) + P(m) * H(i), NX(m + i + 1) == NX(m) + P(m) * H(i + 1))
    # extensionality
    L.induct("extensionality: equal bits form equal numbers", rx(i) + ry(i), NX(0) == NY(0), rx(i) + ry(i) + [x(i) == y(i)], NX(i) == NY(i), NX(i + 1) == NY(i + 1))

    # prefix equality
    E = bits("E")
    rng = lambda q: [NX(q) >= 0, NX(q) < P(q), NY(q) >= 0, NY(q) < P(q)]
    L.induct("prefix: (all bits below i agree) iff N(x) = N(y)", rx(i) + ry(i) + [E(0)], E(0) == (NX(0) == NY(0)),
             rx(i) + ry(i) + pw(i) + rng(i) + [i >= 0, E(i + 1) == z3.And(E(i), x(i) == y(i))], E(i) == (NX(i) == NY(i)), E(i + 1) == (NX(i + 1) == NY(i + 1)))

    # ripple carry
    C = bits("C")
    s = lambda q: z3.Xor(z3.Xor(x(q), y(q)), C(q))
    NS, rs = num("NS", s)
    cr = lambda q: [z3.Not(C(0)), C(q + 1) == z3.Or(z3.And(x(q), y(q)), z3.And(z3.Or(x(q), y(q)), C(q)))]
    inv = lambda q: NS(q) + z3.If(C(q), P(q), 0) == NX(q) + NY(q)
    L.induct("ripple: sum bits and carry form a + b", rx(i) + ry(i) + rs(i) + cr(i), inv(z3.IntVal(0)), rx(i) + ry(i) + rs(i) + cr(i) + pw(i) + [i >= 0], inv(i), inv(i + 1))
    L.prove("ripple: hence N(sum) = a + b mod 2^n", [inv(n), NS(n) >= 0, NS(n) < P(n)] + rng(n), NS(n) == z3.If(NX(n) + NY(n) >= P(n), NX(n) + NY(n) - P(n), NX(n) + NY(n)))

    # shift and add, mod 2^w with w = n (truncated rows) or any w >= n + t (full rows)
    M, Q, Pt, Pw, hi, low, X, Yt, w = z3.Ints("M Q Pt Pw hi low X Yt w")
    row = z3.If(y(t), Pt * low, 0)
    M1 = z3.If(M + row >= Pw, M + row - Pw, M + row)
    hyp = [M >= 0, M < Pw, Pt >= 1, low >= 0, Pt * low < Pw, Pt * X == Pt * low + Pw * hi]
    q1 = Q + z3.If(M + row >= Pw, 1, 0) + z3.If(y(t), hi, 0)
    L.prove("shift_add: truncated row, 2^t * x = 2^t * low + 2^n * high", [X == low + P(n - t) * hi, P(n) == P(t) * P(n - t)], P(t) * X == P(t) * low + P(n) * hi)
    L.prove("shift_add: a truncated row fits", [low >= 0, low <= P(n - t) - 1, P(n) == P(t) * P(n - t), P(t) >= 1], P(t) * low < P(n))
    L.prove("shift_add: a full row fits", [low >= 0, low <= a - 1, b == P(t) * a, P(t) >= 1, b <= Pw], P(t) * low < Pw)
    row0, XP = z3.Ints("row0 XP")
    # one step, with the products named: M = X*Yt - Q*Pw  ==>  M' = X*Yt' - Q'*Pw
    hPw, QPw, XY = z3.Ints("hPw QPw XY")
    r1 = z3.If(y(t), row0, 0)
    c1 = M + r1 >= Pw
    MM = z3.If(c1, M + r1 - Pw, M + r1)
    L.prove("shift_add: step", [M == XY - QPw, XP == row0 + hPw, M >= 0, M < Pw, row0 >= 0, row0 < Pw],
            z3.And(MM >= 0, MM < Pw, MM == (XY + z3.If(y(t), XP, 0)) - (QPw + z3.If(c1, Pw, 0) + z3.If(y(t), hPw, 0))))
    L.prove("shift_add: the products in the step", [], z3.And(X * (Yt + z3.If(y(t), Pt, 0)) == X * Yt + z3.If(y(t), X * Pt, 0),
            (Q + z3.If(c1, 1, 0) + z3.If(y(t), hi, 0)) * Pw == Q * Pw + z3.If(c1, Pw, 0) + z3.If(y(t), hi * Pw, 0)))
    L.prove("shift_add: base", [M == 0, Q == 0, Yt == 0], M == X * Yt - Q * Pw)
    L.prove("shift_add: hence the result is x * y mod 2^w", [M == XY - Q * Pw, M >= 0, M < Pw, Pw >= 1], M == XY % Pw)
    L.prove("product: special cases", [NY(n) >= 0, NY(n) < P(n)], z3.And((0 * NY(n)) % P(n) == 0, (1 * NY(n)) % P(n) == NY(n)))

    # bits of a number
    D = z3.Function("D", I, I)          # v div 2^i
    V = z3.Int("V")
    bo = lambda q: D(q) % 2 == 1
    NB, rb = num("NB", bo)
    L.induct("bits of a number: v = N(bits, i) + 2^i * (v div 2^i)", [D(0) == V, P(0) == 1, NB(0) == 0], V == NB(0) + P(0) * D(0),
             rb(i) + [i >= 0, V >= 0, D(i) >= 0, P(i + 1) == 2 * P(i), D(i + 1) == D(i) / 2], V == NB(i) + P(i) * D(i), V == NB(i + 1) + P(i + 1) * D(i + 1))
    L.prove("bits of a number: N(bits, n) = v when v < 2^n", [V == NB(n) + P(n) * D(n), V >= 0, V < P(n), NB(n) >= 0, NB(n) < P(n), D(n) >= 0, P(n) >= 1], NB(n) == V)
    # two's complement
    X, Y = z3.Ints("X Y")
    sg = lambda q: z3.If(q >= P(n - 1), q - P(n), q)
    dom = [P(n) == 2 * P(n - 1), P(n - 1) >= 1, X >= 0, X < P(n), Y >= 0, Y < P(n)]
    L.prove("two's complement: the signed value lies in [-2^(n-1), 2^(n-1))", dom, z3.And(sg(X) >= -P(n - 1), sg(X) < P(n - 1), sg(X) % P(n) == X))
    return L.obs


if __name__ == "__main__":
    for o in prove_all():
        print(o.status, o.name, round(o.time, 2) if hasattr(o, "time") else "")
