//! C10..C15, C19: bit vectors, integers, field elements at many widths.
use crate::model::*;
use crate::util::*;
use circuit_converters::num_bigint::{BigInt, BigUint};
use circuit_converters::{arithmetic, finite_field, logic};
use circuit_converters::*;

type S = String;
fn es<E: std::fmt::Display>(e: E) -> S { e.to_string() }

/// 64 assignments of `n` operands of `width` bits: corner values first, then random ones of varied shapes.
fn operand_lanes(rng: &mut Rng, n: usize, width: usize, exhaustive_base: u64) -> Vec<Vec<u64>> {
    let mut v = vec![vec![0u64; width]; n];
    let total = n * width;
    for k in 0..64usize {
        let ops: Vec<Vec<bool>> = if total <= 16 {
            let x = exhaustive_base * 64 + k as u64;
            (0..n).map(|j| (0..width).map(|i| (x >> (j * width + i)) & 1 == 1).collect()).collect()
        } else {
            let mut ops: Vec<Vec<bool>> = (0..n).map(|_| special(rng, width)).collect();
            if n == 2 && rng.chance(1, 4) {
                // related operands: equal, or next to each other
                ops[1] = ops[0].clone();
                if rng.chance(2, 3) { let up = rng.bool(); step(&mut ops[1], up) }
            }
            ops
        };
        for (j, o) in ops.iter().enumerate() {
            for i in 0..width { if o[i] { v[j][i] |= 1 << k } }
        }
    }
    v
}
fn step(b: &mut [bool], up: bool) {
    for x in b.iter_mut() { *x = !*x; if *x == up { break; } }
}
fn special(rng: &mut Rng, w: usize) -> Vec<bool> {
    let mut v: Vec<bool> = match rng.below(8) {
        0 => vec![false; w],
        1 => vec![true; w],
        2 => (0..w).map(|i| i == w - 1).collect(),
        3 => (0..w).map(|i| i != w - 1).collect(),
        4 => { let a = rng.below(w); (0..w).map(|i| i == a).collect() }
        5 => { let (a, b) = (rng.below(w), rng.below(w)); (0..w).map(|i| i >= a.min(b) && i <= a.max(b)).collect() }
        _ => (0..w).map(|_| rng.bool()).collect(),
    };
    if rng.chance(1, 4) { let u = rng.bool(); step(&mut v, u) }
    v
}
fn big(l: &[u64], k: usize) -> BigUint {
    let mut by = vec![0u8; l.len() / 8 + 1];
    for (i, x) in l.iter().enumerate() { if (x >> k) & 1 == 1 { by[i / 8] |= 1 << (i % 8) } }
    BigUint::from_bytes_le(&by)
}
fn signed(l: &[u64], k: usize) -> BigInt {
    let u = BigInt::from(big(l, k));
    if (l[l.len() - 1] >> k) & 1 == 1 { u - (BigInt::from(1) << l.len()) } else { u }
}
fn modulus(n: usize) -> BigUint { BigUint::from(1u32) << n }

fn run(c: &CRef, ins: &[u64], real: bool, rng: &mut Rng) -> Result<Vec<u64>, S> {
    let out = walk(c, ins)?;
    if real {
        for _ in 0..2 {
            let k = rng.below(64);
            let b = lane_bits(ins, k);
            let got = guarded(|| NXAOBoolEvaluator::new(c.clone()).eval_output(&b))?.map_err(es)?;
            if got != lane_bits(&out, k) { return Err(format!("the evaluator computes {} on {}, the circuit denotes {}", bits_str(&got), bits_str(&b), bits_str(&lane_bits(&out, k)))); }
        }
    }
    Ok(out)
}

fn exh(n: usize, w: usize) -> u64 { if n * w <= 6 { 1 } else if n * w <= 16 { 1 << (n * w - 6) } else { 0 } }

/// Calls `f` on enough operand batches: all of them when n*w <= 16, else `rounds` random batches.
fn batches(rng: &mut Rng, n: usize, w: usize, rounds: u64, mut f: impl FnMut(&mut Rng, Vec<Vec<u64>>) -> Result<(), S>) -> Result<(), S> {
    let e = exh(n, w);
    let (lo, hi) = if e == 0 { (0, rounds) } else if e <= 64 { (0, e) } else { let b = rng.u64() % e; (b, b + 64.min(e)) };
    for i in lo..hi {
        let v = operand_lanes(rng, n, w, if e == 0 { i } else { i % e });
        f(rng, v)?;
    }
    Ok(())
}

fn want_big(out: &[u64], k: usize, want: &BigUint, what: &str, a: &dyn std::fmt::Display, b: &dyn std::fmt::Display) -> Result<(), S> {
    let got = big(out, k);
    if &got != want { return Err(format!("{} of a={} b={} is {} instead of {}", what, a, b, got, want)); }
    Ok(())
}

/// Which of the 2 * width inputs each bit of the two operands is: mostly their own, sometimes shared or repeated gates.
struct Alias([Vec<usize>; 2]);
impl Alias {
    fn new(rng: &mut Rng, w: usize, may: bool) -> Alias {
        let mut m = [(0..w).collect::<Vec<usize>>(), (w..2 * w).collect()];
        if may { match rng.below(8) {
            0 => for i in 0..w { if rng.chance(1, 3) { m[1][i] = i } },
            1 => for i in 0..w { if rng.chance(2, 3) { m[1][i] = i } },
            2 => m[1] = (0..w).map(|_| rng.below(2 * w)).collect(),
            3 => { m[1] = m[0].clone(); let i = rng.below(w); m[1][i] = w + i }
            4 => { let t = rng.below(w); m[0] = (0..w).map(|i| if i < t { i } else { t }).collect() }
            _ => {}
        } }
        Alias(m)
    }
    fn plain(&self) -> bool { let w = self.0[0].len(); (0..w).all(|i| self.0[0][i] == i && self.0[1][i] == w + i) }
    fn pick<T: Clone>(&self, j: usize, ins: &[T]) -> Vec<T> { self.0[j].iter().map(|i| ins[*i].clone()).collect() }
    fn see(&self, v: &[Vec<u64>]) -> Vec<Vec<u64>> { let f = v.concat(); vec![self.pick(0, &f), self.pick(1, &f)] }
}

// ---------------------------------------------------------------- bit vectors

fn bits_case<const N: usize>(rng: &mut Rng, rounds: u64) -> Result<(), S> {
    let mut c = empty();
    if rng.bool() { let _ = c.sub_circuit(); }
    let cfg = logic::AllocBitsConfig::new(&c).map_err(es)?;
    let a = logic::AllocBits::<_, _, N>::new(&cfg).map_err(es)?;
    let b = logic::AllocBits::<_, _, N>::new(&cfg).map_err(es)?;
    let s = c.input().map_err(es)?;
    let al = Alias::new(rng, N, true);
    let (a, b) = if al.plain() { (a, b) } else {
        let f = [&a.bits[..], &b.bits[..]].concat();
        let of = |j| logic::AllocBits::<_, _, N>::from_gate_ids(al.pick(j, &f), &cfg).map_err(es);
        (of(0)?, of(1)?)
    };
    let mut asg = vec![a.clone(), a.clone(), a.clone()];
    asg[0] &= &b;
    asg[1] |= &b;
    asg[2] ^= &b;
    let k = rng.range(0, N);
    let low: Vec<GateId> = b.bits[..k].to_vec();
    let part = logic::AllocBits::<_, _, N>::from_gate_ids(low, &cfg).map_err(es)?;
    let vecs = vec![!&a, &a & &b, &a | &b, &a ^ &b, a.mux(&b, &s).map_err(es)?, asg[0].clone(), asg[1].clone(), asg[2].clone(), part];
    for v in &vecs {
        if v.bits.len() != N { return Err(format!("a result has {} bits at width {}", v.bits.len(), N)); }
        v.output().map_err(es)?;
    }
    let e1 = a.eq(&b).map_err(es)?;
    let e2 = a.neq(&b).map_err(es)?;
    c.output(e1).map_err(es)?;
    c.output(e2).map_err(es)?;
    a.output().map_err(es)?;
    b.output().map_err(es)?;
    if c.output_len() != N * 11 + 2 { return Err(format!("{} outputs at width {}", c.output_len(), N)); }
    batches(rng, 2, N, rounds, |rng, v| {
        let sel = rng.u64();
        let ins = [&v[0][..], &v[1][..], &[sel]].concat();
        let out = run(&c, &ins, true, rng)?;
        let v = al.see(&v);
        let (a, b) = (&v[0], &v[1]);
        let mut ne = 0;
        for i in 0..N {
            ne |= a[i] ^ b[i];
            let want = [!a[i], a[i] & b[i], a[i] | b[i], a[i] ^ b[i], (a[i] & !sel) | (b[i] & sel), a[i] & b[i], a[i] | b[i], a[i] ^ b[i], if i < k { b[i] } else { 0 }];
            for (j, w) in want.iter().enumerate() {
                if out[j * N + i] != *w {
                    let n = ["!", "&", "|", "^", "mux", "&=", "|=", "^=", "from_gate_ids"][j];
                    return Err(format!("width {}: bit {} of {} is wrong (operand lanes {:x} {:x}, select {:x}, got {:x})", N, i, n, a[i], b[i], sel, out[j * N + i]));
                }
            }
            if out[9 * N + 2 + i] != a[i] || out[10 * N + 2 + i] != b[i] { return Err(format!("width {}: operand bit {} changed", N, i)); }
        }
        if out[9 * N] != !ne { return Err(format!("width {}: eq is wrong: {:x} instead of {:x}", N, out[9 * N], !ne)); }
        if out[9 * N + 1] != ne { return Err(format!("width {}: neq is wrong: {:x} instead of {:x}", N, out[9 * N + 1], ne)); }
        Ok(())
    })
}

fn bits_builders(n: usize, rng: &mut Rng, rounds: u64) -> Result<(), S> {
    let mut c = empty();
    let mids = [
        logic::build_not_circuit(&mut c, n).map_err(es)?,
        logic::build_and_circuit(&mut c, n).map_err(es)?,
        logic::build_or_circuit(&mut c, n).map_err(es)?,
        logic::build_xor_circuit(&mut c, n).map_err(es)?,
        logic::build_eq_circuit(&mut c, n).map_err(es)?,
    ];
    let neq = logic::build_neq_circuit(&mut c, n, mids[4]).map_err(es)?;
    let get = |m: &ModuleId| c.get_module(m).map_err(es);
    for (i, m) in mids.iter().chain([neq].iter()).enumerate() {
        let m = get(m)?;
        let (wi, wo) = (if i == 0 { n } else { 2 * n }, if i < 4 { n } else { 1 });
        if m.input_len() != wi || m.output_len() != wo { return Err(format!("width {}: builder {} has {} inputs and {} outputs", n, i, m.input_len(), m.output_len())); }
    }
    batches(rng, 2, n, rounds, |_, v| {
        let (a, b) = (&v[0], &v[1]);
        let ab = [&a[..], &b[..]].concat();
        let o = walk(&get(&mids[0])?, a)?;
        for i in 0..n { if o[i] != !a[i] { return Err(format!("width {}: not is wrong at bit {}", n, i)); } }
        let mut ne = 0;
        for (j, nm) in ["and", "or", "xor"].iter().enumerate() {
            let o = walk(&get(&mids[1 + j])?, &ab)?;
            for i in 0..n {
                let w = match j { 0 => a[i] & b[i], 1 => a[i] | b[i], _ => a[i] ^ b[i] };
                if o[i] != w { return Err(format!("width {}: {} is wrong at bit {}", n, nm, i)); }
                ne |= a[i] ^ b[i];
            }
        }
        if walk(&get(&mids[4])?, &ab)?[0] != !ne { return Err(format!("width {}: eq is wrong", n)); }
        if walk(&get(&neq)?, &ab)?[0] != ne { return Err(format!("width {}: neq is wrong", n)); }
        Ok(())
    })
}

macro_rules! widths {
    ($f:ident, $n:expr, $args:tt; $($w:literal)*) => { match $n { $($w => $f::<$w> $args,)* _ => unreachable!() } };
}
const WIDTHS: [usize; 40] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40, 47, 48, 50, 63, 64, 65, 72, 96, 100, 127, 128, 129, 160, 200, 255, 256];
macro_rules! all_widths {
    ($f:ident, $n:expr, $args:tt) => { widths!($f, $n, $args; 1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 20 23 24 25 31 32 33 40 47 48 50 63 64 65 72 96 100 127 128 129 160 200 255 256) };
}
const MULW: [usize; 24] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 48, 63, 64, 65];

/// A width the replay is compiled for on demand (a verifier's counterexample for the const generic N).
const fn hint_width() -> usize {
    match option_env!("VP_WIDTH") {
        None => 1,
        Some(s) => { let b = s.as_bytes(); let (mut i, mut n) = (0, 0); while i < b.len() { n = 10 * n + (b[i] - b'0') as usize; i += 1; } n }
    }
}
const HW: usize = hint_width();
fn hinted(cx: &Ctx, max: usize, ops: impl Fn(&mut Rng) -> Result<(), S> + Sync, builders: impl Fn(usize, &mut Rng) -> Result<(), S> + Sync) {
    cx.family("hint", 8, |_, rng| {
        if cx.hint_n("N").map_or(false, |n| n == HW) { ops(rng)?; }
        if let Some(n) = cx.hint_n("n") { if n >= 1 && n <= max { builders(n, rng)?; } }
        Ok(Some(format!("hint {:?}", cx.hints)))
    });
}

pub fn c10(cx: &Ctx) {
    hinted(cx, 3000, |r| bits_case::<HW>(r, 4), |n, r| bits_builders(n, r, 2));
    let rounds = cx.scale(20, 200);
    cx.family("operators", WIDTHS.len() as u64 * cx.scale(6, 60), |k, rng| {
        let n = WIDTHS[k as usize % WIDTHS.len()];
        all_widths!(bits_case, n, (rng, rounds))?;
        Ok(Some(format!("width {} case {}", n, k)))
    });
    cx.family("builders", cx.scale(1100, 2200), |k, rng| {
        let n = k as usize + 1;
        bits_builders(n, rng, 2)?;
        Ok(Some(format!("width {}", n)))
    });
}

// ---------------------------------------------------------------- integers

fn int_ctx<const N: usize>(rng: &mut Rng, may: bool) -> Result<(CRef, AI<N>, AI<N>, arithmetic::AllocIntConfig<NXAOBoolGate, NXAOBoolCircuit, N>, Alias), S> {
    let mut c = empty();
    for _ in 0..rng.below(3) { let _ = c.sub_circuit(); }
    let cfg = arithmetic::AllocIntConfig::new(&c).map_err(es)?;
    let a = arithmetic::AllocInt::new(&cfg).map_err(es)?;
    let b = arithmetic::AllocInt::new(&cfg).map_err(es)?;
    let al = Alias::new(rng, N, may);
    let (a, b) = if al.plain() { (a, b) } else {
        let f = [&a.val_le[..], &b.val_le[..]].concat();
        let of = |j| arithmetic::AllocInt::from_gate_ids(al.pick(j, &f), &cfg).map_err(es);
        (of(0)?, of(1)?)
    };
    Ok((c, a, b, cfg, al))
}
type AI<const N: usize> = arithmetic::AllocInt<NXAOBoolGate, NXAOBoolCircuit, N>;

fn outs<const N: usize>(vs: &[&AI<N>]) -> Result<(), S> {
    for v in vs {
        if v.val_le.len() != N { return Err(format!("a result has {} bits at width {}", v.val_le.len(), N)); }
        v.output().map_err(es)?;
    }
    Ok(())
}

fn addsub_case<const N: usize>(rng: &mut Rng, rounds: u64) -> Result<(), S> {
    let (c, a, b, _, al) = int_ctx::<N>(rng, true)?;
    let mut pa = a.clone();
    pa += &b;
    let mut ps = a.clone();
    ps -= &b;
    let twice = &(&a + &b) + &a;
    outs(&[&(&a + &b), &(&a - &b), &-&a, &pa, &ps, &(&a + &a), &(&a - &a), &twice, &a, &b])?;
    let m = modulus(N);
    batches(rng, 2, N, rounds, |rng, v| {
        let out = run(&c, &v.concat(), true, rng)?;
        let v = al.see(&v);
        for k in 0..64 {
            let (a, b) = (big(&v[0], k), big(&v[1], k));
            let add = (&a + &b) % &m;
            let sub = (&a + &m - &b) % &m;
            let neg = (&m - &a) % &m;
            let want = [add.clone(), sub.clone(), neg, add.clone(), sub, (&a + &a) % &m, BigUint::from(0u32), (add + &a) % &m, a.clone(), b.clone()];
            for (j, w) in want.iter().enumerate() {
                want_big(&out[j * N..(j + 1) * N], k, w, &format!("width {}: {}", N, ["a+b", "a-b", "-a", "+=", "-=", "a+a", "a-a", "a+b+a", "operand a", "operand b"][j]), &a, &b)?;
            }
        }
        Ok(())
    })
}

fn addsub_builders(n: usize, rng: &mut Rng, rounds: u64) -> Result<(), S> {
    let mut c = empty();
    let am = arithmetic::build_add_circuit(&mut c, n).map_err(es)?;
    let sm = arithmetic::build_sub_circuit(&mut c, n, am).map_err(es)?;
    let (ac, sc) = (c.get_module(&am).map_err(es)?, c.get_module(&sm).map_err(es)?);
    for m in [&ac, &sc] {
        if m.input_len() != 2 * n || m.output_len() != n { return Err(format!("width {}: {} inputs and {} outputs", n, m.input_len(), m.output_len())); }
    }
    let m = modulus(n);
    batches(rng, 2, n, rounds, |_, v| {
        let (o1, o2) = (walk(&ac, &v.concat())?, walk(&sc, &v.concat())?);
        for k in 0..64 {
            let (a, b) = (big(&v[0], k), big(&v[1], k));
            want_big(&o1, k, &((&a + &b) % &m), &format!("width {}: sum", n), &a, &b)?;
            want_big(&o2, k, &((&a + &m - &b) % &m), &format!("width {}: difference", n), &a, &b)?;
        }
        Ok(())
    })
}

pub fn c11(cx: &Ctx) {
    hinted(cx, 3000, |r| addsub_case::<HW>(r, 4), |n, r| addsub_builders(n, r, 2));
    let rounds = cx.scale(20, 200);
    cx.family("operators", WIDTHS.len() as u64 * cx.scale(3, 30), |k, rng| {
        let n = WIDTHS[k as usize % WIDTHS.len()];
        all_widths!(addsub_case, n, (rng, rounds))?;
        Ok(Some(format!("width {} case {}", n, k)))
    });
    cx.family("builders", cx.scale(1100, 2200), |k, rng| {
        let n = k as usize + 1;
        addsub_builders(n, rng, 3)?;
        Ok(Some(format!("width {}", n)))
    });
}

fn mul_case<const N: usize>(rng: &mut Rng, rounds: u64) -> Result<(), S> {
    let (c, a, b, cfg, al) = int_ctx::<N>(rng, true)?;
    let mut pa = a.clone();
    pa *= &b;
    let one = arithmetic::AllocInt::one(&cfg).map_err(es)?;
    outs(&[&(&a * &b), &pa, &(&a * &a), &(&b * &one), &a, &b])?;
    let m = modulus(N);
    batches(rng, 2, N, rounds, |rng, v| {
        let out = run(&c, &v.concat(), N <= 24, rng)?;
        let v = al.see(&v);
        for k in 0..64 {
            let (a, b) = (big(&v[0], k), big(&v[1], k));
            let want = [(&a * &b) % &m, (&a * &b) % &m, (&a * &a) % &m, b.clone(), a.clone(), b.clone()];
            for (j, w) in want.iter().enumerate() {
                want_big(&out[j * N..(j + 1) * N], k, w, &format!("width {}: {}", N, ["a*b", "*=", "a*a", "b*1", "operand a", "operand b"][j]), &a, &b)?;
            }
        }
        Ok(())
    })
}

fn mul_builders(n: usize, rng: &mut Rng, rounds: u64) -> Result<(), S> {
    // The wide multipliers take gigabytes: one at a time.
    static BIG: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = if n > 150 { Some(BIG.lock().unwrap_or_else(|e| e.into_inner())) } else { None };
    mul_builder(n, rng, rounds, false)?;
    if n <= 200 { mul_builder(n, rng, rounds, true)?; }
    Ok(())
}
fn mul_builder(n: usize, rng: &mut Rng, rounds: u64, extend: bool) -> Result<(), S> {
    let mut c = empty();
    let w = if extend { 2 * n } else { n };
    let am = arithmetic::build_add_circuit(&mut c, w).map_err(es)?;
    let mm = if extend { arithmetic::build_mul_extend_circuit(&mut c, n, am) } else { arithmetic::build_mul_circuit(&mut c, n, am) }.map_err(es)?;
    let mc = c.get_module(&mm).map_err(es)?;
    if mc.input_len() != 2 * n || mc.output_len() != w { return Err(format!("width {}: {} inputs and {} outputs", n, mc.input_len(), mc.output_len())); }
    let m = modulus(w);
    batches(rng, 2, n, rounds, |_, v| {
        let o = walk(&mc, &v.concat())?;
        for k in 0..64 {
            let (a, b) = (big(&v[0], k), big(&v[1], k));
            want_big(&o, k, &((&a * &b) % &m), &format!("width {}: {}product", n, if extend { "extended " } else { "" }), &a, &b)?;
        }
        Ok(())
    })
}

pub fn c12(cx: &Ctx) {
    hinted(cx, 520, |r| mul_case::<HW>(r, 3), |n, r| mul_builders(n, r, 2));
    let rounds = cx.scale(10, 100);
    cx.family("operators", MULW.len() as u64 * cx.scale(3, 20), |k, rng| {
        let n = MULW[k as usize % MULW.len()];
        all_widths!(mul_case, n, (rng, rounds))?;
        Ok(Some(format!("width {} case {}", n, k)))
    });
    cx.family("builders", cx.scale(140, 300), |k, rng| {
        let n = k as usize + 1;
        mul_builders(n, rng, 2)?;
        Ok(Some(format!("width {}", n)))
    });
    cx.family("wide", cx.scale(8, 13), |k, rng| {
        let n = [255, 256, 257, 258, 260, 192, 300, 320, 383, 384, 385, 512, 513][k as usize];
        mul_builders(n, rng, 1)?;
        Ok(Some(format!("width {}", n)))
    });
}

fn cmp_case<const N: usize>(rng: &mut Rng, rounds: u64) -> Result<(), S> {
    let (mut c, a, b, _, al) = int_ctx::<N>(rng, true)?;
    let os = [a.less(&b), a.less_or_eq(&b), a.larger(&b), a.larger_or_eq(&b), a.eq(&b), a.neq(&b), a.less(&a), a.larger_or_eq(&a)];
    for o in os { let o = o.map_err(es)?; c.output(o).map_err(es)?; }
    outs(&[&a, &b])?;
    batches(rng, 2, N, rounds, |rng, v| {
        let out = run(&c, &v.concat(), true, rng)?;
        let v = al.see(&v);
        for k in 0..64 {
            let (a, b) = (signed(&v[0], k), signed(&v[1], k));
            let want = [a < b, a <= b, a > b, a >= b, a == b, a != b, false, true];
            for (j, w) in want.iter().enumerate() {
                if ((out[j] >> k) & 1 == 1) != *w {
                    return Err(format!("width {}: {} of a={} b={} is {}", N, ["a<b", "a<=b", "a>b", "a>=b", "a==b", "a!=b", "a<a", "a>=a"][j], a, b, !w));
                }
            }
        }
        Ok(())
    })
}

fn cmp_builders(n: usize, rng: &mut Rng, rounds: u64) -> Result<(), S> {
    let mut c = empty();
    let am = arithmetic::build_add_circuit(&mut c, n).map_err(es)?;
    let sm = arithmetic::build_sub_circuit(&mut c, n, am).map_err(es)?;
    let eq = logic::build_eq_circuit(&mut c, n).map_err(es)?;
    let l = arithmetic::build_less_circuit(&mut c, n, sm).map_err(es)?;
    let le = arithmetic::build_less_or_eq_circuit(&mut c, n, l, eq).map_err(es)?;
    let g = arithmetic::build_larger_circuit(&mut c, n, le).map_err(es)?;
    let ge = arithmetic::build_larger_or_eq_circuit(&mut c, n, l).map_err(es)?;
    let ms = [l, le, g, ge];
    let mut cs = Vec::new();
    for m in &ms {
        let m = c.get_module(m).map_err(es)?;
        if m.input_len() != 2 * n || m.output_len() != 1 { return Err(format!("width {}: {} inputs and {} outputs", n, m.input_len(), m.output_len())); }
        cs.push(m);
    }
    batches(rng, 2, n, rounds, |_, v| {
        for (j, m) in cs.iter().enumerate() {
            let o = walk(m, &v.concat())?[0];
            for k in 0..64 {
                let (a, b) = (signed(&v[0], k), signed(&v[1], k));
                let w = [a < b, a <= b, a > b, a >= b][j];
                if ((o >> k) & 1 == 1) != w { return Err(format!("width {}: {} of a={} b={} is {}", n, ["less", "less_or_eq", "larger", "larger_or_eq"][j], a, b, !w)); }
            }
        }
        Ok(())
    })
}

pub fn c13(cx: &Ctx) {
    hinted(cx, 3000, |r| cmp_case::<HW>(r, 4), |n, r| cmp_builders(n, r, 2));
    let rounds = cx.scale(20, 200);
    cx.family("operators", WIDTHS.len() as u64 * cx.scale(3, 30), |k, rng| {
        let n = WIDTHS[k as usize % WIDTHS.len()];
        all_widths!(cmp_case, n, (rng, rounds))?;
        Ok(Some(format!("width {} case {}", n, k)))
    });
    cx.family("builders", cx.scale(1100, 2200), |k, rng| {
        let n = k as usize + 1;
        cmp_builders(n, rng, 2)?;
        Ok(Some(format!("width {}", n)))
    });
}

fn random_below(rng: &mut Rng, bits: usize) -> BigUint {
    let l: Vec<u64> = special(rng, bits.max(1)).iter().map(|b| *b as u64).collect();
    if bits == 0 { BigUint::from(0u32) } else { big(&l, 0) }
}

fn const_case<const N: usize>(rng: &mut Rng) -> Result<(), S> {
    let (c, a, b, cfg, _) = int_ctx::<N>(rng, false)?;
    type A<const N: usize> = AI<N>;
    let mut want: Vec<(String, Box<dyn Fn(&BigUint, &BigInt) -> BigUint>)> = Vec::new();
    let m = modulus(N);
    let z = A::<N>::zero(&cfg).map_err(es)?;
    let o = A::<N>::one(&cfg).map_err(es)?;
    outs(&[&z, &o])?;
    want.push(("zero".into(), Box::new(|_, _| BigUint::from(0u32))));
    want.push(("one".into(), Box::new(|_, _| BigUint::from(1u32))));
    for j in 0..8 {
        let w = match j { 0 => N, 1 => 0, 2 => N - 1, _ => rng.range(0, N) };
        let v = if j == 0 { &m - 1u32 } else { random_below(rng, w) };
        let x = A::<N>::from_biguint(&v, &cfg).map_err(es)?;
        outs(&[&x])?;
        want.push((format!("constant {}", v), Box::new(move |_, _| v.clone())));
    }
    for j in 0..6 {
        let s = match j { 0 => 0, 1 => N, 2 => N - 1, _ => rng.range(0, N) };
        let (l, r) = (a.shift_left(s).map_err(es)?, a.shift_right(s).map_err(es)?);
        outs(&[&l, &r])?;
        let m1 = m.clone();
        want.push((format!("a << {}", s), Box::new(move |a, _| (a << s) % &m1)));
        let m2 = m.clone();
        want.push((format!("a >> {}", s), Box::new(move |_, sa| {
            let q: BigInt = sa >> s; // rounds towards minus infinity
            let mm = BigInt::from(m2.clone());
            (((q % &mm) + &mm) % &mm).to_biguint().unwrap()
        })));
        let k = match j { 0 => 0, 1 => N, _ => rng.range(0, N) };
        let f = A::<N>::from_gate_ids(a.val_le[N - k..].to_vec(), &cfg).map_err(es)?;
        outs(&[&f])?;
        want.push((format!("from_gate_ids of the top {} bits of a", k), Box::new(move |a, _| a >> (N - k))));
    }
    outs(&[&a, &b])?;
    want.push(("operand".into(), Box::new(|a, _| a.clone())));
    for _ in 0..3 {
        let v = operand_lanes(rng, 2, N, rng.clone().u64() % exh(2, N).max(1));
        let out = run(&c, &v.concat(), true, rng)?;
        for k in 0..64 {
            let (a, sa) = (big(&v[0], k), signed(&v[0], k));
            for (j, (name, f)) in want.iter().enumerate() {
                want_big(&out[j * N..(j + 1) * N], k, &f(&a, &sa), &format!("width {}: {}", N, name), &a, &0)?;
            }
        }
    }
    Ok(())
}

pub fn c14(cx: &Ctx) {
    hinted(cx, 0, |r| const_case::<HW>(r), |_, _| Ok(()));
    cx.family("constants-and-shifts", WIDTHS.len() as u64 * cx.scale(20, 400), |k, rng| {
        let n = WIDTHS[k as usize % WIDTHS.len()];
        // building the multiplier of the configuration dominates, so rarer at large widths
        if n > 64 && k as usize / WIDTHS.len() > 1 { return Ok(None); }
        all_widths!(const_case, n, (rng))?;
        Ok(Some(format!("width {} case {}", n, k)))
    });
}

// ---------------------------------------------------------------- field elements

type AF<const N: usize> = finite_field::AllocFp<NXAOBoolGate, NXAOBoolCircuit, N>;

fn odd_modulus(rng: &mut Rng, max_bits: usize) -> BigUint {
    // an odd number in [3, 2^max_bits]
    let b = rng.range(2, max_bits);
    let mut l: Vec<u64> = (0..b).map(|_| rng.u64() & 1).collect();
    if rng.chance(1, 4) { let v = rng.u64() & 1; for x in l.iter_mut() { *x = v } }
    l[0] = 1;
    l[b - 1] = 1;
    big(&l, 0)
}

fn fp_lanes(rng: &mut Rng, p: &BigUint, n: usize) -> Vec<Vec<u64>> {
    let mut v = vec![vec![0u64; n]; 2];
    for k in 0..64 {
        let mut x = Vec::new();
        for _ in 0..2 {
            let r = match rng.below(6) {
                0 => BigUint::from(0u32),
                1 => p - 1u32,
                2 => BigUint::from(1u32) % p,
                _ => random_below(rng, n) % p,
            };
            x.push(r);
        }
        match rng.below(6) {
            0 => x[1] = (p - &x[0]) % p,
            1 => x[1] = x[0].clone(),
            2 => x[1] = (p + p - &x[0] - 1u32) % p,
            _ => {}
        }
        for j in 0..2 {
            let by = x[j].to_bytes_le();
            for i in 0..n { if i / 8 < by.len() && (by[i / 8] >> (i % 8)) & 1 == 1 { v[j][i] |= 1 << k } }
        }
    }
    v
}

fn fp_addsub<const N: usize>(rng: &mut Rng, p: Option<u64>, rounds: u64) -> Result<String, S> {
    let p = p.map(BigUint::from).unwrap_or_else(|| odd_modulus(rng, N - 2));
    let pb = p.bits() as usize;
    let e = match rng.below(3) { 0 => pb, 1 => (pb + 1).min(N), _ => rng.range(pb, N) };
    let mut c = empty();
    let ic = arithmetic::AllocIntConfig::new(&c).map_err(es)?;
    let cfg = finite_field::AllocFpConfig::new(&c, &ic, p.clone(), e).map_err(es)?;
    let a = AF::<N>::new(&cfg).map_err(es)?;
    let b = AF::<N>::new(&cfg).map_err(es)?;
    let mut pa = a.clone();
    pa += &b;
    let mut ps = a.clone();
    ps -= &b;
    let lit = random_below(rng, N);
    let mut vs = vec![&a + &b, &a - &b, -&a, pa, ps, AF::<N>::zero(&cfg).map_err(es)?, AF::<N>::one(&cfg).map_err(es)?, AF::<N>::from_biguint_unchecked(&lit, &cfg), a.clone(), b.clone()];
    vs.push(&(&a - &b) + &b);
    vs.push(AF::<N>::from_gate_ids_unchecked(a.to_gate_ids(), &cfg));
    let (mut da, mut za, mut chain) = (a.clone(), a.clone(), &a + &b);
    da += &a;
    za -= &a;
    let same = chain.clone();
    chain += &same;
    vs.extend([&a + &a, &a - &a, da, za, chain]);
    for v in &vs { v.output().map_err(es)?; }
    let (q1, q2) = (a.eq(&b).map_err(es)?, a.neq(&b).map_err(es)?);
    c.output(q1).map_err(es)?;
    c.output(q2).map_err(es)?;
    let names = ["a+b", "a-b", "-a", "+=", "-=", "zero", "one", "constant", "operand a", "operand b", "(a-b)+b", "from gates", "a+a", "a-a", "a+=a", "a-=a", "a+b doubled"];
    for _ in 0..rounds {
        let v = fp_lanes(rng, &p, N);
        let out = run(&c, &v.concat(), N <= 16, rng)?;
        for k in 0..64 {
            let (a, b) = (big(&v[0], k), big(&v[1], k));
            let want = [(&a + &b) % &p, (&a + &p - &b) % &p, (&p - &a) % &p, (&a + &b) % &p, (&a + &p - &b) % &p, BigUint::from(0u32), BigUint::from(1u32), lit.clone(), a.clone(), b.clone(), a.clone(), a.clone(),
                (&a + &a) % &p, BigUint::from(0u32), (&a + &a) % &p, BigUint::from(0u32), (&a + &a + &b + &b) % &p];
            for (j, w) in want.iter().enumerate() {
                want_big(&out[j * N..(j + 1) * N], k, w, &format!("p={} N={} e={}: {}", p, N, e, names[j]), &a, &b)?;
            }
            let n = want.len() * N;
            if ((out[n] >> k) & 1 == 1) != (a == b) || ((out[n + 1] >> k) & 1 == 1) != (a != b) {
                return Err(format!("p={} N={} e={}: eq/neq of a={} b={} is wrong", p, N, e, a, b));
            }
        }
    }
    Ok(format!("p={} N={} e={}", p, N, e))
}

pub fn c15(cx: &Ctx) {
    hinted(cx, 0, |r| if HW >= 4 { fp_addsub::<HW>(r, None, 1).map(|_| ()) } else { Ok(()) }, |_, _| Ok(()));
    // every odd modulus at small widths
    let mut small = Vec::new();
    for n in 4..=9usize {
        let mut p = 3u64;
        while 2 * p <= 1 << (n - 1) { small.push((n, p)); p += 2; }
    }
    let s = &small;
    cx.family("small-moduli", small.len() as u64, move |k, rng| {
        let (n, p) = s[k as usize];
        Ok(Some(match n { 4 => fp_addsub::<4>(rng, Some(p), 6), 5 => fp_addsub::<5>(rng, Some(p), 6), 6 => fp_addsub::<6>(rng, Some(p), 6), 7 => fp_addsub::<7>(rng, Some(p), 6), 8 => fp_addsub::<8>(rng, Some(p), 6), _ => fp_addsub::<9>(rng, Some(p), 6) }?))
    });
    cx.family("moduli", cx.scale(800, 8000), |k, rng| {
        Ok(Some(match k % 8 {
            0 => fp_addsub::<5>(rng, None, 2), 1 => fp_addsub::<10>(rng, None, 2), 2 => fp_addsub::<13>(rng, None, 2), 3 => fp_addsub::<16>(rng, None, 2),
            4 => fp_addsub::<17>(rng, None, 2), 5 => fp_addsub::<24>(rng, None, 2), 6 => fp_addsub::<31>(rng, None, 2), _ => fp_addsub::<33>(rng, None, 2),
        }?))
    });
    cx.family("wide-moduli", cx.scale(16, 100), |k, rng| {
        Ok(Some(match k % 4 { 0 => fp_addsub::<64>(rng, None, 1), 1 => fp_addsub::<65>(rng, None, 1), 2 => fp_addsub::<70>(rng, None, 1), _ => fp_addsub::<100>(rng, None, 1) }?))
    });
}

fn fp_mul<const N: usize>(rng: &mut Rng, p: BigUint, e: usize, rounds: u64) -> CaseResult {
    let c = empty();
    let ic = arithmetic::AllocIntConfig::new(&c).map_err(es)?;
    let cfg = finite_field::AllocFpConfig::new(&c, &ic, p.clone(), e).map_err(es)?;
    let a = AF::<N>::new(&cfg).map_err(es)?;
    let b = AF::<N>::new(&cfg).map_err(es)?;
    let mut pa = a.clone();
    pa *= &b;
    for v in [&(&a * &b), &pa, &a, &b] { v.output().map_err(es)?; }
    let mut zero_bug: Option<String> = None;
    for _ in 0..rounds {
        let v = fp_lanes(rng, &p, N);
        let out = run(&c, &v.concat(), N <= 16, rng)?;
        for k in 0..64 {
            let (a, b) = (big(&v[0], k), big(&v[1], k));
            let w = (&a * &b) % &p;
            for j in 0..2 {
                let got = big(&out[j * N..(j + 1) * N], k);
                if got == w { continue; }
                let d = format!("p={} N={} e={}: product of a={} b={} is {} instead of {}", p, N, e, a, b, got, w);
                // the recorded finding is exactly: a non-zero product comes out as zero
                if got == BigUint::from(0u32) { zero_bug.get_or_insert(d); } else { return Err(d.into()); }
            }
            want_big(&out[2 * N..3 * N], k, &a, "operand a", &a, &b)?;
            want_big(&out[3 * N..4 * N], k, &b, "operand b", &a, &b)?;
        }
    }
    if let Some(d) = zero_bug { return Err(Bad { key: "fp-mul-zero".into(), detail: d }); }
    Ok(Some(format!("p={} N={} e={}", p, N, e)))
}

pub fn c19(cx: &Ctx) {
    cx.family("small", 24, |k, rng| {
        let p = 3 + 2 * (k % 12);
        let e = (64 - p.leading_zeros()) as usize;
        if 2 * e <= 8 - 1 && k % 2 == 0 { fp_mul::<8>(rng, BigUint::from(p), e, 4) } else { fp_mul::<12>(rng, BigUint::from(p), e, 4) }
    });
    cx.family("moduli", cx.scale(400, 4000), |k, rng| {
        let p = odd_modulus(rng, if k % 2 == 0 { 7 } else { 12 });
        let e = p.bits() as usize;
        if k % 2 == 0 { fp_mul::<17>(rng, p, e, 1) } else { fp_mul::<25>(rng, p, e, 1) }
    });
}
