//! C16, C17: number theory helpers and codecs.
use crate::model::empty;
use crate::util::*;
use circuit_converters::num_bigint::{BigInt, BigUint, Sign};
use circuit_converters::*;

fn rand_big(rng: &mut Rng, maxbits: usize) -> BigUint {
    let b = rng.range(0, maxbits);
    let by: Vec<u8> = (0..b / 8 + 1).map(|_| if rng.chance(1, 6) { 0xff } else { rng.u64() as u8 }).collect();
    BigUint::from_bytes_le(&by) >> (8 - b % 8)
}
fn gcd(a: &BigUint, b: &BigUint) -> BigUint {
    let (mut a, mut b) = (a.clone(), b.clone());
    let z = BigUint::from(0u32);
    while b != z {
        let r = &a % &b;
        a = b;
        b = r;
    }
    a
}
fn check_gcd(a: &BigUint, b: &BigUint) -> Result<(), String> {
    let (ia, ib) = (BigInt::from(a.clone()), BigInt::from(b.clone()));
    let (x, y, d) = ext_gcd(&ia, &ib);
    if &ia * &x + &ib * &y != d { return Err(format!("ext_gcd({}, {}) = ({}, {}, {}) does not satisfy a*x + b*y = d", a, b, x, y, d)); }
    let g = gcd(a, b);
    if d != BigInt::from(g.clone()) { return Err(format!("ext_gcd({}, {}) returns d = {} instead of {}", a, b, d, g)); }
    Ok(())
}

fn mont<const N: usize>(rng: &mut Rng, p: BigUint, e: usize) -> CaseResult {
    let c = empty();
    let ic = arithmetic::AllocIntConfig::<_, _, N>::new(&c).map_err(|e| e.to_string())?;
    let mut es = vec![e];
    for _ in 0..3 { es.push(rng.range(p.bits() as usize, N)); }
    for e in es {
        let cfg = finite_field::AllocFpConfig::new(&c, &ic, p.clone(), e).map_err(|e| e.to_string())?;
        let r = BigUint::from(1u32) << e;
        let v = &cfg.p_minus_inv;
        if v >= &r || (&p * v + 1u32) % &r != BigUint::from(0u32) {
            return Err(format!("p={} e={}: the inverse constant is {}", p, e, v).into());
        }
        if cfg.p != p || cfg.r_exp != e { return Err("the configuration does not store its parameters".into()); }
    }
    Ok(Some(format!("p={} e={} N={}", p, e, N)))
}

pub fn c16(cx: &Ctx) {
    cx.family("hint", 1, |_, _| {
        let v = |n: &str| cx.hint(n).and_then(|v| v.parse::<BigUint>().ok());
        if let (Some(a), Some(b)) = (v("a"), v("b")) { check_gcd(&a, &b)?; }
        Ok(Some(format!("hint {:?}", cx.hints)))
    });
    cx.family("gcd-small", 64, |k, _| {
        for a in 0..128u32 { check_gcd(&BigUint::from(a), &BigUint::from(2 * k as u32))?; check_gcd(&BigUint::from(a), &BigUint::from(2 * k as u32 + 1))?; }
        Ok(Some(format!("a < 128, b in {{{}, {}}}", 2 * k, 2 * k + 1)))
    });
    cx.family("gcd", cx.cheap(60000), |_, rng| {
        let w = [8, 64, 65, 130, 600, 2100][rng.below(6)];
        let (a, b) = if rng.chance(1, 3) {
            let g = rand_big(rng, w);
            (&g * rand_big(rng, w), &g * rand_big(rng, w))
        } else if rng.chance(1, 4) {
            (rand_big(rng, w), BigUint::from(1u32) << rng.range(0, w))
        } else {
            (rand_big(rng, w), rand_big(rng, w))
        };
        check_gcd(&a, &b)?;
        Ok(Some(format!("gcd of {} and {}", a, b)))
    });
    cx.family("inverse", cx.scale(600, 3000), |k, _rng| {
        // every odd p < 2^10 with the smallest exponents
        let p = 3 + 2 * k;
        let e = (64 - p.leading_zeros()) as usize;
        if p > 1023 { return Ok(None); }
        mont::<12>(_rng, BigUint::from(p), e)
    });
    cx.family("inverse-wide", cx.scale(400, 4000), |k, rng| {
        let nb = if k % 8 == 7 { 64 } else { 30 };
        let mut p = rand_big(rng, nb - 1) | BigUint::from(1u32);
        if p == BigUint::from(1u32) { p = BigUint::from(5u32) }
        let e = p.bits() as usize;
        if k % 8 == 7 { mont::<65>(rng, p, e) } else { mont::<32>(rng, p, e) }
    });
    let _ = Sign::Plus;
}

pub fn c17(cx: &Ctx) {
    cx.family("bits", cx.cheap(40000), |k, rng| {
        let n = if k < 300 { k as usize } else { rng.range(0, 70) };
        let by: Vec<u8> = if n == 1 || k >= 300 && k < 556 { vec![(k % 256) as u8] } else { (0..n).map(|_| rng.u64() as u8).collect() };
        let le: Vec<bool> = by.iter().flat_map(|b| (0..8).map(move |i| (b >> i) & 1 == 1)).collect();
        let be: Vec<bool> = by.iter().flat_map(|b| (0..8).map(move |i| (b >> (7 - i)) & 1 == 1)).collect();
        if bytes2bits_le(&by) != le { return Err(format!("bytes2bits_le({:?}) = {:?}", by, bytes2bits_le(&by)).into()); }
        if bytes2bits_be(&by) != be { return Err(format!("bytes2bits_be({:?}) = {:?}", by, bytes2bits_be(&by)).into()); }
        if bits2bytes_le(&le) != by { return Err(format!("bits2bytes_le of the bits of {:?} = {:?}", by, bits2bytes_le(&le)).into()); }
        if bits2bytes_be(&be) != by { return Err(format!("bits2bytes_be of the bits of {:?} = {:?}", by, bits2bytes_be(&be)).into()); }
        Ok(Some(format!("{:?}", by)))
    });
    cx.family("every-byte", 256, |k, _| {
        let b = k as u8;
        for (pre, post) in [(0usize, 0usize), (1, 0), (0, 1), (3, 2)] {
            let mut by = vec![0x5au8; pre];
            by.push(b);
            by.extend(vec![0xc3; post]);
            let le: Vec<bool> = by.iter().flat_map(|b| (0..8).map(move |i| (b >> i) & 1 == 1)).collect();
            let be: Vec<bool> = by.iter().flat_map(|b| (0..8).map(move |i| (b >> (7 - i)) & 1 == 1)).collect();
            if bytes2bits_le(&by) != le || bits2bytes_le(&le) != by { return Err(format!("little-endian codec fails on {:?}", by).into()); }
            if bytes2bits_be(&by) != be || bits2bytes_be(&be) != by { return Err(format!("big-endian codec fails on {:?}", by).into()); }
            let h: String = by.iter().map(|b| format!("{:02x}", b)).collect();
            if bytes2hex(&by) != h { return Err(format!("bytes2hex({:?}) = {}", by, bytes2hex(&by)).into()); }
            if hex2bytes(&h).ok().as_ref() != Some(&by) || hex2bytes(&h.to_uppercase()).ok().as_ref() != Some(&by) { return Err(format!("hex2bytes({}) is wrong", h).into()); }
        }
        Ok(Some(format!("byte {}", b)))
    });
    cx.family("hex", cx.cheap(40000), |_, rng| {
        let by: Vec<u8> = (0..rng.range(0, 80)).map(|_| rng.u64() as u8).collect();
        let h: String = by.iter().map(|b| format!("{:02x}", b)).collect();
        if bytes2hex(&by) != h { return Err(format!("bytes2hex({:?}) = {}", by, bytes2hex(&by)).into()); }
        let mixed: String = h.chars().map(|c| if rng.bool() { c.to_ascii_uppercase() } else { c }).collect();
        if hex2bytes(&mixed).ok().as_ref() != Some(&by) { return Err(format!("hex2bytes({}) is wrong", mixed).into()); }
        // rejected strings
        let mut bad: Vec<char> = mixed.chars().collect();
        if rng.bool() || bad.is_empty() {
            bad.push('a');
        } else {
            let p = rng.below(bad.len());
            bad[p] = ['g', 'G', ' ', '\u{e9}', '/', ':', '@', '`', '-', '+', '\n', '\0', '\u{ff11}'][rng.below(13)];
        }
        let bad: String = bad.into_iter().collect();
        if hex2bytes(&bad).is_ok() { return Err(format!("hex2bytes accepts {:?}", bad).into()); }
        Ok(Some(h))
    });
}
