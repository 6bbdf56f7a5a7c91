//! C18: the bundled netlists against reference arithmetic.
use crate::model::*;
use crate::util::*;
use circuit_converters::*;

fn built(f: impl FnOnce(&mut CRef) -> Result<(), BuildCircuitError>) -> Result<CRef, String> {
    let mut c = empty();
    f(&mut c).map_err(|e| e.to_string())?;
    Ok(c)
}

fn sp(rng: &mut Rng) -> u64 {
    match rng.below(9) {
        0 => rng.u64() % 16,
        1 => !0 - rng.u64() % 4,
        2 => 1u64 << rng.below(64),
        3 => (1u64 << rng.below(64)).wrapping_sub(1),
        4 => (1u64 << 63).wrapping_add(rng.u64() % 4).wrapping_sub(1),
        5 => rng.u64() >> rng.below(64),
        6 => (rng.u64() >> rng.below(64)).wrapping_neg(),
        _ => rng.u64(),
    }
}

fn transpose(rows: &[u64]) -> Vec<u64> {
    // rows: 64 values of one 64-bit operand; result: 64 bit lanes
    (0..64).map(|i| (0..64).fold(0u64, |acc, k| acc | (((rows[k] >> i) & 1) << k))).collect()
}

/// The input bits of the verifier's counterexample for this circuit (`--hint circuit=NAME --hint x=HEX`).
fn fixed(cx: &Ctx, name: &str) -> Option<Vec<bool>> {
    if cx.hint("circuit")? != name { return None }
    let h: Vec<u32> = cx.hint("x")?.chars().rev().map(|c| c.to_digit(16).unwrap_or(0)).collect();
    Some((0..256).map(|i| h.get(i / 4).map_or(false, |d| (d >> (i % 4)) & 1 == 1)).collect())
}

fn arith(cx: &Ctx, rng: &mut Rng, c: &CRef, name: &str, nops: usize, nout: usize, f: impl Fn(u64, u64) -> Option<u128>) -> CaseResult {
    if c.input_len() != 64 * nops || c.output_len() != nout { return Err(format!("{} has {} inputs and {} outputs", name, c.input_len(), c.output_len()).into()); }
    let mut a: Vec<u64> = (0..64).map(|_| sp(rng)).collect();
    let mut b: Vec<u64> = (0..64).map(|_| sp(rng)).collect();
    for k in 0..64 { if rng.chance(1, 8) { b[k] = a[k].wrapping_add(rng.u64() % 3).wrapping_sub(1) } }
    let fix = fixed(cx, name);
    if let Some(x) = &fix {
        a[0] = (0..64).fold(0, |v, i| v | ((x[i] as u64) << i));
        b[0] = (0..64).fold(0, |v, i| v | ((x[64 + i] as u64) << i));
    }
    let mut ins = transpose(&a);
    if nops == 2 { ins.extend(transpose(&b)); }
    let out = walk(c, &ins)?;
    let mut real = vec![rng.below(64)];
    real.push(rng.below(64));
    if fix.is_some() { real[0] = 0 }
    for k in 0..64 {
        let want = match f(a[k], b[k]) { Some(w) => w, None => continue };
        let got = (0..nout).fold(0u128, |acc, i| acc | ((((out[i] >> k) & 1) as u128) << i));
        if got != want { return Err(format!("{} of {} and {} is {:x} instead of {:x}", name, a[k], b[k], got, want).into()); }
        if real.contains(&k) {
            let bits = lane_bits(&ins, k);
            let e = guarded(|| NXAOBoolEvaluator::new(c.clone()).eval_output(&bits))?.map_err(|e| e.to_string())?;
            if e != lane_bits(&out, k) { return Err(format!("evaluating {} of {} and {} gives {}", name, a[k], b[k], bits_str(&e)).into()); }
        }
    }
    Ok(Some(format!("{} {} {} ...", name, a[0], b[0])))
}

pub fn c18(cx: &Ctx) {
    let (n, na) = if cx.hint("circuit").is_some() { (4, 4) } else { (cx.scale(400, 4000), cx.scale(100, 1000)) };
    cx.family("adder64", n, |_, r| arith(cx, r, &built(|c| arithmetic::build_adder64(c))?, "adder64", 2, 64, |a, b| Some(a.wrapping_add(b) as u128)));
    cx.family("sub64", n, |_, r| arith(cx, r, &built(|c| arithmetic::build_sub64(c))?, "sub64", 2, 64, |a, b| Some(a.wrapping_sub(b) as u128)));
    cx.family("neg64", n, |_, r| arith(cx, r, &built(|c| arithmetic::build_neg64(c))?, "neg64", 1, 64, |a, _| Some(a.wrapping_neg() as u128)));
    cx.family("mult2_64", n, |_, r| arith(cx, r, &built(|c| arithmetic::build_mult2_64(c))?, "mult2_64", 2, 128, |a, b| { let p = a as u128 * b as u128; Some((p >> 64) | (p << 64)) }));
    cx.family("divide_signed_64", n, |_, r| arith(cx, r, &built(|c| arithmetic::build_divide_signed_64(c))?, "divide_signed_64", 2, 64, |a, b| (b != 0).then(|| (a as i64).wrapping_div(b as i64) as u64 as u128)));
    cx.family("divide_unsigned_64", n, |_, r| arith(cx, r, &built(|c| arithmetic::build_divide_unsigned_64(c))?, "divide_unsigned_64", 2, 64, |a, b| (b != 0).then(|| (a / b) as u128)));
    cx.family("aes128", na, |_, rng| {
        let c = built(|c| cryptography::build_aes128(c))?;
        if c.input_len() != 256 || c.output_len() != 128 { return Err("wrong interface".into()); }
        let mut cases: Vec<([u8; 16], [u8; 16])> = (0..64).map(|_| {
            let mut m = [0u8; 16];
            let mut k = [0u8; 16];
            for i in 0..16 { m[i] = rng.u64() as u8; k[i] = rng.u64() as u8; }
            if rng.chance(1, 8) { m = [0; 16]; }
            if rng.chance(1, 8) { k = [0; 16]; }
            (m, k)
        }).collect();
        if let Some(x) = fixed(cx, "aes128") {
            let by = |o: usize| { let mut v = [0u8; 16]; for i in 0..128 { v[i / 8] |= (x[o + i] as u8) << (7 - i % 8) } v };
            cases[0] = (by(0), by(128));
        }
        let mut ins = vec![0u64; 256];
        for (l, (m, k)) in cases.iter().enumerate() {
            for i in 0..128 {
                ins[i] |= (((m[i / 8] >> (7 - i % 8)) & 1) as u64) << l;
                ins[128 + i] |= (((k[i / 8] >> (7 - i % 8)) & 1) as u64) << l;
            }
        }
        let out = walk(&c, &ins)?;
        for (l, (m, k)) in cases.iter().enumerate() {
            let want = aes128(m, k);
            let mut got = [0u8; 16];
            for i in 0..128 { got[i / 8] |= (((out[i] >> l) & 1) as u8) << (7 - i % 8); }
            if got != want { return Err(format!("AES of block {:02x?} under key {:02x?} is {:02x?} instead of {:02x?}", m, k, got, want).into()); }
        }
        let b = lane_bits(&ins, 0);
        let e = guarded(|| NXAOBoolEvaluator::new(c.clone()).eval_output(&b))?.map_err(|e| e.to_string())?;
        if e != lane_bits(&out, 0) { return Err("evaluation differs".into()); }
        Ok(Some(format!("block {:02x?} key {:02x?} ...", cases[0].0, cases[0].1)))
    });
}

fn xt(x: u8) -> u8 { (x << 1) ^ if x & 0x80 != 0 { 0x1b } else { 0 } }
fn gm(mut a: u8, mut b: u8) -> u8 { let mut r = 0; while b != 0 { if b & 1 == 1 { r ^= a } a = xt(a); b >>= 1; } r }
fn sbox(x: u8) -> u8 {
    let mut inv = 0u8;
    if x != 0 { for i in 1..=255u8 { if gm(x, i) == 1 { inv = i; break; } } }
    let mut r = 0x63u8;
    for k in 0..5 { r ^= inv.rotate_left(k); }
    r
}
fn aes128(m: &[u8; 16], k: &[u8; 16]) -> [u8; 16] {
    let sb: Vec<u8> = (0..=255u8).map(sbox).collect();
    let mut w: Vec<[u8; 4]> = (0..4).map(|i| [k[4 * i], k[4 * i + 1], k[4 * i + 2], k[4 * i + 3]]).collect();
    let mut rc = 1u8;
    for i in 4..44 {
        let mut t = w[i - 1];
        if i % 4 == 0 { t = [sb[t[1] as usize] ^ rc, sb[t[2] as usize], sb[t[3] as usize], sb[t[0] as usize]]; rc = xt(rc); }
        let p = w[i - 4];
        w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
    }
    let mut s = *m;
    let ark = |s: &mut [u8; 16], r: usize| for i in 0..16 { s[i] ^= w[4 * r + i / 4][i % 4] };
    ark(&mut s, 0);
    for r in 1..=10 {
        for x in s.iter_mut() { *x = sb[*x as usize] }
        let o = s;
        for c in 0..4 { for q in 0..4 { s[4 * c + q] = o[4 * ((c + q) % 4) + q] } }
        if r < 10 {
            for c in 0..4 {
                let a = [s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]];
                for q in 0..4 { s[4 * c + q] = gm(a[q], 2) ^ gm(a[(q + 1) % 4], 3) ^ a[(q + 2) % 4] ^ a[(q + 3) % 4] }
            }
        }
        ark(&mut s, r);
    }
    s
}

/// Prints the circuit the real code builds: one line per gate in the order of its operands, read through the public accessors.
pub fn dump(name: &str) -> Result<(), String> {
    let c = match name {
        "adder64" => built(|c| arithmetic::build_adder64(c)),
        "sub64" => built(|c| arithmetic::build_sub64(c)),
        "neg64" => built(|c| arithmetic::build_neg64(c)),
        "mult2_64" => built(|c| arithmetic::build_mult2_64(c)),
        "divide_signed_64" => built(|c| arithmetic::build_divide_signed_64(c)),
        "divide_unsigned_64" => built(|c| arithmetic::build_divide_unsigned_64(c)),
        "aes128" => built(|c| cryptography::build_aes128(c)),
        n => Err(format!("no circuit {}", n)),
    }?;
    let e = |e: BoolCircuitError| e.to_string();
    let mut out = String::new();
    let mut seen = std::collections::HashSet::new();
    let mut stack: Vec<(GateId, bool)> = Vec::new();
    for i in 0..c.input_len() {
        let id = c.input_to_gate_id(&WireId(i as u64)).map_err(e)?.ok_or("input without gate")?;
        seen.insert(id);
        out.push_str(&format!("{} Input {}\n", id, i));
    }
    let mut outs = Vec::new();
    for i in (0..c.output_len()).rev() {
        let id = c.output_to_gate_id(&WireId(i as u64)).map_err(e)?;
        outs.push(id);
        stack.push((id, false));
    }
    outs.reverse();
    while let Some((id, ready)) = stack.pop() {
        if seen.contains(&id) { continue }
        let (line, ops) = match c.get_gate(&id).map_err(e)? {
            NXAOBoolGate::Input(_) => return Err(format!("gate {} is an input of no position", id)),
            NXAOBoolGate::Const(g) => (format!("{} Const {}\n", id, g.value as u8), vec![]),
            NXAOBoolGate::Not(g) => (format!("{} Not {}\n", id, g.id), vec![g.id]),
            NXAOBoolGate::Xor(g) => (format!("{} Xor {} {}\n", id, g.left_id, g.right_id), vec![g.left_id, g.right_id]),
            NXAOBoolGate::And(g) => (format!("{} And {} {}\n", id, g.left_id, g.right_id), vec![g.left_id, g.right_id]),
            NXAOBoolGate::Or(g) => (format!("{} Or {} {}\n", id, g.left_id, g.right_id), vec![g.left_id, g.right_id]),
            NXAOBoolGate::Module(_) => return Err("a bundled circuit calls a module".into()),
        };
        if ready || ops.is_empty() {
            seen.insert(id);
            out.push_str(&line);
        } else {
            stack.push((id, true));
            for o in ops { stack.push((o, false)); }
        }
    }
    for (i, id) in outs.iter().enumerate() { out.push_str(&format!("{} Output {}\n", id, i)); }
    print!("{}", out);
    Ok(())
}
