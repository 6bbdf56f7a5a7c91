//! C06..C09: Bristol reader and writer.
use std::rc::Rc;
use crate::model::*;
use crate::util::*;
use circuit_converters::*;
use std::collections::HashMap;
use std::io::{BufReader, BufWriter};

/// A Bristol file, parsed by an independent parser.
pub struct Bf {
    pub ngate: usize,
    pub nwire: usize,
    pub ins: Vec<usize>,
    pub outs: Vec<usize>,
    pub gates: Vec<(String, Vec<usize>, Vec<usize>)>,
}

pub fn parse(text: &str) -> Result<Bf, String> {
    let lines: Vec<&str> = text.split('\n').collect();
    let num = |s: &str| s.parse::<usize>().map_err(|_| format!("not a number: {:?}", s));
    let row = |i: usize| -> Result<Vec<usize>, String> {
        lines.get(i).ok_or("missing header line")?.split_whitespace().map(num).collect()
    };
    let h = row(0)?;
    if h.len() != 2 { return Err(format!("first header line has {} fields", h.len())); }
    let grp = |i: usize| -> Result<Vec<usize>, String> {
        let r = row(i)?;
        if r.is_empty() || r.len() != r[0] + 1 { return Err(format!("header line {} is {:?}", i + 1, r)); }
        Ok(r[1..].to_vec())
    };
    let ins = grp(1)?;
    let outs = grp(2)?;
    if lines.get(3).map(|l| !l.trim().is_empty()).unwrap_or(true) { return Err("fourth line is not blank".into()); }
    let mut gates = Vec::new();
    for l in &lines[4..] {
        if l.is_empty() { break; }
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() < 3 { return Err(format!("short gate line {:?}", l)); }
        let (a, b) = (num(f[0])?, num(f[1])?);
        if f.len() != 3 + a + b { return Err(format!("gate line {:?} has {} fields", l, f.len())); }
        let i = f[2..2 + a].iter().map(|s| num(s)).collect::<Result<Vec<_>, _>>()?;
        let o = f[2 + a..2 + a + b].iter().map(|s| num(s)).collect::<Result<Vec<_>, _>>()?;
        gates.push((f[2 + a + b].to_string(), i, o));
    }
    Ok(Bf { ngate: h[0], nwire: h[1], ins, outs, gates })
}

impl Bf {
    /// Strict validity; returns an error naming the first problem.
    pub fn validate(&self) -> Result<(), String> {
        if self.gates.len() != self.ngate { return Err(format!("the header states {} gates, there are {} gate lines", self.ngate, self.gates.len())); }
        let nin: usize = self.ins.iter().sum();
        let nout: usize = self.outs.iter().sum();
        if nin + self.gates.len() != self.nwire { return Err(format!("the header states {} wires, there are {}", self.nwire, nin + self.gates.len())); }
        if nout > self.nwire { return Err("more outputs than wires".into()); }
        let mut def = vec![false; self.nwire];
        for w in 0..nin { def[w] = true; }
        for (k, i, o) in &self.gates {
            let want = match k.as_str() { "INV" | "EQW" | "EQ" => 1, "XOR" | "AND" | "OR" => 2, k => return Err(format!("unknown gate {}", k)) };
            if i.len() != want || o.len() != 1 { return Err(format!("{} with {} inputs and {} outputs", k, i.len(), o.len())); }
            for w in i {
                if k != "EQ" && (*w >= self.nwire || !def[*w]) { return Err(format!("wire {} is used before it is defined", w)); }
            }
            if o[0] >= self.nwire { return Err(format!("wire {} is out of range", o[0])); }
            if def[o[0]] { return Err(format!("wire {} is defined twice", o[0])); }
            def[o[0]] = true;
        }
        if let Some(w) = def.iter().position(|d| !d) { return Err(format!("wire {} is never defined", w)); }
        Ok(())
    }
    pub fn eval(&self, ins: &[u64]) -> Vec<u64> {
        let mut v = vec![0u64; self.nwire];
        v[..ins.len()].copy_from_slice(ins);
        for (k, i, o) in &self.gates {
            v[o[0]] = match k.as_str() {
                "INV" => !v[i[0]],
                "XOR" => v[i[0]] ^ v[i[1]],
                "AND" => v[i[0]] & v[i[1]],
                "OR" => v[i[0]] | v[i[1]],
                "EQW" => v[i[0]],
                _ => if i[0] == 1 { !0 } else { 0 },
            };
        }
        let nout: usize = self.outs.iter().sum();
        v[self.nwire - nout..].to_vec()
    }
    pub fn text(&self) -> String {
        let j = |v: &Vec<usize>| v.iter().map(|x| format!(" {}", x)).collect::<String>();
        let mut s = format!("{} {}\n{}{}\n{}{}\n\n", self.ngate, self.nwire, self.ins.len(), j(&self.ins), self.outs.len(), j(&self.outs));
        for (k, i, o) in &self.gates {
            s.push_str(&format!("{} {}{}{} {}\n", i.len(), o.len(), j(i), j(o), k));
        }
        s
    }
}

/// A random well-formed file. Gate outputs take the remaining wire numbers in a random order.
pub fn random_file(rng: &mut Rng) -> Bf {
    let ngroups = rng.range(0, 4);
    let ins: Vec<usize> = (0..ngroups).map(|_| rng.range(0, 5)).collect();
    let ngate = match rng.below(8) { 0 => 0, 1..=5 => rng.range(1, 30), 6 => rng.range(30, 200), _ => rng.range(200, 1500) };
    sized_file(rng, ins, ngate, None, 6)
}

/// The file of a shape: one dimension (inputs, gates, outputs, groups) at least `t`.
fn shaped_file(rng: &mut Rng, k: u64, t: usize) -> Bf {
    let few: Vec<usize> = (0..rng.range(1, 3)).map(|_| rng.range(1, 5)).collect();
    match k % 6 {
        0 => sized_file(rng, few, t, None, 6),
        1 => sized_file(rng, vec![t, 3], 20, None, 6),
        2 => { let n = t + rng.below(3); sized_file(rng, few, n + 5, Some(n), 1) }
        3 => { let ins = (0..t).map(|i| (i % 7 == 0) as usize).collect(); sized_file(rng, ins, 30, None, 6) }
        4 => sized_file(rng, few, t + 30, Some(t), t),
        _ => { let n = rng.range(t.saturating_sub(8), t + 3); let i = rng.below(n + 1); sized_file(rng, vec![i], n - i, None, 6) }
    }
}

fn sized_file(rng: &mut Rng, ins: Vec<usize>, ngate: usize, nout: Option<usize>, maxgroups: usize) -> Bf {
    let nin: usize = ins.iter().sum();
    let nwire = nin + ngate;
    let mut nums: Vec<usize> = (nin..nwire).collect();
    if rng.bool() {
        for i in (1..nums.len()).rev() { nums.swap(i, rng.below(i + 1)); }
    }
    let mut defd: Vec<usize> = (0..nin).collect();
    let mut gates = Vec::new();
    for o in nums {
        let a = |rng: &mut Rng, d: &Vec<usize>| if rng.bool() { d[rng.below(d.len())] } else { d[d.len() - 1 - rng.below(d.len().min(4))] };
        let g = if defd.is_empty() || rng.chance(1, 12) {
            ("EQ".to_string(), vec![rng.below(2)], vec![o])
        } else {
            match rng.below(5) {
                0 => ("INV".to_string(), vec![a(rng, &defd)], vec![o]),
                1 => ("EQW".to_string(), vec![a(rng, &defd)], vec![o]),
                2 => ("XOR".to_string(), vec![a(rng, &defd), a(rng, &defd)], vec![o]),
                3 => ("AND".to_string(), vec![a(rng, &defd), a(rng, &defd)], vec![o]),
                _ => ("OR".to_string(), vec![a(rng, &defd), a(rng, &defd)], vec![o]),
            }
        };
        gates.push(g);
        defd.push(o);
    }
    let mut left = if let Some(n) = nout { n.min(nwire) } else if nwire == 0 { 0 } else if rng.chance(1, 6) { rng.range(0, nwire) } else { rng.range(0, nwire.min(10)) };
    let mut outs = Vec::new();
    if maxgroups > 6 { while left > 1 && outs.len() < maxgroups { outs.push(1); left -= 1; } }
    if maxgroups == 1 { outs.push(left); left = 0; }
    while left > 0 { let k = rng.range(0, left); outs.push(k); left -= k; if outs.len() > maxgroups { outs.push(left); break; } }
    Bf { ngate, nwire, ins, outs, gates }
}

fn read(r: &mut BristolNXAOReader, text: &[u8]) -> Result<(CRef, Result<(), String>), String> {
    let mut c = empty();
    let res = guarded(|| r.read(BufReader::new(text), &mut c))?;
    Ok((c.clone(), res.map_err(|e| e.to_string())))
}

fn first(t: &str) -> String { t.chars().take(900).collect::<String>().replace('\n', "\\n") }

fn check_read(c: &CRef, f: &Bf, rng: &mut Rng) -> Result<(), String> {
    let nin: usize = f.ins.iter().sum();
    let nout: usize = f.outs.iter().sum();
    if c.input_len() != nin || c.output_len() != nout {
        return Err(format!("{} inputs and {} outputs instead of {} and {}", c.input_len(), c.output_len(), nin, nout));
    }
    let ins = lanes(rng, nin);
    let want = f.eval(&ins);
    let got = walk(c, &ins)?;
    if let Some(i) = (0..nout).find(|i| want[*i] != got[*i]) {
        return Err(format!("output {} has the wrong value (inputs {:x?})", i, ins));
    }
    let bits = lane_bits(&ins, 0);
    let got = guarded(|| NXAOBoolEvaluator::new(c.clone()).eval_output(&bits))?.map_err(|e| e.to_string())?;
    if got != lane_bits(&want, 0) { return Err(format!("evaluation on {} differs", bits_str(&bits))); }
    Ok(())
}

fn read_case(f: &Bf, rng: &mut Rng) -> CaseResult {
    f.validate().map_err(|e| format!("generator: {}", e))?;
    let t = f.text();
    let (c, r) = read(&mut BristolNXAOReader::new(), t.as_bytes()).map_err(|e| format!("{}; file {}", e, first(&t)))?;
    r.map_err(|e| format!("rejected with {}; file {}", e, first(&t)))?;
    check_read(&c, f, rng).map_err(|e| format!("{}; file {}", e, first(&t)))?;
    Ok(Some(format!("{} gates, {} wires, {} input groups, {} output groups", f.ngate, f.nwire, f.ins.len(), f.outs.len())))
}

/// Sizes to look at: those of a verifier's counterexample or threshold (`--hint t=..`), or the fixed large ones.
fn sizes(cx: &Ctx, family: &str, f: impl Fn(u64, usize, &mut Rng) -> CaseResult + Sync) {
    let _ = family;
    cx.family("hint", 24, |k, rng| match cx.hint_n("t") { Some(t) if t <= 300_000 => f(k % 6, t, rng), _ => Ok(None) });
    cx.family("large", cx.scale(24, 72), |k, rng| f(k % 6, [66, 260, 1030, 66_000][(k / 6) as usize % 4] + (k / 24) as usize, rng));
}

pub fn c06(cx: &Ctx) {
    sizes(cx, "files", |k, t, rng| { let f = shaped_file(rng, k, t); read_case(&f, rng) });
    cx.family("files", cx.cheap(40000), |k, rng| {
        let f = random_file(rng);
        f.validate().map_err(|e| format!("generator: {}", e))?;
        let mut t = f.text();
        if k % 5 == 1 { t.push('\n'); }
        if k % 5 == 2 && t.ends_with('\n') && !f.gates.is_empty() { t.pop(); }
        if k % 5 == 3 { t = t.replace(" XOR", "  XOR").replace("\n1 1", "\n1  1"); }
        let (c, r) = read(&mut BristolNXAOReader::new(), t.as_bytes()).map_err(|e| format!("{}; file {}", e, first(&t)))?;
        r.map_err(|e| format!("rejected with {}; file {}", e, first(&t)))?;
        check_read(&c, &f, rng).map_err(|e| format!("{}; file {}", e, first(&t)))?;
        Ok((!f.gates.is_empty()).then(|| first(&t)))
    });
}

/// Breaks a well-formed file so that it must be rejected; None if the mutation does not apply.
fn mutate(f: &Bf, rng: &mut Rng) -> Option<(String, String)> {
    let t = f.text();
    let mut l: Vec<String> = t.split('\n').map(|s| s.to_string()).collect();
    l.pop();
    let g = f.gates.len();
    let kind = rng.below(19);
    let nout: usize = f.outs.iter().sum();
    let name = match kind {
        0 => { let k = rng.below(4); l.truncate(k); format!("cut after {} header lines", k) }
        1 => { let k = rng.below(3); l[k] = ["x 1", "", "1 -1", "1 0x2", "2 3.5 1"][rng.below(5)].to_string(); if k == 0 && l[0] == "1 -1" { l[0] = "-1 1".into() } if l[k] == "2 3.5 1" && k == 0 { l[0] = "2 3.5".into() } format!("header line {} is {:?}", k + 1, l[k]) }
        2 => { l[1] = format!("{} {}", f.ins.len() + 1, f.ins.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")); "too few input groups".into() }
        3 => { l[2] = format!("{} {}", f.outs.len() + 1, f.outs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")); "too few output groups".into() }
        4 if g > 0 => { let k = 4 + rng.below(g); let n = ["NAND", "NOT", "inv", "MAND", "XORX", "eqw", "AN", "7"][rng.below(8)]; let mut w: Vec<String> = l[k].split(' ').map(|s| s.into()).collect(); *w.last_mut().unwrap() = n.into(); l[k] = w.join(" "); format!("gate {}", n) }
        5 if g > 0 => { let k = 4 + rng.below(g); let mut w: Vec<&str> = l[k].split(' ').collect(); w.pop(); l[k] = w.join(" "); "gate name missing".into() }
        6 if g > 0 => { let k = 4 + rng.below(g); let mut w: Vec<String> = l[k].split(' ').map(|s| s.into()).collect(); let p = rng.below(w.len() - 1); w[p] = ["a", "-3", "1.5", "99999999999999999999999", "1a"][rng.below(5)].into(); l[k] = w.join(" "); format!("non-numeric field {}", p) }
        7 if g > 0 => {
            // a wire which is not defined yet
            let k = rng.below(g);
            if f.gates[k].0 == "EQ" { return None; }
            let bad = match rng.below(3) { 0 => f.nwire, 1 => f.nwire + rng.below(1000), _ => f.gates[k + rng.below(g - k)].2[0] };
            let mut gg = f.gates[k].clone();
            let p = rng.below(gg.1.len());
            gg.1[p] = bad;
            l[4 + k] = line(&gg);
            format!("undefined wire {} in gate line {}", bad, k)
        }
        8 if g > 0 => { let k = rng.below(g); let mut gg = f.gates[k].clone(); if gg.1.len() == 2 { gg.1.pop(); } else { let w = gg.1[0]; gg.1.push(w); } l[4 + k] = line(&gg); format!("{} with {} inputs", gg.0, gg.1.len()) }
        9 if g > 0 => { let k = rng.below(g); let mut gg = f.gates[k].clone(); gg.2.push(f.nwire + 5); l[4 + k] = line(&gg); format!("{} with 2 outputs", gg.0) }
        10 if g > 0 => { let k = rng.below(g); let mut gg = f.gates[k].clone(); gg.2.clear(); l[4 + k] = line(&gg); format!("{} with no output", gg.0) }
        11 if g > 0 => { let k = rng.below(g); let mut gg = f.gates[k].clone(); gg.1.clear(); l[4 + k] = line(&gg); format!("{} with no input", gg.0) }
        12 => { l[0] = format!("{} {}", f.ngate, f.nwire + 1 + rng.below(50)); if nout == 0 { return None; } "an output wire is never defined".into() }
        13 => { if nout == 0 { return None; } l[0] = format!("{} {}", f.ngate, rng.below(nout)); "fewer wires than outputs".into() }
        14 if g > 0 && nout > 0 => {
            // drop the gate line which defines an output wire
            let k = f.gates.iter().position(|x| x.2[0] == f.nwire - 1 - rng.below(nout.min(f.nwire)))?;
            l.remove(4 + k);
            "the gate line of an output is missing".into()
        }
        15 => { l[2] = format!("2 {} {}", u64::MAX, rng.range(1, 3)); "the output groups overflow".into() }
        16 if g > 0 => { let k = 4 + rng.below(g); let w: Vec<&str> = l[k].split(' ').collect(); let keep = rng.range(1, w.len() - 1); l[k] = w[..keep].join(" "); format!("gate line cut to {} fields", keep) }
        17 => { let k = rng.range(4, l.len()); l.insert(k, [" ", "  ", "\t", " \t "][rng.below(4)].into()); "a gate line of white space only".into() }
        18 => {
            // a defective line nothing depends on
            let w = f.nwire + 7;
            let bad = [format!("2 1 0 {} {} AND", w, w + 1), format!("1 1 {} {} INV", w + 2, w), format!("1 1 0 {}", w), format!("1 1 0 {} BUF", w), format!("1 1 x {} INV", w), "1".into(), "1 1".into(), format!("1 2 0 {} {} INV", w, w + 1), format!("1 1 2 {} EQ", w), "INV".into()];
            let k = rng.range(4, l.len());
            let b = rng.below(bad.len());
            l.insert(k, bad[b].clone());
            format!("the line {:?}", bad[b])
        }
        _ => return None,
    };
    Some((name, l.join("\n") + if l.is_empty() { "" } else { "\n" }))
}

fn line(g: &(String, Vec<usize>, Vec<usize>)) -> String {
    let j = |v: &Vec<usize>| v.iter().map(|x| format!(" {}", x)).collect::<String>();
    format!("{} {}{}{} {}", g.1.len(), g.2.len(), j(&g.1), j(&g.2), g.0)
}

fn malformed_case(f: &Bf, rng: &mut Rng) -> CaseResult {
    let (name, t) = match mutate(f, rng) { Some(x) => x, None => return Ok(None) };
    let mut r = BristolNXAOReader::new();
    if rng.bool() { let g = random_file(rng); let _ = read(&mut r, g.text().as_bytes()); }
    match read(&mut r, t.as_bytes()) {
        Err(p) => Err(format!("{} on a malformed file ({}): {}", p, name, first(&t)).into()),
        Ok((_, Ok(()))) => Err(format!("a malformed file ({}) was accepted: {}", name, first(&t)).into()),
        Ok((_, Err(_))) => Ok(Some(format!("{}: {}", name, first(&t)))),
    }
}

pub fn c07(cx: &Ctx) {
    sizes(cx, "malformed", |k, t, rng| { let f = shaped_file(rng, k, t); for _ in 0..if t < 2000 { 60 } else { 4 } { malformed_case(&f, rng)?; } Ok(Some(format!("shape {} of size {}", k, t))) });
    cx.family("malformed", cx.cheap(80000), |_, rng| {
        let mut f = random_file(rng);
        if f.gates.len() > 60 { f = random_file(rng); }
        malformed_case(&f, rng)
    });
    cx.family("garbage", cx.cheap(60000), |_, rng| {
        // never a panic, whatever the bytes (numbers kept small so that the declared size is feasible)
        let t: Vec<u8> = if rng.bool() {
            let f = random_file(rng);
            let mut t = f.text().into_bytes();
            for _ in 0..rng.range(1, 6) {
                if t.is_empty() { break; }
                let p = rng.below(t.len());
                match rng.below(4) {
                    0 => { t.remove(p); }
                    1 => t[p] = b" \n0129aX\xff-"[rng.below(10)],
                    2 => t.truncate(p),
                    _ => { let q = rng.below(t.len()); t.swap(p, q); }
                }
            }
            t
        } else {
            (0..rng.range(0, 60)).map(|_| b"0123 \n 12 1 \nINVXORANDEQW\x80-"[rng.below(27)]).collect()
        };
        // keep the declared number of inputs feasible
        let s = String::from_utf8_lossy(&t).to_string();
        let big = s.lines().nth(1).map(|l| l.split_whitespace().any(|w| w.len() > 5)).unwrap_or(false);
        if big { return Ok(None); }
        match read(&mut BristolNXAOReader::new(), &t) {
            Err(p) => Err(format!("{} on {:?}", p, s).into()),
            Ok((_, r)) => Ok(Some(format!("{:?} -> {:?}", first(&s), r.is_ok()))),
        }
    });
    cx.family("reuse", cx.cheap(12000), |_, rng| {
        let mut r = BristolNXAOReader::new();
        let mut desc = String::new();
        for step in 0..rng.range(2, 5) {
            let f = random_file(rng);
            let t = match if rng.bool() { mutate(&f, rng) } else { None } { Some((_, t)) => t, None => f.text() };
            let a = read(&mut r, t.as_bytes())?;
            let b = read(&mut BristolNXAOReader::new(), t.as_bytes())?;
            if a.1.is_ok() != b.1.is_ok() { return Err(format!("step {}: a reused reader gives {:?}, a fresh one {:?} on {}", step, a.1, b.1, first(&t)).into()); }
            if a.1.is_ok() {
                let n = a.0.input_len();
                if n != b.0.input_len() || a.0.output_len() != b.0.output_len() { return Err(format!("step {}: a reused reader reads {} differently", step, first(&t)).into()); }
                let ins = lanes(rng, n);
                if walk(&a.0, &ins)? != walk(&b.0, &ins)? { return Err(format!("step {}: a reused reader reads {} differently", step, first(&t)).into()); }
            }
            desc = first(&t);
        }
        Ok(Some(desc))
    });
}

fn subject(rng: &mut Rng) -> Result<(CRef, Model), String> {
    let mut c = empty();
    let n = rng.below(5);
    let lib = random_lib(&mut c, rng, n)?;
    let shape = random_shape(rng, true);
    let b = build(&mut c, rng, shape, &lib)?;
    Ok((c, b.model))
}

/// A circuit with one dimension (gates, inputs, constants, outputs, module calls, depth) at least t.
fn shaped_subject(rng: &mut Rng, k: u64, t: usize) -> Result<(CRef, Model), String> {
    let mut c = empty();
    let lib = random_lib(&mut c, rng, 2)?;
    let (mut m, mut ids) = (Model::default(), Vec::new());
    let e = |e: BoolCircuitError| format!("an operation failed: {}", e);
    let (ni, nc, ng) = match k % 6 { 0 => (4, 1, t), 1 => (t, 1, 20), 2 => (2, t, 20), 5 => (1, 0, 0), _ => (5, 2, 40) };
    for _ in 0..ni { crate::circ::add(&mut c, &mut m, &mut ids, 0, rng)?; }
    for _ in 0..nc { crate::circ::add(&mut c, &mut m, &mut ids, 1, rng)?; }
    for _ in 0..ng { crate::circ::add(&mut c, &mut m, &mut ids, 2, rng)?; }
    if k % 6 == 5 { for i in 0..t { ids.push(c.not(&ids[i]).map_err(e)?); m.gates.push(MG::Not(i)); m.ngate += 1; } }
    let l = &lib[1];
    if l.model.ngate < 50 {
        for _ in 0..if k % 6 == 4 { t } else { 2 } {
            let n = ids.len();
            let args: Vec<usize> = (0..l.model.nin).map(|_| rng.below(n)).collect();
            let gargs: Vec<GateId> = args.iter().map(|a| ids[*a]).collect();
            let args = Rc::new(args);
            for (i, o) in c.module(&l.mid, &gargs).map_err(e)?.iter().enumerate() { ids.push(*o); m.gates.push(MG::Mod(l.model.clone(), args.clone(), i)); }
            m.ngate += l.model.ngate;
            m.nconst += l.model.nconst;
        }
    }
    let n = ids.len();
    for i in 0..if k % 6 == 3 { t } else { 6 } { let a = if i == 0 { n - 1 } else { rng.below(n) }; c.output(ids[a]).map_err(e)?; m.outs.push(a); }
    Ok((c, m))
}

fn write(c: &CRef, nf: usize) -> Result<(Vec<u8>, Vec<bool>), String> {
    let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::new(Vec::new()));
    let v = guarded(|| w.write(nf, None))?.map_err(|e| format!("write failed: {}", e))?;
    Ok((w.writer.into_inner().map_err(|e| e.to_string())?, v))
}

fn check_written(text: &[u8], consts: &[bool], c: &CRef, m: &Model, nf: usize, rng: &mut Rng) -> Result<(), String> {
    let t = String::from_utf8(text.to_vec()).map_err(|e| e.to_string())?;
    let f = parse(&t).map_err(|e| format!("{}; file {}", e, first(&t)))?;
    f.validate().map_err(|e| format!("{}; file {}", e, first(&t)))?;
    if consts.len() != m.nconst { return Err(format!("{} constant values returned for {} constants; file {}", consts.len(), m.nconst, first(&t))); }
    if f.ins != vec![nf, m.nin + m.nconst - nf] { return Err(format!("input groups {:?} instead of [{}, {}]", f.ins, nf, m.nin + m.nconst - nf)); }
    if f.outs != vec![m.outs.len()] { return Err(format!("output groups {:?} instead of [{}]", f.outs, m.outs.len())); }
    let ins = lanes(rng, m.nin);
    let want = m.outputs(&ins);
    let mut all = ins.clone();
    all.extend(consts.iter().map(|b| if *b { !0 } else { 0 }));
    let got = f.eval(&all);
    if got != want {
        let i = (0..want.len()).find(|i| got[*i] != want[*i]).unwrap();
        return Err(format!("output {} of the file differs from the circuit (inputs {:x?}); file {}", i, ins, first(&t)));
    }
    let _ = c;
    Ok(())
}

fn write_case(c: CRef, m: Model, rng: &mut Rng) -> CaseResult {
    let d = describe(&c);
    let nf = match rng.below(4) { 0 => 0, 1 => m.nin, 2 => m.nin + m.nconst, _ => rng.range(0, m.nin + m.nconst) };
    let (t, v) = write(&c, nf).map_err(|e| format!("{}; {}", e, d))?;
    check_written(&t, &v, &c, &m, nf, rng).map_err(|e| format!("{}; {}", e, d))?;
    Ok((m.ngate > 0).then(|| d))
}

pub fn c08(cx: &Ctx) {
    sizes(cx, "write", |k, t, rng| { let (c, m) = shaped_subject(rng, k, t)?; write_case(c, m, rng) });
    cx.family("write", cx.cheap(30000), |_, rng| {
        let (c, m) = subject(rng)?;
        write_case(c, m, rng)
    });
    cx.family("late", cx.cheap(4000), |_, rng| {
        let np = rng.range(2, 4);
        let (c, m) = crate::circ::grown(rng, np, |_, _, _| Ok(()))?;
        write_case(c, m, rng)
    });
    cx.family("rewrite", cx.cheap(3000), |_, rng| {
        let (c, m) = subject(rng)?;
        let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::new(Vec::new()));
        let n = rng.range(2, 3);
        let mut vals = vec![];
        let mut map = HashMap::new();
        for i in 0..n {
            vals.push(guarded(|| if i == 1 { w.write(0, Some(&mut map)) } else { w.write(0, None) })?.map_err(|e| e.to_string())?);
        }
        let t = w.writer.into_inner().map_err(|e| e.to_string())?;
        if t.len() % n != 0 { return Err("repeated writes differ".into()); }
        let l = t.len() / n;
        for i in 0..n {
            check_written(&t[i * l..(i + 1) * l], &vals[i], &c, &m, 0, rng).map_err(|e| format!("write {}: {}", i + 1, e))?;
        }
        Ok((m.ngate > 0).then(|| describe(&c)))
    });
}

pub fn c09(cx: &Ctx) {
    sizes(cx, "roundtrip", |k, t, rng| { let (c, m) = shaped_subject(rng, k, t)?; roundtrip_case(c, m, rng) });
    cx.family("roundtrip", cx.cheap(30000), |_, rng| { let (c, m) = subject(rng)?; roundtrip_case(c, m, rng) });
    cx.family("late", cx.cheap(4000), |_, rng| { let np = rng.range(2, 4); let (c, m) = crate::circ::grown(rng, np, |_, _, _| Ok(()))?; roundtrip_case(c, m, rng) });
}

fn roundtrip_case(c: CRef, m: Model, rng: &mut Rng) -> CaseResult {
        let d = describe(&c);
        let (t, v) = write(&c, rng.range(0, m.nin + m.nconst)).map_err(|e| format!("{}; {}", e, d))?;
        let (r, res) = read(&mut BristolNXAOReader::new(), &t).map_err(|e| format!("{}; {}", e, d))?;
        res.map_err(|e| format!("reading back failed: {}; {}", e, d))?;
        if r.input_len() != m.nin + v.len() || v.len() != m.nconst || r.output_len() != m.outs.len() {
            return Err(format!("read back {} inputs and {} outputs for {} inputs, {} constants, {} outputs; {}", r.input_len(), r.output_len(), m.nin, m.nconst, m.outs.len(), d).into());
        }
        for i in 0..5000 {
            match r.get_gate(&GateId(i)) {
                Ok(NXAOBoolGate::Module(_)) => return Err("the read circuit has a module call".into()),
                Ok(_) => {}
                Err(_) => break,
            }
        }
        let ins = lanes(rng, m.nin);
        let mut all = ins.clone();
        all.extend(v.iter().map(|b| if *b { !0 } else { 0 }));
        if walk(&r, &all)? != m.outputs(&ins) { return Err(format!("the read circuit computes other outputs on {:x?}; {}", ins, d).into()); }
        let b0 = lane_bits(&ins, 0);
        let o1 = guarded(|| NXAOBoolEvaluator::new(c.clone()).eval_output(&b0))?.map_err(|e| e.to_string())?;
        let o2 = guarded(|| NXAOBoolEvaluator::new(r.clone()).eval_output(&lane_bits(&all, 0)))?.map_err(|e| e.to_string())?;
        if o1 != o2 { return Err(format!("evaluations of the original and of the read circuit differ; {}", d).into()); }
        Ok((m.ngate > 0).then(|| d))
}
