//! C01..C05: construction, bookkeeping, evaluation, modules.
use crate::model::*;
use crate::util::*;
use circuit_converters::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

/// A snapshot of everything observable about the gates `ids` of a circuit.
fn snapshot(c: &CRef, ids: &[GateId]) -> Result<(Vec<NXAOBoolGate>, Vec<GateId>, Vec<GateId>), String> {
    let mut gs = Vec::new();
    for i in ids {
        gs.push(c.get_gate(i).map_err(|e| format!("gate {} lost: {}", i, e))?);
    }
    let mut ins = Vec::new();
    for i in 0..c.input_len() {
        ins.push(c.input_to_gate_id(&WireId(i as u64)).map_err(|e| e.to_string())?.ok_or("input without a gate")?);
    }
    let mut outs = Vec::new();
    for i in 0..c.output_len() {
        outs.push(c.output_to_gate_id(&WireId(i as u64)).map_err(|e| e.to_string())?);
    }
    Ok((gs, ins, outs))
}

fn value_check(c: &CRef, model: &Model, ids: &[GateId], rng: &mut Rng) -> Result<(), String> {
    // values of all gates, through the public accessors
    let ins = lanes(rng, model.nin);
    let want = model.values(&ins);
    let mut d = c.borrow().clone();
    for id in ids {
        d.output(*id).map_err(|e| e.to_string())?;
    }
    let n0 = c.output_len();
    let got = walk(&d.to_ref(), &ins)?;
    for (i, w) in want.iter().enumerate() {
        if got[n0 + i] != *w {
            return Err(format!("the gate of operation {} ({:?}, id {}) has the wrong value under inputs {:x?}", i, short(&model.gates[i]), ids[i], ins));
        }
    }
    Ok(())
}

fn short(g: &MG) -> String {
    match g {
        MG::Mod(_, a, i) => format!("Mod(args {:?}, out {})", a, i),
        g => format!("{:?}", g),
    }
}

pub fn c01(cx: &Ctx) {
    hinted(cx, 1);
    cx.family("ops", cx.cheap(20000), |k, rng| {
        let mut c = empty();
        let lib = if rng.chance(1, 4) { random_lib(&mut c, rng, 2)? } else { vec![] };
        let mut shape = random_shape(rng, !lib.is_empty());
        if k % 97 == 0 { shape.ops = 3000 }
        let b = build(&mut c, rng, shape, &lib)?;
        let set: HashSet<GateId> = b.ids.iter().cloned().collect();
        if set.len() != b.ids.len() {
            return Err(format!("a gate identifier was returned twice: {:?}", b.ids).into());
        }
        value_check(&c, &b.model, &b.ids, rng).map_err(|e| format!("{}; {}", e, describe(&c)))?;
        Ok((b.ids.len() > 2).then(|| describe(&c)))
    });
    // each single operation, with the frame checked right after it
    cx.family("frame", cx.cheap(4000), |_, rng| {
        let mut c = empty();
        let mut shape = random_shape(rng, false);
        shape.ops = shape.ops.min(120);
        shape.max_in = shape.max_in.max(1);
        let b = build(&mut c, rng, shape, &[])?;
        let mut ids = b.ids;
        if ids.is_empty() { ids.push(c.input().map_err(|e| e.to_string())?); }
        let mut all = ids.clone();
        for step in 0..12u64 {
            let before = snapshot(&c, &all)?;
            let x = ids[rng.below(ids.len())];
            let y = if rng.chance(1, 5) { x } else { ids[rng.below(ids.len())] };
            let op = rng.below(8);
            let bval = rng.bool();
            let g = match op {
                0 => c.input(),
                1 => c.constant(bval),
                2 => c.not(&x),
                3 => c.xor(&x, &y),
                4 => c.and(&x, &y),
                5 => c.or(&x, &y),
                6 => c.equivalent(&x, &y),
                _ => c.identity(&x),
            }
            .map_err(|e| format!("operation {} failed: {}", op, e))?;
            if all.contains(&g) {
                return Err(format!("operation {} returned the existing identifier {}", op, g).into());
            }
            let after = snapshot(&c, &all)?;
            if after.0 != before.0 { return Err(format!("operation {} changed an existing gate", op).into()); }
            if after.2 != before.2 { return Err(format!("operation {} changed the outputs", op).into()); }
            let exp_in = before.1.len() + (op == 0) as usize;
            if after.1.len() != exp_in || after.1[..before.1.len()] != before.1[..] {
                return Err(format!("operation {} changed the inputs", op).into());
            }
            // direct truth table of the new gate
            let gate = c.get_gate(&g).map_err(|e| e.to_string())?;
            let ok = match op {
                0 => matches!(&gate, NXAOBoolGate::Input(i) if c.input_to_gate_id(&i.wire_id).ok() == Some(Some(g))),
                1 => matches!(&gate, NXAOBoolGate::Const(q) if q.value == bval),
                _ => true,
            };
            if !ok { return Err(format!("operation {} created {:?}", op, gate).into()); }
            ids.push(g);
            all.push(g);
            let _ = step;
        }
        Ok(Some(format!("{} gates then 12 framed operations", before_len(&all))))
    });
}
fn before_len(a: &[GateId]) -> usize { a.len() }

fn counters(c: &CRef) -> [usize; 5] {
    [c.input_len(), c.output_len(), c.num_const(), c.num_gate(), c.num_wire()]
}

pub fn c02(cx: &Ctx) {
    hinted(cx, 2);
    cx.family("counts", cx.cheap(15000), |_, rng| {
        let mut c = empty();
        let n = rng.range(0, 3);
        let lib = random_lib(&mut c, rng, n)?;
        for l in &lib {
            let m = c.get_module(&l.mid).map_err(|e| e.to_string())?;
            check_counts(&m, &l.model).map_err(|e| format!("module: {}; {}", e, describe(&m)))?;
        }
        let shape = random_shape(rng, true);
        let b = build(&mut c, rng, shape, &lib)?;
        check_counts(&c, &b.model).map_err(|e| format!("{}; {}", e, describe(&c)))?;
        for (i, o) in b.model.outs.iter().enumerate() {
            match c.output_to_gate_id(&WireId(i as u64)) {
                Ok(g) if g == b.ids[*o] => {}
                r => return Err(format!("output {} resolves to {:?} instead of {}", i, r, b.ids[*o]).into()),
            }
        }
        let mut k = 0;
        for (i, g) in b.model.gates.iter().enumerate() {
            if let MG::In(j) = g {
                match c.input_to_gate_id(&WireId(*j as u64)) {
                    Ok(Some(g)) if g == b.ids[i] => {}
                    r => return Err(format!("input {} resolves to {:?} instead of {}", j, r, b.ids[i]).into()),
                }
                k += 1;
            }
        }
        Ok((k > 0).then(|| describe(&c)))
    });
    cx.family("unknown", cx.cheap(6000), |_, rng| {
        let mut c = empty();
        let lib = random_lib(&mut c, rng, 1)?;
        let shape = random_shape(rng, true);
        let b = build(&mut c, rng, shape, &lib)?;
        let before = (counters(&c), snapshot(&c, &b.ids)?);
        let known: HashSet<GateId> = b.ids.iter().cloned().collect();
        for _ in 0..6 {
            let off = match rng.below(3) { 0 => rng.below(3) as u64, 1 => rng.u64() % 5000, _ => rng.u64() };
            let iw = WireId((c.input_len() as u64).saturating_add(off));
            if c.input_to_gate_id(&iw).is_ok() { return Err(format!("unregistered input {} resolves", iw).into()); }
            let ow = WireId((c.output_len() as u64).saturating_add(off));
            if c.output_to_gate_id(&ow).is_ok() { return Err(format!("unregistered output {} resolves", ow).into()); }
            // identifiers are opaque: internal gates of equivalent/identity are known too, so stay clear of them
            let g = GateId((b.ids.iter().map(|g| g.0).max().unwrap_or(0) + 5).saturating_add(off));
            if !known.contains(&g) {
                if c.get_gate(&g).is_ok() { return Err(format!("unknown gate {} resolves", g).into()); }
                if c.output(g).is_ok() { return Err(format!("unknown gate {} was accepted as an output", g).into()); }
            }
            let after = (counters(&c), snapshot(&c, &b.ids)?);
            if after != before { return Err("a rejected call changed the circuit".to_string().into()); }
        }
        Ok(Some(describe(&c)))
    });
    // pass-through modules, repeated and constant module outputs
    cx.family("degenerate", 200, |_, rng| {
        let mut c = empty();
        let (mid, mut s) = c.sub_circuit();
        let nin = rng.range(0, 4);
        let mut m = Model::default();
        let mut ids = vec![];
        for i in 0..nin { ids.push(s.input().map_err(|e| e.to_string())?); m.gates.push(MG::In(i)); m.nin += 1; }
        if nin == 0 || rng.bool() {
            ids.push(s.constant(true).map_err(|e| e.to_string())?);
            m.gates.push(MG::Const(true));
            m.nconst += 1;
        }
        for _ in 0..rng.range(0, 9) {
            let a = rng.below(ids.len());
            s.output(ids[a]).map_err(|e| e.to_string())?;
            m.outs.push(a);
        }
        check_counts(&s, &m)?;
        let lib = vec![Lib { model: Rc::new(m), mid }];
        let mut shape = random_shape(rng, true);
        shape.ops = 30;
        shape.max_in = shape.max_in.max(1);
        let b = build(&mut c, rng, shape, &lib)?;
        check_counts(&c, &b.model).map_err(|e| format!("{}; {}", e, describe(&c)))?;
        Ok(Some(describe(&c)))
    });
}

fn check_counts(c: &CRef, m: &Model) -> Result<(), String> {
    let want = [m.nin, m.outs.len(), m.nconst, m.ngate, m.nin + m.nconst + m.ngate];
    let got = counters(c);
    if got != want {
        return Err(format!("[inputs, outputs, constants, gates, wires] reported {:?}, actual {:?}", got, want));
    }
    Ok(())
}

fn eval_check(c: &CRef, m: &Model, rng: &mut Rng, ev: &mut NXAOBoolEvaluator) -> Result<(), String> {
    let ins = lanes(rng, m.nin);
    let want = m.outputs(&ins);
    let reps = if m.nin <= 3 { 1 << m.nin } else { 4 };
    for _ in 0..reps {
        let k = if m.nin <= 3 { rng.below(8) } else { rng.below(64) };
        let bits = lane_bits(&ins, k);
        let got = ev.eval_output(&bits).map_err(|e| format!("evaluation failed on inputs {}: {}", bits_str(&bits), e))?;
        let w = lane_bits(&want, k);
        if got != w {
            return Err(format!("inputs {} evaluate to {} instead of {}", bits_str(&bits), bits_str(&got), bits_str(&w)));
        }
    }
    let _ = c;
    Ok(())
}

pub fn c03(cx: &Ctx) {
    hinted(cx, 3);
    cx.family("dag", cx.cheap(80000), |_, rng| {
        let mut c = empty();
        let shape = random_shape(rng, false);
        let b = build(&mut c, rng, shape, &[])?;
        let mut ev = NXAOBoolEvaluator::new(c.clone());
        let d = describe(&c);
        eval_guard(&c, &b.model, rng, &mut ev).map_err(|e| format!("{}; {}", e, d))?;
        Ok((!b.model.outs.is_empty()).then(|| d))
    });
    // all small circuits: every gate kind and operand choice, every output list of length 2 or 3
    cx.family("small", cx.cheap(40000), |k, rng| {
        let mut c = empty();
        let nin = 1 + (k % 2) as usize;
        let mut m = Model::default();
        let mut ids = vec![];
        for i in 0..nin { ids.push(c.input().map_err(|e| e.to_string())?); m.gates.push(MG::In(i)); m.nin += 1; }
        let e = |e: BoolCircuitError| e.to_string();
        for _ in 0..rng.range(1, 4) {
            let (a, b) = (rng.below(ids.len()), rng.below(ids.len()));
            match rng.below(5) {
                0 => { ids.push(c.not(&ids[a]).map_err(e)?); m.gates.push(MG::Not(a)) }
                1 => { ids.push(c.xor(&ids[a], &ids[b]).map_err(e)?); m.gates.push(MG::Xor(a, b)) }
                2 => { ids.push(c.and(&ids[a], &ids[b]).map_err(e)?); m.gates.push(MG::And(a, b)) }
                3 => { ids.push(c.or(&ids[a], &ids[b]).map_err(e)?); m.gates.push(MG::Or(a, b)) }
                _ => { let v = rng.bool(); ids.push(c.constant(v).map_err(e)?); m.gates.push(MG::Const(v)) }
            }
        }
        for _ in 0..rng.range(1, 5) {
            let a = rng.below(ids.len());
            c.output(ids[a]).map_err(e)?;
            m.outs.push(a);
        }
        let d = describe(&c);
        let mut ev = NXAOBoolEvaluator::new(c.clone());
        for v in 0..1u64 << nin {
            let bits: Vec<bool> = (0..nin).map(|i| (v >> i) & 1 == 1).collect();
            let ins: Vec<u64> = bits.iter().map(|b| *b as u64).collect();
            let want: Vec<bool> = m.outputs(&ins).iter().map(|x| x & 1 == 1).collect();
            let got = guarded(|| ev.eval_output(&bits)).map_err(|p| format!("{} on inputs {}; {}", p, bits_str(&bits), d))?
                .map_err(|e| format!("evaluation failed on inputs {}: {}; {}", bits_str(&bits), e, d))?;
            if got != want {
                return Err(format!("inputs {} evaluate to {} instead of {}; {}", bits_str(&bits), bits_str(&got), bits_str(&want), d).into());
            }
        }
        Ok(Some(d))
    });
    cx.family("history", cx.cheap(4000), |_, rng| history(rng, 1));
    cx.family("deep", cx.scale(6, 40), |k, rng| {
        let mut c = empty();
        let shape = Shape { ops: 4000 + 3000 * k as usize, max_in: 5, modules: false, style: (k % 3) as u8, outs: 20, consts: true };
        let b = build(&mut c, rng, shape, &[])?;
        let mut ev = NXAOBoolEvaluator::new(c.clone());
        eval_guard(&c, &b.model, rng, &mut ev)?;
        Ok(Some(format!("{} gates", b.ids.len())))
    });
}

fn eval_guard(c: &CRef, m: &Model, rng: &mut Rng, ev: &mut NXAOBoolEvaluator) -> Result<(), String> {
    match guarded(|| eval_check(c, m, rng, ev)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

/// One evaluator, used between the operations that make its circuit (and the circuit's modules) grow.
fn history(rng: &mut Rng, np: usize) -> CaseResult {
    let mut ev: Option<NXAOBoolEvaluator> = None;
    let (c, m) = grown(rng, np, |c, m, rng| {
        let ev = ev.get_or_insert_with(|| NXAOBoolEvaluator::new(c.clone()));
        eval_guard(c, m, rng, ev).map_err(|e| format!("{}; evaluated while it grows: {}", e, describe(c)))
    })?;
    let d = describe(&c);
    let mut ev = match ev { Some(e) => e, None => return Ok(None) };
    eval_guard(&c, &m, rng, &mut ev).map_err(|e| format!("{}; evaluated again after it grew: {}", e, d))?;
    Ok(Some(d))
}

pub fn c04(cx: &Ctx) {
    hinted(cx, 4);
    cx.family("modules", cx.cheap(40000), |_, rng| {
        let mut c = empty();
        let n = rng.range(1, 5);
        let lib = random_lib(&mut c, rng, n)?;
        let mut shape = random_shape(rng, true);
        shape.ops = shape.ops.min(200);
        let b = build(&mut c, rng, shape, &lib)?;
        let d = describe(&c);
        let mut ev = NXAOBoolEvaluator::new(c.clone());
        eval_guard(&c, &b.model, rng, &mut ev).map_err(|e| format!("{}; {}", e, d))?;
        Ok(b.model.gates.iter().any(|g| matches!(g, MG::Mod(..))).then(|| d))
    });
    // exactly one call: any subset/order of outputs, arguments repeated, results feeding gates
    cx.family("one-call", cx.cheap(20000), |_, rng| {
        let mut c = empty();
        let lib = random_lib(&mut c, rng, 2)?;
        let l = &lib[1];
        let e = |e: BoolCircuitError| e.to_string();
        let nin = rng.range(1, 4);
        let mut m = Model::default();
        let mut ids = vec![];
        for i in 0..nin { ids.push(c.input().map_err(e)?); m.gates.push(MG::In(i)); m.nin += 1; }
        let args: Vec<usize> = (0..l.model.nin).map(|_| rng.below(nin)).collect();
        let gargs: Vec<GateId> = args.iter().map(|a| ids[*a]).collect();
        let args = Rc::new(args);
        let outs = c.module(&l.mid, &gargs).map_err(e)?;
        if outs.len() != l.model.outs.len() { return Err("wrong number of module outputs".into()); }
        for (i, o) in outs.iter().enumerate() { ids.push(*o); m.gates.push(MG::Mod(l.model.clone(), args.clone(), i)); }
        for _ in 0..rng.range(0, 3) {
            let (a, b) = (rng.below(ids.len()), rng.below(ids.len()));
            ids.push(c.xor(&ids[a], &ids[b]).map_err(e)?);
            m.gates.push(MG::Xor(a, b));
        }
        for _ in 0..rng.range(1, 6) { let a = rng.below(ids.len()); c.output(ids[a]).map_err(e)?; m.outs.push(a); }
        let d = describe(&c);
        let mut ev = NXAOBoolEvaluator::new(c.clone());
        eval_guard(&c, &m, rng, &mut ev).map_err(|e| format!("{}; {}", e, d))?;
        Ok(Some(d))
    });
    cx.family("history", cx.cheap(6000), |_, rng| { let np = rng.range(2, 4); history(rng, np) });
    cx.family("nesting", cx.cheap(300), |k, rng| {
        // depth k chain of modules
        let mut c = empty();
        let mut lib: Vec<Lib> = random_lib(&mut c, rng, 1)?;
        for _ in 0..(3 + k % 40) {
            let (mid, mut s) = c.sub_circuit();
            let shape = Shape { ops: 6, max_in: 4, modules: true, style: 1, outs: 3, consts: true };
            let one = vec![lib[lib.len() - 1].clone()];
            let b = build(&mut s, rng, shape, &one)?;
            lib.push(Lib { model: Rc::new(b.model), mid });
        }
        let last = lib[lib.len() - 1].clone();
        let shape = Shape { ops: 12, max_in: 6, modules: true, style: 0, outs: 4, consts: false };
        let b = build(&mut c, rng, shape, &[last])?;
        let d = describe(&c);
        let mut ev = NXAOBoolEvaluator::new(c.clone());
        eval_guard(&c, &b.model, rng, &mut ev).map_err(|e| format!("{}; {}", e, d))?;
        Ok(Some(d))
    });
}

pub fn c05(cx: &Ctx) {
    hinted(cx, 5);
    cx.family("registry", cx.cheap(6000), |k, rng| {
        let e = |e: BoolCircuitError| e.to_string();
        let mut refs: Vec<CRef> = vec![empty()];
        // (id, circuit, marker): the marker is the number of inputs, kept up to date
        let mut mods: Vec<(ModuleId, CRef, usize)> = Vec::new();
        let steps = if k % 50 == 0 { 400 } else { rng.range(1, 40) };
        for _ in 0..steps {
            let who = rng.below(refs.len());
            match rng.below(6) {
                0 | 1 => {
                    let (mid, s) = refs[who].sub_circuit();
                    if mods.iter().any(|m| m.0 == mid) { return Err(format!("module identifier {} returned twice", mid).into()); }
                    mods.push((mid, s.clone(), 0));
                    if refs.len() < 12 { refs.push(s); }
                }
                2 => {
                    let f = if rng.bool() && !mods.is_empty() { mods[rng.below(mods.len())].1.clone() } else { empty() };
                    let n = f.input_len();
                    let mid = refs[who].register_module(&f);
                    if mods.iter().any(|m| m.0 == mid) { return Err(format!("module identifier {} returned twice", mid).into()); }
                    mods.push((mid, f, n));
                }
                3 if !mods.is_empty() => {
                    // grow a registered circuit after its registration
                    let i = rng.below(mods.len());
                    let mut r = mods[i].1.clone();
                    let g = r.input().map_err(e)?;
                    if rng.bool() { r.output(g).map_err(e)?; }
                }
                4 => {
                    let bad = ModuleId(mods.iter().map(|m| m.0 .0).max().map(|m| m + 1).unwrap_or(0) + if rng.bool() { 0 } else { rng.u64() % 1000 });
                    if refs[who].get_module(&bad).is_ok() { return Err(format!("unknown module {} resolves", bad).into()); }
                    let before = format!("{:?}", counters(&refs[who]));
                    if refs[who].module(&bad, &[]).is_ok() { return Err(format!("unknown module {} can be called", bad).into()); }
                    if before != format!("{:?}", counters(&refs[who])) { return Err("a rejected module call changed the circuit".into()); }
                }
                _ => {}
            }
            // every identifier resolves, from every sharing circuit, to the same circuit
            let w = &refs[rng.below(refs.len())];
            for (mid, c, _) in &mods {
                let got = w.get_module(mid).map_err(|e| format!("module {} does not resolve any more: {}", mid, e))?;
                let n = got.input_len();
                let mut p = c.clone();
                if rng.chance(1, 10) { p.input().map_err(e)?; }
                if got.input_len() != p.input_len() || (n != got.input_len()) != (n != p.input_len()) {
                    return Err(format!("module {} resolves to another circuit", mid).into());
                }
                let same = { std::ptr::eq(&*got.borrow() as *const _, &*c.borrow() as *const _) };
                if !same { return Err(format!("module {} resolves to another circuit (not the registered one)", mid).into()); }
            }
        }
        Ok((mods.len() > 1).then(|| format!("{} modules, {} circuits, {} steps, case {}", mods.len(), refs.len(), steps, k)))
    });
    cx.family("calls", cx.cheap(10000), |_, rng| {
        let e = |e: BoolCircuitError| e.to_string();
        let mut c = empty();
        let lib = random_lib(&mut c, rng, 3)?;
        let shape = random_shape(rng, false);
        let b = build(&mut c, rng, Shape { max_in: shape.max_in.max(2), ops: shape.ops.min(60), ..shape }, &[])?;
        let mut ids = b.ids.clone();
        if ids.is_empty() { ids.push(c.input().map_err(e)?); }
        let mut seen: HashMap<GateId, NXAOBoolGate> = HashMap::new();
        for i in &ids { seen.insert(*i, c.get_gate(i).map_err(e)?); }
        for _ in 0..rng.range(1, 8) {
            let l = &lib[rng.below(lib.len())];
            let args: Vec<GateId> = (0..l.model.nin).map(|_| ids[rng.below(ids.len())]).collect();
            let before = counters(&c);
            let outs = c.module(&l.mid, &args).map_err(e)?;
            if outs.len() != l.model.outs.len() { return Err(format!("a call of a module with {} outputs returned {} gates", l.model.outs.len(), outs.len()).into()); }
            for (i, o) in outs.iter().enumerate() {
                if seen.contains_key(o) { return Err(format!("module call returned the existing gate {}", o).into()); }
                match c.get_gate(o).map_err(e)? {
                    NXAOBoolGate::Module(g) => {
                        if g.input_ids != args || g.out_index != i || g.module_id != l.mid || g.input_len != l.model.nin || g.output_len != l.model.outs.len() {
                            return Err(format!("module gate {:?} does not record call of module {} with {:?}, output {}", g, l.mid, args, i).into());
                        }
                        seen.insert(*o, NXAOBoolGate::Module(g));
                    }
                    g => return Err(format!("module call created {:?}", g).into()),
                }
                ids.push(*o);
            }
            let after = counters(&c);
            if before[0] != after[0] || before[1] != after[1] { return Err("module call changed the inputs or outputs".into()); }
            for (i, g) in &seen { if &c.get_gate(i).map_err(e)? != g { return Err(format!("gate {} changed", i).into()); } }
        }
        Ok(Some(describe(&c)))
    });
}

/// Modules that get constants, gates, outputs and calls after they were called. The constants written are those of the expanded circuit.
/// `seen` is called on the circuit in between.
pub fn grown(rng: &mut Rng, np: usize, mut seen: impl FnMut(&CRef, &Model, &mut Rng) -> Result<(), String>) -> Result<(CRef, Model), String> {
    let mut c = empty();
    let e = |e: BoolCircuitError| format!("an operation failed: {}", e);
    let mut parts: Vec<(CRef, Model, Vec<GateId>, ModuleId, Vec<usize>)> = vec![];
    for i in 0..np {
        let (mid, mut s) = if i + 1 < np { c.sub_circuit() } else { (ModuleId(u64::MAX), c.clone()) };
        let (mut m, mut ids) = (Model::default(), vec![]);
        for _ in 0..rng.range(1, 4) { add(&mut s, &mut m, &mut ids, 0, rng)?; }
        if rng.bool() { add(&mut s, &mut m, &mut ids, 1, rng)?; }
        add(&mut s, &mut m, &mut ids, 2, rng)?;
        s.output(ids[ids.len() - 1]).map_err(e)?;
        m.outs.push(ids.len() - 1);
        parts.push((s, m, ids, mid, vec![]));
    }
    for _ in 0..rng.range(4, 24) {
        let p = rng.below(np);
        let q = rng.below(np);
        let callee = (q < p).then(|| (parts[q].1.clone(), parts[q].3));
        let (s, m, ids, _, calls) = &mut parts[p];
        match rng.below(5) {
            0 => add(s, m, ids, 1, rng)?,
            1 => { let a = rng.below(ids.len()); s.output(ids[a]).map_err(e)?; m.outs.push(a); }
            2 => add(s, m, ids, 2, rng)?,
            3 if p + 1 == np && rng.chance(1, 4) => add(s, m, ids, 0, rng)?,
            _ => if let Some((cm, mid)) = callee {
                let args: Vec<usize> = (0..cm.nin).map(|_| rng.below(ids.len())).collect();
                let gargs: Vec<GateId> = args.iter().map(|a| ids[*a]).collect();
                let (cm, args) = (Rc::new(cm), Rc::new(args));
                for (i, o) in s.module(&mid, &gargs).map_err(e)?.iter().enumerate() { ids.push(*o); m.gates.push(MG::Mod(cm.clone(), args.clone(), i)); }
                m.ngate += 1;
                calls.push(q);
            }
        }
        if rng.chance(1, 3) { seen(&c, &parts[np - 1].1, rng)?; }
    }
    let (s, m, ids, _, _) = &mut parts[np - 1];
    let a = ids.len() - 1;
    s.output(ids[a]).map_err(e)?;
    m.outs.push(a);
    let mut total: Vec<usize> = vec![];
    for p in &parts { total.push(p.1.nconst + p.4.iter().map(|q| total[*q]).sum::<usize>()); }
    let mut m = parts.pop().unwrap().1;
    m.nconst = total[np - 1];
    Ok((c, m))
}

/// A circuit with the given numbers of gates, inputs, outputs, constants and modules (a verifier's counterexample, or the surroundings of a
/// threshold in the code), then a few dozen operations, each checked for the given property.
fn hinted(cx: &Ctx, prop: u8) {
    cx.family("hint", 8, |k, rng| stressed(cx, prop, k, rng, |n| cx.hint_n(n)));
    // fixed sizes around the usual limits
    cx.family("large", cx.scale(12, 48), |k, rng| {
        let t = [250, 65_520][(k / 6) as usize % 2] + (k / 12) as usize * 3;
        let dim = ["gates", "inputs", "outputs", "consts", "modules", "nargs"][(k % 6) as usize];
        stressed(cx, prop, k, rng, |n| (n == dim).then_some(t))
    });
}

fn stressed(cx: &Ctx, prop: u8, k: u64, rng: &mut Rng, hint: impl Fn(&str) -> Option<usize>) -> CaseResult {
        let get = |n: &str, d: usize| hint(n).unwrap_or(d);
        let (nin, nout, ncon, nmod) = (get("inputs", 2), get("outputs", 0), get("consts", 0), get("modules", 1));
        let ngates = get("gates", 6).max(nin + ncon).max(1);
        let nargs = hint("nargs");
        if [ngates, nin, nout, ncon, nmod, nargs.unwrap_or(0)].iter().any(|n| *n > 300_000) { return Ok(None); }
        let e = |e: BoolCircuitError| format!("an operation failed: {}", e);
        let mut c = empty();
        let mut lib: Vec<Lib> = Vec::new();
        let mut mods: Vec<(ModuleId, Option<CRef>)> = Vec::new();
        for i in 0..nmod {
            let (mid, mut s) = c.sub_circuit();
            if mods.len() < 3 || i + 3 > nmod {
                let ins = nargs.unwrap_or(rng.below(4));
                let shape = Shape { ops: 6, max_in: ins, modules: false, style: 0, outs: rng.range(1, 4), consts: true };
                let mut b = build(&mut s, rng, shape, &[])?;
                while b.model.nin < ins || b.ids.is_empty() { b.ids.push(s.input().map_err(e)?); b.model.gates.push(MG::In(b.model.nin)); b.model.nin += 1; }
                if b.model.outs.is_empty() || rng.bool() { let a = b.ids.len() - 1; s.output(b.ids[a]).map_err(e)?; b.model.outs.push(a); }
                lib.push(Lib { model: Rc::new(b.model), mid });
                mods.push((mid, Some(s)));
            } else { mods.push((mid, None)); }
        }
        if prop == 5 {
            let set: HashSet<ModuleId> = mods.iter().map(|m| m.0).collect();
            if set.len() != mods.len() { return Err(format!("a module identifier was returned twice while registering {} modules", nmod).into()); }
        }
        let mut m = Model::default();
        let mut ids: Vec<GateId> = Vec::new();
        let mut kinds: Vec<u8> = std::iter::repeat(0).take(nin).chain(std::iter::repeat(1).take(ncon)).chain(std::iter::repeat(2).take(ngates - nin - ncon)).collect();
        if k % 2 == 1 { for i in (1..kinds.len()).rev() { let j = rng.below(i + 1); kinds.swap(i, j); } }
        for t in &kinds { let t = if ids.is_empty() && *t == 2 { 1 } else { *t as usize }; add(&mut c, &mut m, &mut ids, t, rng)?; }
        for i in 0..nout {
            let a = rng.below(ids.len());
            let w = c.output(ids[a]).map_err(e)?;
            if prop == 2 && w.0 != i as u64 { return Err(format!("output number {} was numbered {}", i, w).into()); }
            m.outs.push(a);
        }
        let mut known: HashSet<GateId> = ids.iter().cloned().collect();
        if prop == 1 && known.len() != ids.len() { return Err(format!("a gate identifier was returned twice among {} gates", ids.len()).into()); }
        let special: Vec<usize> = ["a", "b"].iter().filter_map(|n| hint(n)).filter(|a| *a < ids.len() && ids[*a].0 == *a as u64).collect();
        let sample = |rng: &mut Rng, n: usize| -> Vec<usize> { if n <= 400 { (0..n).collect() } else { (0..60).map(|_| rng.below(n)).chain(0..10).chain(n - 30..n).collect() } };
        for step in 0..40usize {
            let look = sample(rng, ids.len());
            let mut before = Vec::new();
            if prop == 1 { for i in &look { before.push(c.get_gate(&ids[*i]).map_err(|e| format!("gate {} is lost: {}", ids[*i], e))?); } }
            let (n0, outs0, cnt0) = (ids.len(), m.outs.len(), counters(&c));
            let x = if step < 8 && !special.is_empty() { special[rng.below(special.len())] } else { rng.below(ids.len()) };
            let y = if step < 8 && !special.is_empty() { special[special.len() - 1] } else { rng.below(ids.len()) };
            let op = if step < 16 && prop <= 3 { (step / 2) % 8 } else { rng.below(13) };
            match op {
                0..=7 => {
                    let v = rng.bool();
                    let g = match op {
                        0 => c.input(), 1 => c.constant(v), 2 => c.not(&ids[x]), 3 => c.xor(&ids[x], &ids[y]), 4 => c.and(&ids[x], &ids[y]),
                        5 => c.or(&ids[x], &ids[y]), 6 => c.equivalent(&ids[x], &ids[y]), _ => c.identity(&ids[x]),
                    }.map_err(|e| format!("operation {} failed with {} gates: {}", op, n0, e))?;
                    m.gates.push(match op { 0 => MG::In(m.nin), 1 => MG::Const(v), 2 => MG::Not(x), 3 => MG::Xor(x, y), 4 => MG::And(x, y), 5 => MG::Or(x, y), 6 => MG::Eqv(x, y), _ => MG::Id(x) });
                    m.nin += (op == 0) as usize;
                    m.nconst += (op == 1) as usize;
                    m.ngate += [0, 0, 1, 1, 1, 1, 2, 2][op];
                    ids.push(g);
                    if op == 1 && prop == 2 && c.borrow().get_const_gates().last() != Some(&g) { return Err("the new constant is not listed last".to_string().into()); }
                }
                8 => {
                    let w = c.output(ids[x]).map_err(e)?;
                    m.outs.push(x);
                    if prop == 2 && w.0 != outs0 as u64 { return Err(format!("output number {} was numbered {}", outs0, w).into()); }
                }
                9 => {
                    let g = GateId(ids.iter().map(|g| g.0).max().unwrap_or(0) + 5 + [0, 1000, 1 << 33][rng.below(3)]);
                    let r = c.output(g).is_ok();
                    if prop == 2 && r { return Err(format!("the unknown gate {} was accepted as an output", g).into()); }
                    if r { return Ok(None); }
                }
                10 if !lib.is_empty() && prop != 3 => {
                    let l = lib[rng.below(lib.len())].clone();
                    let args: Vec<usize> = (0..l.model.nin).map(|_| rng.below(n0)).collect();
                    let gargs: Vec<GateId> = args.iter().map(|a| ids[*a]).collect();
                    let outs = c.module(&l.mid, &gargs).map_err(e)?;
                    if outs.len() != l.model.outs.len() {
                        if prop == 5 || prop == 4 { return Err(format!("a call of a module with {} outputs returned {} gates", l.model.outs.len(), outs.len()).into()); }
                        return Ok(None);
                    }
                    let args = Rc::new(args);
                    for (i, o) in outs.iter().enumerate() {
                        if prop == 5 {
                            match c.get_gate(o).map_err(e)? {
                                NXAOBoolGate::Module(g) if g.input_ids == gargs && g.out_index == i && g.module_id == l.mid && g.input_len == l.model.nin && g.output_len == l.model.outs.len() => {}
                                g => return Err(format!("gate {:?} does not record the call of module {} with {} arguments, output {}", g, l.mid, gargs.len(), i).into()),
                            }
                        }
                        ids.push(*o);
                        m.gates.push(MG::Mod(l.model.clone(), args.clone(), i));
                    }
                    m.ngate += l.model.ngate;
                    m.nconst += l.model.nconst;
                }
                11 => {
                    let bad = ModuleId(mods.iter().map(|m| m.0 .0).max().map(|m| m + 1).unwrap_or(0) + [0, 3, 1 << 33][rng.below(3)]);
                    let r = (c.get_module(&bad).is_ok(), c.module(&bad, &[ids[x]]).is_ok());
                    if prop == 5 && (r.0 || r.1) { return Err(format!("the unknown module {} {}", bad, if r.0 { "resolves" } else { "can be called" }).into()); }
                    if r.1 { return Ok(None); }
                }
                _ => {
                    let (mid, f) = if rng.bool() { c.sub_circuit() } else { let f = empty(); (c.register_module(&f), f) };
                    if prop == 5 && mods.iter().any(|m| m.0 == mid) { return Err(format!("module identifier {} was returned twice", mid).into()); }
                    mods.push((mid, Some(f)));
                }
            }
            if prop == 1 {
                for i in n0..ids.len() { if !known.insert(ids[i]) { return Err(format!("operation {} returned the existing identifier {}", op, ids[i]).into()); } }
                for (i, b) in look.iter().zip(&before) {
                    if c.get_gate(&ids[*i]).map_err(|e| e.to_string())? != *b { return Err(format!("operation {} changed gate {}", op, ids[*i]).into()); }
                }
            }
            if prop == 1 || prop == 2 {
                for i in sample(rng, m.outs.len()) {
                    let r = c.output_to_gate_id(&WireId(i as u64)).ok();
                    if r != Some(ids[m.outs[i]]) { return Err(format!("output {} resolves to {:?} instead of {} after operation {}", i, r, ids[m.outs[i]], op).into()); }
                }
                let ins: Vec<usize> = m.gates.iter().enumerate().filter(|g| matches!(g.1, MG::In(_))).map(|g| g.0).collect();
                for i in sample(rng, ins.len()) {
                    let r = c.input_to_gate_id(&WireId(i as u64)).ok().flatten();
                    if r != Some(ids[ins[i]]) { return Err(format!("input {} resolves to {:?} instead of {} after operation {}", i, r, ids[ins[i]], op).into()); }
                }
            }
            if prop == 2 {
                check_counts(&c, &m).map_err(|e| format!("after operation {}: {}", op, e))?;
                for (i, past) in [(c.output_len() as u64, true), (c.input_len() as u64, false)] {
                    for d in [0u64, 1, 700, 1 << 34] {
                        if past && c.output_to_gate_id(&WireId(i + d)).is_ok() { return Err(format!("the unregistered output {} resolves", i + d).into()); }
                        if !past && c.input_to_gate_id(&WireId(i + d)).is_ok() { return Err(format!("the unregistered input {} resolves", i + d).into()); }
                    }
                }
            }
            if prop == 5 {
                if matches!(op, 11 | 12) && counters(&c) != cnt0 { return Err(format!("operation {} changed the circuit's counters", op).into()); }
                for i in sample(rng, mods.len()) {
                    let got = c.get_module(&mods[i].0).map_err(|e| format!("module {} does not resolve any more: {}", mods[i].0, e))?;
                    if let Some(f) = &mods[i].1 {
                        if !{ std::ptr::eq(&*got.borrow() as *const _, &*f.borrow() as *const _) } { return Err(format!("module {} resolves to another circuit", mods[i].0).into()); }
                    }
                }
            }
        }
        if prop == 1 { value_check(&c, &m, &ids, rng)?; }
        if prop == 3 || prop == 4 {
            for _ in 0..6 { let a = rng.below(ids.len()); c.output(ids[a]).map_err(e)?; m.outs.push(a); }
            let mut ev = NXAOBoolEvaluator::new(c.clone());
            eval_guard(&c, &m, rng, &mut ev)?;
        }
        let _ = cx;
        Ok(Some(format!("gates {} inputs {} outputs {} constants {} modules {} arguments {:?} case {}", ngates, nin, nout, ncon, nmod, nargs, k)))
}

pub fn add(c: &mut CRef, m: &mut Model, ids: &mut Vec<GateId>, kind: usize, rng: &mut Rng) -> Result<(), String> {
    let e = |e: BoolCircuitError| format!("an operation failed: {}", e);
    let n = ids.len();
    let (g, q) = match kind {
        0 => { m.nin += 1; (c.input().map_err(e)?, MG::In(m.nin - 1)) }
        1 => { let v = rng.bool(); m.nconst += 1; (c.constant(v).map_err(e)?, MG::Const(v)) }
        _ => {
            let (a, b) = (rng.below(n), rng.below(n));
            m.ngate += 1;
            match rng.below(4) {
                0 => (c.not(&ids[a]).map_err(e)?, MG::Not(a)),
                1 => (c.xor(&ids[a], &ids[b]).map_err(e)?, MG::Xor(a, b)),
                2 => (c.and(&ids[a], &ids[b]).map_err(e)?, MG::And(a, b)),
                _ => (c.or(&ids[a], &ids[b]).map_err(e)?, MG::Or(a, b)),
            }
        }
    };
    ids.push(g);
    m.gates.push(q);
    Ok(())
}
