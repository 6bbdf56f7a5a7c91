//! An independent reference model of circuits, random generation of a real circuit together with its
//! model, and a reference evaluator (64 assignments at once) of a real circuit through its public interface.
use crate::util::*;
use circuit_converters::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type CRef = BoolCircuitRef<NXAOBoolGate, NXAOBoolCircuit>;

thread_local! {
    static STORAGES: std::cell::RefCell<Vec<ModuleStorageRef<NXAOBoolGate, NXAOBoolCircuit>>> = Default::default();
}

/// Breaks the reference cycle (storage -> module -> storage) of every circuit of the finished case.
pub fn release() {
    STORAGES.with(|s| {
        for st in s.borrow_mut().drain(..) {
            let dropped = std::mem::take(&mut st.borrow_mut().module_map);
            drop(dropped);
        }
    });
}

pub fn empty() -> CRef {
    let st = ModuleStorageRef::new();
    STORAGES.with(|s| s.borrow_mut().push(ModuleStorageRef::clone(&st)));
    NXAOBoolCircuit::new(st).to_ref()
}

#[derive(Clone, Debug)]
pub enum MG {
    In(usize),
    Const(bool),
    Not(usize),
    Xor(usize, usize),
    And(usize, usize),
    Or(usize, usize),
    Eqv(usize, usize),
    Id(usize),
    Mod(Rc<Model>, Rc<Vec<usize>>, usize),
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub gates: Vec<MG>,
    pub nin: usize,
    pub outs: Vec<usize>,
    pub ngate: usize,
    pub nconst: usize,
}

impl Model {
    pub fn values(&self, ins: &[u64]) -> Vec<u64> {
        let mut v: Vec<u64> = Vec::with_capacity(self.gates.len());
        let mut last: Option<(*const Vec<usize>, Vec<u64>)> = None;
        for g in &self.gates {
            let x = match g {
                MG::In(i) => ins[*i],
                MG::Const(b) => if *b { !0 } else { 0 },
                MG::Not(a) => !v[*a],
                MG::Xor(a, b) => v[*a] ^ v[*b],
                MG::And(a, b) => v[*a] & v[*b],
                MG::Or(a, b) => v[*a] | v[*b],
                MG::Eqv(a, b) => !(v[*a] ^ v[*b]),
                MG::Id(a) => v[*a],
                MG::Mod(m, args, i) => {
                    let p = Rc::as_ptr(args);
                    if last.as_ref().map(|l| l.0 != p).unwrap_or(true) {
                        let ai: Vec<u64> = args.iter().map(|a| v[*a]).collect();
                        last = Some((p, m.outputs(&ai)));
                    }
                    last.as_ref().unwrap().1[*i]
                }
            };
            v.push(x);
        }
        v
    }
    pub fn outputs(&self, ins: &[u64]) -> Vec<u64> {
        let v = self.values(ins);
        self.outs.iter().map(|o| v[*o]).collect()
    }
}

#[derive(Clone)]
pub struct Lib {
    pub model: Rc<Model>,
    pub mid: ModuleId,
}

#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub ops: usize,
    pub max_in: usize,
    pub modules: bool,
    /// 0: uniform operands, 1: recent operands (deep), 2: few hubs (large fan-out)
    pub style: u8,
    pub outs: usize,
    pub consts: bool,
}

pub fn random_shape(rng: &mut Rng, modules: bool) -> Shape {
    let class = rng.below(16);
    let ops = match class {
        0..=5 => rng.range(0, 6),
        6..=11 => rng.range(3, 40),
        12..=14 => rng.range(40, 300),
        _ => rng.range(300, 2500),
    };
    Shape {
        ops,
        max_in: if rng.chance(1, 8) { rng.range(8, 80) } else { rng.range(0, 8) },
        modules,
        style: rng.below(3) as u8,
        outs: match rng.below(8) { 0 => 0, 1 => 1, 2 => rng.range(1, 300).min(ops + 4), _ => rng.range(1, 8) },
        consts: rng.chance(3, 4),
    }
}

pub struct Built {
    pub model: Model,
    pub ids: Vec<GateId>,
}

fn pick(rng: &mut Rng, n: usize, style: u8) -> usize {
    match style {
        1 if rng.chance(3, 4) => n - 1 - rng.below(n.min(3)),
        2 if rng.chance(3, 4) => rng.below(n.min(4)),
        _ => rng.below(n),
    }
}

/// Applies random operations to the real circuit `c`, and mirrors them in a model.
pub fn build(c: &mut CRef, rng: &mut Rng, shape: Shape, lib: &[Lib]) -> Result<Built, String> {
    let mut m = Model::default();
    let mut ids: Vec<GateId> = Vec::new();
    let e = |e: BoolCircuitError| format!("unexpected error: {}", e);
    let mut outs_left = shape.outs;
    let pre_in = if rng.chance(3, 4) { shape.max_in } else { rng.range(0, shape.max_in) };
    for _ in 0..pre_in {
        ids.push(c.input().map_err(e)?);
        m.gates.push(MG::In(m.nin));
        m.nin += 1;
    }
    for _ in 0..shape.ops {
        let n = m.gates.len();
        let k = rng.below(20);
        if n == 0 || k == 0 || k == 1 {
            if m.nin < shape.max_in && (!shape.consts || rng.bool()) {
                ids.push(c.input().map_err(e)?);
                m.gates.push(MG::In(m.nin));
                m.nin += 1;
            } else if shape.consts {
                let b = rng.bool();
                ids.push(c.constant(b).map_err(e)?);
                m.gates.push(MG::Const(b));
                m.nconst += 1;
            }
            continue;
        }
        let a = pick(rng, n, shape.style);
        let b = if rng.chance(1, 8) { a } else { pick(rng, n, shape.style) };
        match k {
            2..=4 => {
                ids.push(c.not(&ids[a]).map_err(e)?);
                m.gates.push(MG::Not(a));
                m.ngate += 1;
            }
            5..=7 => {
                ids.push(c.xor(&ids[a], &ids[b]).map_err(e)?);
                m.gates.push(MG::Xor(a, b));
                m.ngate += 1;
            }
            8..=10 => {
                ids.push(c.and(&ids[a], &ids[b]).map_err(e)?);
                m.gates.push(MG::And(a, b));
                m.ngate += 1;
            }
            11..=13 => {
                ids.push(c.or(&ids[a], &ids[b]).map_err(e)?);
                m.gates.push(MG::Or(a, b));
                m.ngate += 1;
            }
            14 => {
                ids.push(c.equivalent(&ids[a], &ids[b]).map_err(e)?);
                m.gates.push(MG::Eqv(a, b));
                m.ngate += 2;
            }
            15 => {
                ids.push(c.identity(&ids[a]).map_err(e)?);
                m.gates.push(MG::Id(a));
                m.ngate += 2;
            }
            16 | 17 if outs_left > 0 => {
                c.output(ids[a]).map_err(e)?;
                m.outs.push(a);
                outs_left -= 1;
            }
            _ => {
                if shape.modules && !lib.is_empty() {
                    let l = &lib[rng.below(lib.len())];
                    if l.model.ngate > 4000 { continue; }
                    let args: Vec<usize> = (0..l.model.nin).map(|_| pick(rng, n, shape.style)).collect();
                    let gargs: Vec<GateId> = args.iter().map(|a| ids[*a]).collect();
                    let outs = c.module(&l.mid, &gargs).map_err(e)?;
                    if outs.len() != l.model.outs.len() {
                        return Err(format!("module call returned {} gates instead of {}", outs.len(), l.model.outs.len()));
                    }
                    let args = Rc::new(args);
                    for (i, o) in outs.iter().enumerate() {
                        ids.push(*o);
                        m.gates.push(MG::Mod(l.model.clone(), args.clone(), i));
                    }
                    m.ngate += l.model.ngate;
                    m.nconst += l.model.nconst;
                }
            }
        }
    }
    if !m.gates.is_empty() {
        // remaining outputs, in an order biased to the last gates
        for _ in 0..outs_left {
            let n = m.gates.len();
            let a = if rng.bool() { n - 1 - rng.below(n.min(6)) } else { rng.below(n) };
            c.output(ids[a]).map_err(e)?;
            m.outs.push(a);
        }
    }
    Ok(Built { model: m, ids })
}

/// A library of modules registered in the registry of `c` (each may call earlier ones).
pub fn random_lib(c: &mut CRef, rng: &mut Rng, n: usize) -> Result<Vec<Lib>, String> {
    let mut lib: Vec<Lib> = Vec::new();
    for _ in 0..n {
        let mut shape = random_shape(rng, true);
        shape.ops = shape.ops.min(30);
        shape.max_in = shape.max_in.min(9);
        shape.outs = rng.range(1, 6);
        if rng.chance(1, 12) { shape.outs = rng.range(10, 70) }
        match rng.below(3) {
            0 => {
                // a circuit with a registry of its own, so without nested modules of ours
                let mut f = empty();
                let inner = if rng.bool() { random_lib(&mut f, rng, 1)? } else { vec![] };
                let b = build(&mut f, rng, shape, &inner)?;
                let mid = c.register_module(&f);
                lib.push(Lib { model: Rc::new(b.model), mid });
            }
            _ => {
                let (mid, mut s) = c.sub_circuit();
                let b = build(&mut s, rng, shape, &lib)?;
                lib.push(Lib { model: Rc::new(b.model), mid });
            }
        }
    }
    Ok(lib)
}

/// Reference evaluation of a real circuit through its public accessors only.
pub fn walk(c: &CRef, ins: &[u64]) -> Result<Vec<u64>, String> {
    let e = |e: BoolCircuitError| format!("unexpected error: {}", e);
    let mut w = Walk { c: c.clone(), memo: HashMap::new(), calls: HashMap::new() };
    for i in 0..c.input_len() {
        let id = c.input_to_gate_id(&WireId(i as u64)).map_err(e)?.ok_or("input without gate")?;
        w.memo.insert(id, ins[i]);
    }
    let mut outs = Vec::new();
    for i in 0..c.output_len() {
        let id = c.output_to_gate_id(&WireId(i as u64)).map_err(e)?;
        outs.push(w.gate(&id)?);
    }
    Ok(outs)
}

pub struct Walk {
    c: CRef,
    memo: HashMap<GateId, u64>,
    calls: HashMap<(ModuleId, Vec<GateId>), Vec<u64>>,
}
impl Walk {
    fn gate(&mut self, id: &GateId) -> Result<u64, String> {
        if let Some(v) = self.memo.get(id) {
            return Ok(*v);
        }
        let g = self.c.get_gate(id).map_err(|e| e.to_string())?;
        let v = match g {
            NXAOBoolGate::Input(_) => return Err(format!("input gate {} has no value", id)),
            NXAOBoolGate::Const(g) => if g.value { !0 } else { 0 },
            NXAOBoolGate::Not(g) => !self.gate(&g.id)?,
            NXAOBoolGate::Xor(g) => self.gate(&g.left_id)? ^ self.gate(&g.right_id)?,
            NXAOBoolGate::And(g) => self.gate(&g.left_id)? & self.gate(&g.right_id)?,
            NXAOBoolGate::Or(g) => self.gate(&g.left_id)? | self.gate(&g.right_id)?,
            NXAOBoolGate::Module(g) => {
                let key = (g.module_id, g.input_ids.clone());
                if !self.calls.contains_key(&key) {
                    let mut args = Vec::new();
                    for i in &g.input_ids {
                        args.push(self.gate(i)?);
                    }
                    let m = self.c.get_module(&g.module_id).map_err(|e| e.to_string())?;
                    let r = walk(&m, &args)?;
                    self.calls.insert(key.clone(), r);
                }
                *self.calls[&key].get(g.out_index).ok_or("module output index out of range")?
            }
        };
        self.memo.insert(*id, v);
        Ok(v)
    }
}

pub fn lanes(rng: &mut Rng, n: usize) -> Vec<u64> {
    // up to 6 inputs: all assignments
    const A: [u64; 6] = [0xaaaaaaaaaaaaaaaa, 0xcccccccccccccccc, 0xf0f0f0f0f0f0f0f0, 0xff00ff00ff00ff00, 0xffff0000ffff0000, 0xffffffff00000000];
    (0..n).map(|i| if n <= 6 { A[i] } else { rng.u64() }).collect()
}

pub fn lane_bits(l: &[u64], k: usize) -> Vec<bool> {
    l.iter().map(|x| (x >> k) & 1 == 1).collect()
}

pub fn bits_str(b: &[bool]) -> String {
    b.iter().map(|x| if *x { '1' } else { '0' }).collect()
}

/// Describes a circuit for a report.
pub fn describe(c: &CRef) -> String {
    let mut s = format!("in={} out={} ", c.input_len(), c.output_len());
    for i in 0..60u64 {
        match c.get_gate(&GateId(i)) {
            Ok(g) => s.push_str(&format!("g{}={:?}; ", i, g)),
            Err(_) => break,
        }
    }
    for i in 0..c.output_len().min(20) {
        if let Ok(g) = c.output_to_gate_id(&WireId(i as u64)) {
            s.push_str(&format!("o{}=g{} ", i, g));
        }
    }
    s.chars().take(1500).collect()
}
