//! Deterministic randomness and the bookkeeping of cases.
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.u64() % den < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Fail {
    pub family: String,
    pub index: u64,
    pub key: String,
    pub detail: String,
}

/// What one executed case reports on success: a fingerprint of the case (None: trivial).
pub type CaseResult = Result<Option<String>, Bad>;
pub struct Bad {
    pub key: String,
    pub detail: String,
}
impl From<String> for Bad {
    fn from(detail: String) -> Self {
        Bad { key: String::new(), detail }
    }
}
impl From<&str> for Bad {
    fn from(detail: &str) -> Self {
        Bad { key: String::new(), detail: detail.to_string() }
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub per_family: std::collections::BTreeMap<String, u64>,
    pub skipped: u64,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub hints: Vec<(String, String)>,
    pub only: Option<(String, u64)>,
    pub stats: Mutex<Stats>,
    pub start: std::time::Instant,
    pub budget_s: f64,
    /// One line per worker naming the case it is in, so that a crash or a hang can be attributed.
    pub journal: Option<std::fs::File>,
    pub running: Mutex<Vec<Option<(String, u64, std::time::Instant)>>>,
}

const CASE_LIMIT_S: u64 = 200;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = msg);
    }));
}

/// Runs `f`, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone()).replace('\n', " ")))
}

impl Ctx {
    /// A value taken from a verifier's counterexample (`--hint name=value`).
    pub fn hint(&self, name: &str) -> Option<&str> {
        self.hints.iter().find(|(n, _)| n == name).map(|(_, v)| v.as_str())
    }
    pub fn hint_n(&self, name: &str) -> Option<usize> {
        self.hint(name).and_then(|v| v.parse().ok())
    }
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough { thorough } else { quick }
    }
    /// A number of cheap cases: `n` in the thorough tier's unit.
    pub fn cheap(&self, n: u64) -> u64 {
        if self.thorough { 100 * n } else { 8 * n }
    }

    /// Runs cases 0..n of a family on all cores. Each case derives its randomness from
    /// (property, family, index, seed) alone, so that a single case can be run again.
    pub fn family(&self, family: &str, n: u64, f: impl Fn(u64, &mut Rng) -> CaseResult + Sync) {
        let run_one = |worker: usize, k: u64| {
            use std::os::unix::fs::FileExt;
            if let Some(j) = &self.journal {
                let _ = j.write_all_at(format!("{:<60} {:>18}\n", family, k).as_bytes(), worker as u64 * 80);
            }
            self.running.lock().unwrap()[worker] = Some((family.to_string(), k, std::time::Instant::now()));
            let mut rng = Rng::new(hash(&format!("{}/{}/{}/{}", self.prop, family, k, self.seed)));
            let res = match guarded(|| f(k, &mut rng)) {
                Ok(r) => r,
                Err(p) => Err(Bad { key: String::new(), detail: p }),
            };
            let _ = guarded(crate::model::release);
            if let Some(j) = &self.journal {
                let _ = j.write_all_at(format!("{:<60} {:>18}\n", "", "").as_bytes(), worker as u64 * 80);
            }
            self.running.lock().unwrap()[worker] = None;
            let mut st = self.stats.lock().unwrap();
            st.evaluations += 1;
            *st.per_family.entry(family.to_string()).or_insert(0) += 1;
            match res {
                Ok(Some(s)) => {
                    let h = hash(&format!("{}|{}", family, s));
                    if st.nontrivial.insert(h) && st.per_family[family] <= 2 && st.samples.len() < 12 {
                        let s: String = s.chars().take(300).collect();
                        st.samples.push(format!("{}#{}: {}", family, k, s));
                    }
                }
                Ok(None) => {}
                Err(b) => {
                    if !b.key.is_empty() { let h = hash(&format!("{}|{}", family, b.detail)); st.nontrivial.insert(h); }
                    st.fails.push(Fail { family: family.to_string(), index: k, key: b.key, detail: b.detail })
                }
            }
        };
        if self.hints.is_empty() == (family == "hint") { return; }
        if let Some((fam, k)) = &self.only {
            if fam == family {
                std::thread::scope(|s| {
                    std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, || run_one(0, *k)).unwrap();
                });
            }
            return;
        }
        let next = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|s| {
            for w in 0..8 {
                let (next, run_one) = (&next, &run_one);
                std::thread::Builder::new()
                    .stack_size(1 << 30)
                    .spawn_scoped(s, move || loop {
                        let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if k >= n {
                            break;
                        }
                        {
                            let mut st = self.stats.lock().unwrap();
                            if self.start.elapsed().as_secs_f64() > self.budget_s {
                                st.skipped += 1;
                                continue;
                            }
                            if st.fails.iter().filter(|f| f.family == family && f.key.is_empty()).count() >= 5 {
                                break;
                            }
                        }
                        run_one(w, k);
                    })
                    .unwrap();
            }
        });
    }
}

/// Ends the process with a report when one case runs for too long.
pub fn watchdog(cx: &'static Ctx) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let hung = cx.running.lock().unwrap().iter().flatten().find(|r| r.2.elapsed().as_secs() > CASE_LIMIT_S).cloned();
        if let Some((fam, k, _)) = hung {
            let (n, d) = cx.stats.try_lock().map(|s| (s.evaluations, s.nontrivial.len())).unwrap_or((0, 0));
            println!(
                "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"skipped\":0,\"wall_s\":{:.2},\"families\":{{}},\"samples\":[],\"fails\":[{{\"family\":{},\"index\":{},\"key\":\"\",\"detail\":\"the case did not finish within {} s\"}}]}}",
                n, d, cx.start.elapsed().as_secs_f64(), json_str(&fam), k, CASE_LIMIT_S
            );
            std::process::exit(1);
        }
    });
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
