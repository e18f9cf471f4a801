//! Bounded contract checks: runs executable contracts against the real functions on
//! enumerated and seeded random inputs, and reports the inputs on which one fails.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

#[derive(Default)]
struct Stat {
    evaluations: u64,
    nontrivial: u64,
    seen: HashSet<u64>,
    sample: Option<String>,
}

struct Fail {
    contract: String,
    input: String,
    message: String,
}

pub struct Bench {
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    start: Instant,
    budget: Duration,
    module: String,
    out: String,
    trace: Option<String>,
    only: Option<String>,
    stats: BTreeMap<String, Stat>,
    fails: Vec<Fail>,
    deadline: Instant,
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn short(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...[{} bytes]", &s[..k], s.len())
    }
}

fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

impl Bench {
    /// args: MODULE SEED TIER SECONDS OUT [--trace FILE] [--only CONTRACT]
    pub fn from_args() -> Bench {
        let a: Vec<String> = std::env::args().collect();
        let opt = |name: &str| a.iter().position(|x| x == name).map(|i| a[i + 1].clone());
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            *LAST_PANIC.lock().unwrap() = short(&(msg + &at), 400);
        }));
        let seed: u64 = a[2].parse().unwrap();
        let secs: f64 = a[4].parse().unwrap();
        let start = Instant::now();
        Bench {
            rng: Rng::new(seed),
            seed,
            thorough: a[3] == "thorough",
            start,
            budget: Duration::from_secs_f64(secs),
            module: a[1].clone(),
            out: a[5].clone(),
            trace: opt("--trace"),
            only: opt("--only"),
            stats: BTreeMap::new(),
            fails: vec![],
            deadline: start + Duration::from_secs_f64(secs),
        }
    }
    pub fn wants(&self, m: &str) -> bool {
        m == self.module
    }
    /// Starts a phase that may use `share` of the whole budget.
    pub fn phase(&mut self, share: f64) {
        self.deadline = Instant::now() + self.budget.mul_f64(share);
    }
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline
    }
    pub fn failed(&self, contract: &str) -> bool {
        self.fails.iter().filter(|f| f.contract == contract).count() >= 3
    }
    /// One evaluation of a contract on one input.
    pub fn case<I: Debug + Hash>(
        &mut self,
        contract: &str,
        input: &I,
        nontrivial: bool,
        f: impl FnOnce(&I) -> Result<(), String>,
    ) {
        if let Some(o) = &self.only {
            if o != contract {
                return;
            }
        }
        if self.failed(contract) {
            return;
        }
        let mut h = DefaultHasher::new();
        input.hash(&mut h);
        let key = h.finish();
        if !self.stats.contains_key(contract) {
            self.stats.insert(contract.to_string(), Stat::default());
        }
        let st = self.stats.get_mut(contract).unwrap();
        if !st.seen.insert(key) {
            return; // already evaluated on this input
        }
        st.evaluations += 1;
        if nontrivial {
            st.nontrivial += 1;
            if st.sample.is_none() || st.nontrivial == 50 {
                st.sample = Some(short(&format!("{:?}", input), 300));
            }
        }
        if let Some(t) = &self.trace {
            let text = format!("{}\n{}\n", contract, short(&format!("{:?}", input), 20000));
            let _ = std::fs::write(t, text);
        }
        let r = catch_unwind(AssertUnwindSafe(|| f(input)));
        let message = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(_) => format!("panicked: {}", LAST_PANIC.lock().unwrap()),
        };
        self.fails.push(Fail {
            contract: contract.to_string(),
            input: short(&format!("{:?}", input), 20000),
            message: short(&message, 4000),
        });
    }
    pub fn finish(&mut self) {
        let mut s = String::from("{\"stats\":{");
        let mut first = true;
        for (k, v) in &self.stats {
            if !first {
                s.push(',');
            }
            first = false;
            s += &format!(
                "{}:{{\"evaluations\":{},\"nontrivial\":{},\"sample\":{}}}",
                json_str(k), v.evaluations, v.nontrivial, json_str(v.sample.as_deref().unwrap_or(""))
            );
        }
        s += "},\"fails\":[";
        for (i, f) in self.fails.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s += &format!(
                "{{\"contract\":{},\"input\":{},\"message\":{}}}",
                json_str(&f.contract), json_str(&f.input), json_str(&f.message)
            );
        }
        s += &format!("],\"wall_s\":{:.2}}}", self.start.elapsed().as_secs_f64());
        std::fs::write(&self.out, s).unwrap();
    }
}

/// Runs f and says whether it panicked (for contracts that allow an abort).
pub fn aborts<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn want<T: PartialEq + Debug>(what: &str, got: T, expected: T) -> Result<(), String> {
    if got == expected {
        Ok(())
    } else {
        Err(format!("{}: got {}, expected {}", what, short(&format!("{:?}", got), 1500), short(&format!("{:?}", expected), 1500)))
    }
}

pub fn ensure(what: &str, ok: bool) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(format!("violated: {}", what))
    }
}
