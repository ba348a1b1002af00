//! Case runner: derives every case from (seed, property, index), records what was observed, and
//! writes a result file that the driver turns into a verdict and evidence.
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Seek, SeekFrom, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if GUARDED.with(|g| g.get()) > 0 {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        } else {
            default(info)
        }
    }));
}

/// Runs code under test; a panic becomes an error instead of ending the harness.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|_| {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        format!("panic: {}", m.replace('\n', " "))
    })
}

pub struct Ctx {
    pub pid: String,
    pub seed: u64,
    pub worker: u64,
    pub workers: u64,
    pub scale: f64,
    pub thorough: bool,
    budget: Duration,
    min_cases: u64,
    max_cases: u64,
    pub only: Option<u64>,
    out: String,
    progress: Option<std::fs::File>,
    start: Instant,
    pub counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    pub violations: Vec<(String, String)>,
    evaluations: u64,
    pub extra: Vec<String>,
    exact: u64,
    /// Added to the indices that are reported for the cases of `run`.
    pub offset: u64,
}

fn pid_num(pid: &str) -> u64 {
    pid.bytes().fold(7, |a, b| a * 131 + b as u64)
}

impl Ctx {
    /// Usage: BIN PID [--seed N] [--worker I/N] [--ms N] [--min N] [--max N] [--case IDX]
    /// [--scale X] [--tier T] [--out FILE] [--extra S]...
    pub fn from_args() -> Ctx {
        let args: Vec<String> = std::env::args().collect();
        let mut c = Ctx {
            pid: args.get(1).cloned().unwrap_or_default(),
            seed: 1,
            worker: 0,
            workers: 1,
            scale: 1.0,
            thorough: false,
            budget: Duration::from_millis(3000),
            min_cases: 1,
            max_cases: u64::MAX,
            only: None,
            out: String::new(),
            progress: None,
            start: Instant::now(),
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            evaluations: 0,
            extra: Vec::new(),
            exact: 0,
            offset: 0,
        };
        let mut i = 2;
        while i + 1 < args.len() {
            let v = args[i + 1].as_str();
            match args[i].as_str() {
                "--seed" => c.seed = v.parse().expect("seed"),
                "--worker" => {
                    let (a, b) = v.split_once('/').expect("worker");
                    c.worker = a.parse().unwrap();
                    c.workers = b.parse().unwrap();
                }
                "--ms" => c.budget = Duration::from_millis(v.parse().expect("ms")),
                "--min" => c.min_cases = v.parse().expect("min"),
                "--max" => c.max_cases = v.parse().expect("max"),
                "--case" => c.only = Some(v.parse().expect("case")),
                "--scale" => c.scale = v.parse().expect("scale"),
                "--tier" => c.thorough = v == "thorough",
                "--out" => c.out = v.to_string(),
                "--extra" => c.extra.push(v.to_string()),
                other => panic!("unknown argument {other}"),
            }
            i += 2;
        }
        if !c.out.is_empty() {
            c.progress = std::fs::File::create(format!("{}.progress", c.out)).ok();
        }
        install_hook();
        c
    }

    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }

    pub fn budget(&self) -> Duration {
        self.budget
    }

    /// Tells the driver which case is running, for the case that it crashes or never returns.
    pub fn note(&mut self, idx: u64) {
        if let Some(f) = &mut self.progress {
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(format!("{:<20}\n", idx + self.offset).as_bytes());
        }
    }

    pub fn case_rng(&self, idx: u64) -> Rng {
        Rng::new(mix(&[self.seed, pid_num(&self.pid), idx]))
    }

    /// Runs cases until the budget is spent (but at least the minimum number) or one violates.
    pub fn run(&mut self, mut case: impl FnMut(&mut Ctx, u64, &mut Rng)) {
        if let Some(idx) = self.only {
            let mut rng = self.case_rng(idx);
            self.note(idx);
            case(self, idx, &mut rng);
            return;
        }
        let mut i = 0u64;
        while i < self.max_cases
            && (i < self.min_cases || self.start.elapsed() < self.budget)
            && self.violations.is_empty()
        {
            let idx = i * self.workers + self.worker;
            let mut rng = self.case_rng(idx);
            self.note(idx);
            case(self, idx, &mut rng);
            i += 1;
        }
        self.add("cases", i);
    }

    pub fn add(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.counters.entry(format!("max_{name}")).or_insert(0);
        *e = (*e).max(n);
    }
    /// One oracle evaluation; `nontrivial` by the property's rule, identified by `key`.
    pub fn eval(&mut self, key: u64, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial && self.distinct.len() < 400_000 {
            self.distinct.insert(key);
        }
    }
    /// `n` evaluations that are distinct and non-trivial by construction.
    pub fn add_exact(&mut self, n: u64) {
        self.evaluations += n;
        self.exact += n;
    }
    pub fn evals(&mut self, n: u64) {
        self.evaluations += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn violate(&mut self, idx: u64, what: impl Into<String>) {
        if self.violations.len() < 5 {
            self.violations.push(((idx + self.offset).to_string(), what.into()));
        }
    }

    pub fn finish(self) -> ! {
        let mut s = String::new();
        let q = |x: &str| -> String {
            let mut o = String::from("\"");
            for ch in x.chars() {
                match ch {
                    '"' => o += "\\\"",
                    '\\' => o += "\\\\",
                    c if (c as u32) < 0x20 => {
                        let _ = write!(o, "\\u{:04x}", c as u32);
                    }
                    c => o.push(c),
                }
            }
            o + "\""
        };
        let _ = write!(s, "{{\"evaluations\":{},\"exact\":{},\"counters\":{{", self.evaluations, self.exact);
        let c: Vec<String> = self.counters.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        s += &c.join(",");
        s += "},\"samples\":[";
        s += &self.samples.iter().map(|x| q(x)).collect::<Vec<_>>().join(",");
        s += "],\"violations\":[";
        s += &self
            .violations
            .iter()
            .map(|(a, b)| format!("{{\"case\":{},\"what\":{}}}", q(a), q(b)))
            .collect::<Vec<_>>()
            .join(",");
        let _ = write!(s, "],\"wall_s\":{:.3}}}", self.start.elapsed().as_secs_f64());
        if self.out.is_empty() {
            println!("{s}");
        } else {
            let mut bytes = Vec::with_capacity(self.distinct.len() * 8);
            for h in &self.distinct {
                bytes.extend_from_slice(&h.to_le_bytes());
            }
            std::fs::write(format!("{}.keys", self.out), bytes).expect("write keys");
            std::fs::write(&self.out, s).expect("write result");
        }
        std::process::exit(if self.violations.is_empty() { 0 } else { 1 })
    }
}

pub fn hash_f64s(it: impl IntoIterator<Item = f64>) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for v in it {
        h = (h ^ v.to_bits()).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}
