//! Bookkeeping of a search: counters, deadline, current case (for hangs and aborts), failures.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, i: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15)
            ^ i.wrapping_mul(0xD1B54A32D192ED03)
            ^ 0x1234_5678_9abc)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: usize) -> usize {
        (self.next() % (k as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.n(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len())]
    }
}

#[derive(Debug)]
pub struct Fail {
    pub input: String,
    pub expected: String,
    pub actual: String,
}
pub type Res = Result<(), Fail>;

pub static CURRENT: Mutex<String> = Mutex::new(String::new());
pub static TICK: AtomicU64 = AtomicU64::new(0);

pub struct Ctx {
    pub seed: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub deadline: Instant,
    pub trace: Option<std::fs::File>,
}
impl Ctx {
    pub fn new(seed: u64, secs: f64) -> Self {
        Ctx {
            seed,
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            deadline: Instant::now() + Duration::from_secs_f64(secs),
            trace: None,
        }
    }
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline
    }
    /// Runs one case. `nontrivial` says whether it counts as distinct and non-trivial.
    pub fn case<F: FnOnce() -> Result<(), (String, String)>>(
        &mut self,
        input: String,
        nontrivial: bool,
        f: F,
    ) -> Res {
        self.evals += 1;
        TICK.fetch_add(1, Ordering::Relaxed);
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            input.hash(&mut h);
            if self.distinct.insert(h.finish())
                && (self.samples.len() < 3 || (self.samples.len() < 8 && self.evals % 1009 == 0))
            {
                self.samples.push(input.chars().take(600).collect());
            }
        }
        if let Some(t) = &mut self.trace {
            use std::io::{Seek, SeekFrom, Write};
            let _ = t.seek(SeekFrom::Start(0));
            let _ = t.set_len(0);
            let _ = t.write_all(input.as_bytes());
        }
        {
            let mut c = CURRENT.lock().unwrap();
            c.clear();
            c.push_str(&input);
        }
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(Ok(())) => Ok(()),
            Ok(Err((expected, actual))) => Err(Fail {
                input,
                expected,
                actual,
            }),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Err(Fail {
                    input,
                    expected: "no panic".into(),
                    actual: format!("panic: {m}"),
                })
            }
        }
    }
}
pub fn eq<T: PartialEq + std::fmt::Debug>(
    expected: &T,
    actual: &T,
) -> Result<(), (String, String)> {
    if expected == actual {
        Ok(())
    } else {
        Err((format!("{expected:?}"), format!("{actual:?}")))
    }
}
