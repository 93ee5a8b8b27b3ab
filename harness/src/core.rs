//! Case bookkeeping: counting, panic capture, sampling, watchdog.
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Self(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn flip(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }
}

pub struct Violation {
    pub key: String,
    pub input: String,
    pub message: String,
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub scratch: std::path::PathBuf,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub rule: String,
    pub deadline: Instant,
    pub only: Option<String>,
    pub trace: Option<String>,
}

static CURRENT: OnceLock<Mutex<(String, String, Instant)>> = OnceLock::new();

fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

/// Run `f`, turning a panic into `Err(message)`
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| format!("panic: {}", p.borrow())))
}

impl Ctx {
    /// Evaluate one case. `key` names the case (stable across runs), `input` describes it in full.
    pub fn case(&mut self, key: &str, input: &str, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        if let Some(only) = &self.only {
            if only != key {
                return;
            }
        }
        if self.violations.len() >= 12 || self.expired() {
            return;
        }
        {
            let mut cur = CURRENT.get().unwrap().lock().unwrap();
            cur.0.clear();
            cur.0.push_str(key);
            cur.1.clear();
            cur.1.push_str(input);
            cur.2 = Instant::now();
        }
        if let Some(path) = &self.trace {
            let text = format!("{{\"key\": {}, \"input\": {}}}", esc(key), esc(input));
            std::fs::write(path, text).ok();
        }
        self.evaluations += 1;
        if nontrivial && self.distinct.insert(hash(input)) && self.samples.len() < 8 {
            let n = self.distinct.len();
            if n == 1 || n % 97 == 0 {
                self.samples.push(clip(input, 600));
            }
        }
        let outcome = match guarded(f) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        if let Err(message) = outcome {
            self.violations.push(Violation {
                key: key.to_string(),
                input: input.to_string(),
                message,
            });
        }
    }
    pub fn expired(&self) -> bool {
        Instant::now() > self.deadline
    }
    pub fn pick_n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "…"
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_report(path: &std::path::Path, ctx: &Ctx, complete: bool) {
    let mut o = String::new();
    o.push_str("{\n");
    o.push_str(&format!(" \"complete\": {complete},\n"));
    o.push_str(&format!(" \"hooks\": {},\n", cfg!(feature = "hooks")));
    o.push_str(&format!(" \"evaluations\": {},\n", ctx.evaluations));
    o.push_str(&format!(" \"distinct_nontrivial\": {},\n", ctx.distinct.len()));
    o.push_str(&format!(" \"rule\": {},\n", esc(&ctx.rule)));
    let s: Vec<_> = ctx.samples.iter().map(|s| esc(s)).collect();
    o.push_str(&format!(" \"samples\": [{}],\n", s.join(", ")));
    let v: Vec<_> = ctx
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"key\": {}, \"input\": {}, \"message\": {}}}",
                esc(&v.key),
                esc(&v.input),
                esc(&clip(&v.message, 4000))
            )
        })
        .collect();
    o.push_str(&format!(" \"violations\": [{}]\n}}\n", v.join(",\n  ")));
    let mut f = std::fs::File::create(path).unwrap();
    f.write_all(o.as_bytes()).unwrap();
}

/// A case that runs for longer than `limit` is reported as not terminating; the process then ends.
/// The case being run is written next to the report, for aborts (stack overflow, signals).
pub fn start_watchdog(cur_path: std::path::PathBuf, limit: Duration) {
    CURRENT
        .set(Mutex::new((String::new(), String::new(), Instant::now())))
        .ok();
    std::thread::spawn(move || {
        let mut stuck_since: Option<(String, Instant)> = None;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let (key, input, since) = {
                let cur = CURRENT.get().unwrap().lock().unwrap();
                (cur.0.clone(), cur.1.clone(), cur.2)
            };
            if key.is_empty() || since.elapsed() < limit {
                stuck_since = None;
                continue;
            }
            if stuck_since.is_none() {
                stuck_since = Some((key.clone(), Instant::now()));
            }
            let text = format!(
                "{{\"key\": {}, \"input\": {}, \"message\": {}}}",
                esc(&key),
                esc(&input),
                esc(&format!("did not finish within {} s", limit.as_secs()))
            );
            std::fs::write(&cur_path, text).ok();
            std::process::exit(77);
        }
    });
}

pub fn current_case() -> Option<(String, String)> {
    CURRENT
        .get()
        .map(|m| m.lock().unwrap_or_else(|e| e.into_inner()))
        .map(|c| (c.0.clone(), c.1.clone()))
}
