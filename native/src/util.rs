//! Harness plumbing: PRNG, counters, panic capture, watchdog, failure report.
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed ^ 0x9E3779B97F4A7C15) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.next() % den < num }
    pub fn byte(&mut self) -> u8 {
        match self.below(4) { 0 => [0u8, 1, 0xff, 0x7f, 0x80, 0x40, 0x3f, 0xfe][self.below(8)], 1 => self.below(6) as u8, _ => self.next() as u8 }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
    pub fn small(&mut self, max: usize) -> usize { let a = self.below(max + 1); let b = self.below(max + 1); a.min(b) }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
pub static CUR: Mutex<String> = Mutex::new(String::new());
static CURB: Mutex<(&'static str, Vec<u8>)> = Mutex::new(("", Vec::new()));
static TICK: AtomicU64 = AtomicU64::new(0);
pub static EVALS: AtomicU64 = AtomicU64::new(0);

pub struct Stats { pub distinct: HashSet<u64>, pub samples: Vec<String>, pub per_test: Vec<(String, u64)> }
pub static STATS: Mutex<Option<Stats>> = Mutex::new(None);
pub static PROP: Mutex<String> = Mutex::new(String::new());

pub fn set_test(name: &str) { *CUR.lock().unwrap() = name.to_string(); }
/// Remember the case about to run (so that an abort or a hang can be reported with it).
pub fn set_case(kind: &'static str, data: &[u8]) {
    let mut c = CURB.lock().unwrap();
    c.0 = kind; c.1.clear(); c.1.extend_from_slice(data);
    drop(c);
    TICK.fetch_add(1, Ordering::Relaxed);
}
pub fn hexs(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn short(s: String) -> String { if s.len() > 600 { format!("{}…(+{} chars)", s.chars().take(600).collect::<String>(), s.len() - 600) } else { s } }
fn case_desc() -> String {
    let c = match CURB.try_lock() { Ok(c) => (c.0, c.1.clone()), Err(_) => ("?", vec![]) };
    let h = hexs(&c.1[..c.1.len().min(400)]);
    format!("{} {}{}", c.0, h, if c.1.len() > 400 { "…" } else { "" })
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o
}
static LASTG: Mutex<String> = Mutex::new(String::new());
/// A panic nothing guarded: reported as a failure, with the case that was running.
pub fn harness_panic() -> ! { let m = LASTG.lock().unwrap().clone(); fail(format!("panic outside a guarded call: {}", m)) }
/// Print the failure line and exit.
pub fn fail(msg: String) -> ! {
    let t = CUR.try_lock().map(|s| s.clone()).unwrap_or_default();
    println!("FAIL {{\"test\":\"{}\",\"case\":\"{}\",\"message\":\"{}\"}}", esc(&t), esc(&case_desc()), esc(&short(msg)));
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info);
        *LASTG.lock().unwrap() = m.clone();
        if m.contains("unsafe precondition") || m.contains("panic in a function that cannot unwind") || m.contains("unreachable_unchecked") {
            fail(format!("undefined behaviour detected: {}", m));
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    std::thread::spawn(|| {
        let mut last = 0; let mut n = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let t = TICK.load(Ordering::Relaxed);
            if t == last { n += 1 } else { n = 0; last = t }
            if n > 120 { fail("no progress for 60 s on one case (does not terminate?)".into()) }
        }
    });
}
/// Run `f`, turning a panic into Err(message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}
fn fnv(kind: &str, data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in kind.as_bytes().iter().chain(data) { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3) }
    h
}
/// Count an evaluation; non-trivial ones are counted distinct by (kind,data).
pub fn count(kind: &str, data: &[u8], nontrivial: bool) {
    EVALS.fetch_add(1, Ordering::Relaxed);
    if nontrivial {
        let mut g = STATS.lock().unwrap();
        let s = g.get_or_insert_with(|| Stats { distinct: HashSet::new(), samples: vec![], per_test: vec![] });
        if s.distinct.len() < 3_000_000 { s.distinct.insert(fnv(kind, data)); }
        let l = s.distinct.len();
        if s.samples.len() < 6 && (l % 997 == 1 || (s.samples.len() < 2)) { let d = hexs(&data[..data.len().min(40)]); s.samples.push(format!("{} {}", kind, d)); }
    }
}
#[macro_export]
macro_rules! check { ($c:expr, $($a:tt)*) => { if !($c) { $crate::util::fail(format!($($a)*)) } } }
#[macro_export]
macro_rules! g { ($e:expr, $($a:tt)*) => { match $crate::util::guard(|| $e) { Ok(r) => r, Err(m) => $crate::util::fail(format!("panic in {}: {}", format!($($a)*), m)) } } }
